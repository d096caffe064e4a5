"""Equality goals between structured values, and their discharge."""
import z3
from fractions import Fraction
from .values import *
from .values import Hole
from .loops import Act
from . import poly as P


class Goal:
    def __init__(self, assume, goal, why=""):
        self.assume, self.goal, self.why = list(assume), goal, why


def goals(it, a, b, assume=(), why="value", strict=True):
    """list of Goals whose conjunction implies a and b denote the same value"""
    out = []
    _val(it, a, b, list(assume), why, out)
    return out


def _fail(out, assume, why, structural=True):
    out.append(Goal(assume, False, why + (" [structure]" if structural else "")))


def _with(it, assume, f):
    saved = it.pc
    it.pc = it.pc + [x for x in assume if x is not True]
    try:
        return f()
    finally:
        it.pc = saved


def _seqof(it, v):
    if isinstance(v, Seq):
        return v
    if isinstance(v, tuple):
        return Seq.of(v)
    if isinstance(v, (VList, VIter, SArr)):
        return it.heap[v.ref]
    if isinstance(v, VArr) and len(v.shape) == 1 and v.kind == "numpy":
        return Seq.of(it.arr_vals(v))
    if isinstance(v, Frozen) and v.kind in ("VList", "VIter", "SArr"):
        return v.data
    return None


def _val(it, a, b, assume, why, out):
    if a is b:
        return
    if isinstance(a, Frozen) and not (isinstance(b, Frozen)):
        a = it.thaw(a)
    if isinstance(b, Frozen) and not (isinstance(a, Frozen)):
        b = it.thaw(b)
    if isinstance(a, Frozen) and isinstance(b, Frozen):
        a, b = it.thaw(a), it.thaw(b)
    sa, sb = _seqof(it, a), _seqof(it, b)
    if sa is not None and sb is not None:
        return _seq(it, sa, sb, assume, why, out)
    if isinstance(a, VObj) and isinstance(b, VObj):
        if a.ref == b.ref:
            return
        if a.cls.name != b.cls.name:
            return _fail(out, assume, f"{why}: {a.cls.name} vs {b.cls.name}", False)
        da, db = it.heap[a.ref], it.heap[b.ref]
        for k in sorted(set(da) | set(db)):
            if k not in da or k not in db:
                _fail(out, assume, f"{why}.{k} missing", False)
            else:
                _val(it, da[k], db[k], assume, f"{why}.{k}", out)
        return
    if isinstance(a, Act) and isinstance(b, Act):
        _val(it, a.base, b.base, assume, why + ".base", out)
        _seq(it, a.seq, b.seq, assume, why + ".ops", out)
        return
    if isinstance(a, VArr) and isinstance(b, VArr):
        if a.shape != b.shape:
            return _fail(out, assume, f"{why}: shape {a.shape} vs {b.shape}", False)
        for i, (x, y) in enumerate(zip(it.arr_vals(a), it.arr_vals(b))):
            _val(it, x, y, assume, f"{why}[{i}]", out)
        return
    if isinstance(a, VDict) and isinstance(b, VDict):
        if a.ref == b.ref:
            return
        ca, cb = it.heap[a.ref], it.heap[b.ref]
        if isinstance(ca, tuple) and isinstance(cb, tuple):
            if len(ca) != len(cb):
                return _fail(out, assume, f"{why}: dict sizes {len(ca)} vs {len(cb)}", True)
            rest = list(cb)
            for k, v in ca:
                for j, (k2, v2) in enumerate(rest):
                    if same_value(it, k, k2, assume) is True:
                        _val(it, v, v2, assume, f"{why}[{k!r}]", out)
                        del rest[j]
                        break
                else:
                    return _fail(out, assume, f"{why}: key {k!r}")
            return
        _seq(it, ca if isinstance(ca, Seq) else Seq.of(ca), cb if isinstance(cb, Seq) else Seq.of(cb), assume, why, out)
        return
    if isinstance(a, VSet) and isinstance(b, VSet):
        ca, cb = it.heap[a.ref].concrete(), it.heap[b.ref].concrete()
        if ca is None or cb is None:
            return _seq(it, it.heap[a.ref], it.heap[b.ref], assume, why, out)
        g = _with(it, assume, lambda: it.set_eq(a, b))
        out.append(Goal(assume, g, why))
        return
    if isinstance(a, VBound) and isinstance(b, VBound):
        _val(it, a.func, b.func, assume, why, out)
        _val(it, a.self_, b.self_, assume, why, out)
        return
    if isinstance(a, VFunc) and isinstance(b, VFunc):
        if a.node is b.node and (a.frame.ref == b.frame.ref):
            return
        return _fail(out, assume, f"{why}: functions {a.name}, {b.name}")
    if isinstance(a, (VClass, VLib, Builtin)) or isinstance(b, (VClass, VLib, Builtin)):
        if isinstance(a, VLib) and a == b:
            return
        return _fail(out, assume, f"{why}: {a!r} vs {b!r}", False)
    if isinstance(a, P.Poly) or isinstance(b, P.Poly):
        try:
            e = (P.Poly.const(it.to_poly(a)) == P.Poly.const(it.to_poly(b)))
        except Exception:
            return _fail(out, assume, f"{why}: {a!r} vs {b!r}")
        out.append(Goal(assume, e, f"{why}: {a} = {b}" if not e else why))
        out[-1].ring = True
        return
    try:
        g = _with(it, assume, lambda: it.eq(a, b))
    except Unsupported as u:
        return _fail(out, assume, f"{why}: {u}")
    if g is True:
        return
    out.append(Goal(assume, g, why))


def _norm(it, s, assume):
    """drop provably empty parts, unroll comprehensions of known length"""
    out = []
    for g in s.segs:
        if isinstance(g, Comp):
            n = z3.simplify(g.n) if is_z3(g.n) else g.n
            if is_z3(n) and z3.is_int_value(n):
                n = n.as_long()
            if isinstance(n, int) and n <= 64:
                if n <= 0:
                    continue
                if g.simple() is not None or (len(g.cases) == 1 and g.cases[0][0] is True):
                    for i in range(n):
                        out.extend(_norm(it, it.subst(Seq(g.cases[0][1]), g.idx, i), assume).segs)
                    continue
            if all(len(p) == 0 for _c, p in g.cases):
                continue
            out.append(Comp(n, g.idx, g.cases))
        else:
            out.append(g)
    return Seq(out)


def _peel(it, g):
    """Comp with n >= 1 -> (first parts as Seq, rest Comp)"""
    first = it.subst(Seq(g.cases[0][1]), g.idx, 0)
    rest = Comp(it.simp(g.n - 1), g.idx, [(c if c is True else it.subst(c, g.idx, g.idx + 1),
                                            it.subst(Seq(p), g.idx, g.idx + 1).segs) for c, p in g.cases])
    return first, rest


def _depth(g):
    """nesting of repetitions"""
    return 1 + max([_depth(h) for _c, p in g.cases for h in p], default=0) if isinstance(g, Comp) else 0


def _seq(it, s, t, assume, why, out, depth=0):
    A, B = list(_norm(it, s, assume).segs), list(_norm(it, t, assume).segs)
    pos = 0
    guard = 0
    while A or B:
        guard += 1
        if guard > 400:
            return _fail(out, assume, f"{why}: too long")
        if A and B:
            x, y = A[0], B[0]
            if x is y:
                A.pop(0), B.pop(0)
                continue
            if isinstance(x, Unit) and isinstance(y, Unit):
                _val(it, x.v, y.v, assume, f"{why}[{pos}]", out)
                A.pop(0), B.pop(0)
                pos += 1
                continue
            if isinstance(x, Hole) or isinstance(y, Hole):
                if isinstance(x, Hole) and isinstance(y, Hole) and x.id == y.id:
                    A.pop(0), B.pop(0)
                    continue
                return _fail(out, assume, f"{why}: accumulator")
            if isinstance(x, Comp) and isinstance(y, Comp) and _depth(x) != _depth(y):
                lst = A if _depth(x) > _depth(y) else B
                c = lst[0]
                if len(c.cases) == 1 and c.cases[0][0] is True and _with(it, assume, lambda: it.valid(it.cmp(">=", c.n, 1))):
                    f, r = _peel(it, c)
                    lst[0:1] = list(f.segs) + [r]
                    continue
            if isinstance(x, Comp) and isinstance(y, Comp):
                ne = _with(it, assume, lambda: it.valid(it.eq(x.n, y.n)))
                if not ne:
                    # one of them may be empty, or they may be adjacent pieces of one range
                    if _with(it, assume, lambda: it.valid(it.cmp("<=", x.n, 0))):
                        A.pop(0)
                        continue
                    if _with(it, assume, lambda: it.valid(it.cmp("<=", y.n, 0))):
                        B.pop(0)
                        continue
                    le = _with(it, assume, lambda: it.valid(it.cmp("<=", x.n, y.n)))
                    ge = not le and _with(it, assume, lambda: it.valid(it.cmp(">=", x.n, y.n)))
                    if le and len(A) > 1:
                        B[0:1] = split(it, y, x.n)
                        continue
                    if ge and len(B) > 1:
                        A[0:1] = split(it, x, y.n)
                        continue
                    out.append(Goal(assume, it.eq(x.n, y.n), f"{why}: length"))
                _comp(it, x, y, assume, f"{why}[i]", out)
                A.pop(0), B.pop(0)
                continue
            # Unit against Comp
            c, lst = (x, A) if isinstance(x, Comp) else (y, B)
            if _with(it, assume, lambda: it.valid(it.cmp("<=", c.n, 0))):
                lst.pop(0)
                continue
            if len(c.cases) == 1 and c.cases[0][0] is True and _with(it, assume, lambda: it.valid(it.cmp(">=", c.n, 1))):
                f, r = _peel(it, c)
                lst[0:1] = list(f.segs) + [r]
                continue
            return _fail(out, assume, f"{why}: element against a repeated part")
        rest, side = (A, "left") if A else (B, "right")
        g = rest.pop(0)
        if isinstance(g, Unit):
            return _fail(out, assume, f"{why}: extra element on the {side}", False)
        if isinstance(g, Comp):
            n = g.n if is_z3(g.n) else z3.IntVal(g.n)
            empt = z3.Or(*[z3.And(to_z3_bool(c)) for c, p in g.cases if p]) if g.cases else z3.BoolVal(False)
            out.append(Goal(assume + [g.idx >= 0, g.idx < n], z3.Not(empt), f"{why}: extra part on the {side}"))
        else:
            return _fail(out, assume, f"{why}: accumulator")


def split(it, comp, m):
    a = Comp(m, comp.idx, comp.cases)
    b = Comp(it.simp(it.binop("-", comp.n, m)), comp.idx,
             [(c if c is True else it.subst(c, comp.idx, comp.idx + m), it.subst(Seq(p), comp.idx, comp.idx + m).segs)
              for c, p in comp.cases])
    return [a, b]


def _comp(it, x, y, assume, why, out):
    c = z3.Int(it.fresh_name("c"))
    n = x.n if is_z3(x.n) else z3.IntVal(x.n)
    m = y.n if is_z3(y.n) else z3.IntVal(y.n)
    asm = assume + [c >= 0, c < n, c < m]
    it.index_vars.append(c)
    try:
        def cases(z):
            res, prior = [], []
            for g, p in z.cases:
                gg = True if g is True else it.subst(g, z.idx, c)
                res.append((([] if gg is True else [gg]) + [z3.Not(q) for q in prior], it.subst(Seq(p), z.idx, c)))
                if gg is True:
                    return res
                prior.append(gg)
            res.append(([z3.Not(q) for q in prior], Seq()))
            return res
        cx, cy = cases(x), cases(y)
        for gx, px in cx:
            for gy, py in cy:
                a2 = asm + gx + gy
                if len(cx) * len(cy) > 1 and it.check(it.pc + a2) == z3.unsat:
                    continue
                _seq(it, px, py, a2, why, out)
    finally:
        it.index_vars.pop()


def abstractions(it, t):
    """distinct functions standing for sums, folds or sequences in t: a countermodel may tell apart two that are equal"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in it.abstract:
            out.add(x.decl().name())
        st.extend(x.children())
    return out


TEXTUAL = {"k:binary", "k:concat", "k:join", "k:format", "k:strformat", "k:fmt", "k:repr"}


def textual(t):
    """functions that build texts in t: different ones may build the same text"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and (x.decl().name() in TEXTUAL or x.decl().name().startswith("k:joined")):
            out.add((x.decl().name(), x.num_args()))
        st.extend(x.children())
    return out


def discharge(it, g):
    """-> ('proved'|'refuted'|'unknown', detail)"""
    if g.goal is True:
        return "proved", ""
    goal = z3.BoolVal(False) if g.goal is False else g.goal
    conds = it.pc + [a for a in g.assume if a is not True] + [z3.Not(goal)]
    r = it.check(conds)
    if r == z3.unsat:
        return "proved", ""
    if r == z3.unknown:
        r2 = cvc5_check(it, conds)
        if r2 == "unsat":
            return "proved", "cvc5"
        return "unknown", g.why
    if len(abstractions(it, goal)) > 1 or len(textual(goal)) > 1:
        return "ambiguous", {"why": g.why}
    s = z3.Solver()
    s.set("timeout", it.timeout_ms)
    for a in it.base_axioms + it.axioms + conds:
        s.add(a)
    mod = ""
    if s.check() == z3.sat:
        m = s.model()
        mod = {str(d): str(m[d]) for d in m.decls() if d.arity() == 0}
        it.last_model = m
    return "refuted", {"why": g.why, "model": mod}


def same_value(it, a, b, assume=()):
    try:
        gs = goals(it, a, b, assume)
    except Unsupported:
        return None
    for g in gs:
        if g.goal is True:
            continue
        goal = z3.BoolVal(False) if g.goal is False else g.goal
        r = it.check(it.pc + [x for x in g.assume if x is not True] + [z3.Not(goal)])
        if r == z3.sat:
            return False
        if r != z3.unsat:
            return None
    return True


def cvc5_check(it, conds):
    """second back end for queries z3 gives up on"""
    import subprocess, tempfile, os
    s = z3.Solver()
    for a in it.base_axioms + it.axioms + conds:
        s.add(a)
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + s.to_smt2())
        r = subprocess.run(["cvc5", "--tlimit=%d" % it.timeout_ms, f.name], capture_output=True, text=True,
                           timeout=it.timeout_ms / 1000 + 5)
        return r.stdout.strip().splitlines()[0] if r.stdout.strip() else "unknown"
    except Exception:
        return "unknown"
    finally:
        try:
            os.unlink(f.name)
        except Exception:
            pass
