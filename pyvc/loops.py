"""Loops over sequences of symbolic length.

The body is executed once for an arbitrary index i with every loop-carried cell replaced
by a placeholder.  If the new value of each cell is  (placeholder combined with g(i))  for
an associative combination (append/concatenate, +, *, and, or, min, max, set/dict insert,
action of an operation on a state) then the value after the loop is the closed form of
that fold; this is a complete inductive argument (the closed form is the invariant, and
executing the body on a placeholder is its preservation step).  Anything else is
Unsupported, never approximated.
"""
import z3
from fractions import Fraction

from .values import *
from .values import Hole
from . import poly as P


class Act:
    """state `base` acted on by the operations of a sequence, in order"""
    __slots__ = ("tag", "base", "seq")

    def __init__(self, tag, base, seq):
        self.tag, self.base, self.seq = tag, base, seq

    def __repr__(self):
        return f"Act({self.base},{self.seq})"


UNROLL = 80


class PointDict:
    """content of a dictionary while a loop over its own keys is at one of them: only that entry can be used"""
    __slots__ = ("key", "val")

    def __init__(self, key, val):
        self.key, self.val = key, val

    def __getattr__(self, name):
        raise Unsupported("use of a dictionary while a loop changes its values")

    def __iter__(self):
        raise Unsupported("use of a dictionary while a loop changes its values")

    __len__ = __bool__ = __getitem__ = __iter__


class Elsewhere(PointDict):
    """content of such a dictionary outside of the body"""
    def __init__(self):
        super().__init__(None, None)


def aligned(it, c, seg):
    """is seg the sequence of keys (or items) of the dictionary content c?"""
    if not isinstance(c, Seq) or len(c.segs) != 1 or not isinstance(c.segs[0], Comp):
        return False
    g = c.segs[0]
    return g.idx.eq(seg.idx) and same_obj(g.n, seg.n) and len(g.cases) == len(seg.cases) and all(
        (a is b or is_z3(a) and is_z3(b) and a.eq(b)) and len(p) == len(q) == 1 and isinstance(p[0], Unit) and isinstance(q[0], Unit)
        for (a, p), (b, q) in zip(g.cases, seg.cases))


def for_loop(it, seq, body, over=None):
    """over: reference of the dictionary whose keys or items seq is, if the body may change its values"""
    from .interp import BreakSig, ContinueSig
    for seg in seq.segs:
        if isinstance(seg, Unit):
            try:
                body(it.thaw(seg.v))
            except ContinueSig:
                pass
            except BreakSig:
                return True
        elif isinstance(seg, Comp):
            n = z3.simplify(seg.n) if is_z3(seg.n) else seg.n
            if is_z3(n) and z3.is_int_value(n):
                n = n.as_long()
            if isinstance(n, int):
                if n > UNROLL:
                    raise Unsupported("unrolling limit")
                for i in range(n):
                    if run_cases(it, seg, i, body):
                        return True
            else:
                try:
                    if comp_loop(it, Comp(n, seg.idx, seg.cases), body, over if over is not None and aligned(it, it.heap.get(over), seg) else None):
                        return True
                except Unsupported as u:
                    if it.peeling >= 1 or "budget" in str(u):
                        raise
                    # the first iteration may be special (it creates what later ones extend): run it on its own
                    it.peeling += 1
                    try:
                        if it.decide(gt0(n)):
                            if run_cases(it, seg, 0, body):
                                return True
                            rest = Comp(it.simp(n - 1), seg.idx, [(c if c is True else it.subst(c, seg.idx, seg.idx + 1),
                                                                   it.subst(Seq(p), seg.idx, seg.idx + 1).segs) for c, p in seg.cases])
                            if for_loop(it, Seq([rest]), body):
                                return True
                    finally:
                        it.peeling -= 1
        else:
            raise Unsupported("iteration over a loop accumulator")
    return False


def run_cases(it, seg, k, body):
    for g, parts in seg.cases:
        if g is True or it.decide(it.subst(g, seg.idx, k)):
            return for_loop(it, Seq(it.subst(p, seg.idx, k) for p in parts), body)
    return False


def mentions(v, consts):
    """does value v mention any of the z3 constants / hole ids?"""
    ids = {c.get_id() for c in consts if is_z3(c)}
    holes = {c for c in consts if isinstance(c, int)}
    seen = set()

    def term(t):
        st = [t]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            if i in ids:
                return True
            seen.add(i)
            st.extend(x.children())
        return False

    def go(v):
        if is_z3(v):
            return term(v)
        if isinstance(v, SU):
            return term(v.term)
        if isinstance(v, SC):
            return go(v.re) or go(v.im)
        if isinstance(v, (tuple, list)):
            return any(go(x) for x in v)
        if isinstance(v, Seq):
            return any(go(x) for x in v.segs)
        if isinstance(v, Unit):
            return go(v.v)
        if isinstance(v, Comp):
            return go(v.n) or any(go(c) or go(p) for c, p in v.cases)
        if isinstance(v, Hole):
            return v.id in holes
        if isinstance(v, Store):
            return go(v.i) or go(v.v)
        if isinstance(v, Frozen):
            return go(tuple(v.data.values()) if isinstance(v.data, dict) else v.data)
        if isinstance(v, Act):
            return go(v.base) or go(v.seq)
        if isinstance(v, VBound):
            return go(v.self_)
        if isinstance(v, PointDict):
            return go(v.key) or go(v.val)
        return False
    return go(v)


def comp_loop(it, seg, body, over=None):
    from .interp import BreakSig, ContinueSig, ReturnSig
    n = seg.n
    heap0, base = dict(it.heap), it.nref
    k = z3.Int(it.fresh_name("i"))
    cells = {}                 # (ref, key) -> (kind, placeholder value, consts)
    if over is not None:
        g = it.heap[over].segs[0]
        cells[(over, None)] = ("point", Elsewhere(), [])
        plain = body

        def body(v):
            for c, parts in g.cases:
                if c is True or it.decide(it.subst(c, g.idx, k)):
                    it.heap[over] = PointDict(*(it.thaw(it.subst(x, g.idx, k)) for x in parts[0].v))
                    return plain(v)
            raise Infeasible()
    for _ in range(10):
        results, new = run_generic(it, seg, n, k, body, heap0, base, cells)
        if not new:
            break
        for c, (before, after) in new.items():
            cells[c] = placeholder(it, before, after)
        # placeholders allocate: keep base where it was
    else:
        raise Unsupported("loop-carried state does not stabilise")
    return combine(it, n, k, heap0, base, cells, results)


def read_cell(heap, c):
    ref, key = c
    cont = heap.get(ref, UNSET)
    if key is None or cont is UNSET:
        return cont
    return cont.get(key, UNSET)


def write_cell(heap, c, v):
    ref, key = c
    if key is None:
        heap[ref] = v
    else:
        d = dict(heap[ref])
        if v is UNSET:
            d.pop(key, None)
        else:
            d[key] = v
        heap[ref] = d


def install(it, heap, cells):
    for c, (kind, ph, consts) in cells.items():
        if kind == "over":
            write_cell(heap, c, Poison("value from an earlier iteration") if not isinstance(c[0], tuple) and c[1] is not None else ph)
        elif kind == "obj":
            write_cell(heap, c, ph())
        else:
            write_cell(heap, c, ph() if callable(ph) else ph)


def run_generic(it, seg, n, k, body, heap0, base, cells):
    from .interp import BreakSig, ContinueSig, ReturnSig
    results = []
    new = {}
    saved_heap, saved_pc = it.heap, list(it.pc)
    it.heap = dict(heap0)
    install(it, it.heap, cells)
    start = dict(it.heap)
    it.pc = saved_pc + [k >= 0, k < n]
    npc = len(it.pc)
    it.index_vars.append(k)
    outcome = []

    def thunk():
        try:
            if run_cases(it, seg, k, body):
                return ("break", None)
        except ReturnSig as r:
            return ("return", r.v)
        except BreakSig:
            return ("break", None)
        return ("normal", None)

    def on_path(v, exc):
        if exc is not None:
            v = ("raise", exc.value)
        kind, payload = v
        pc = list(it.pc[npc:])
        vals = {}
        for ref, cont in it.heap.items():
            if isinstance(ref, tuple) or ref not in start:
                continue
            old = start[ref]
            if cont is old:
                continue
            if isinstance(cont, dict):
                for key in set(cont) | set(old):
                    a, b = cont.get(key, UNSET), old.get(key, UNSET)
                    if a is b or same_obj(a, b):
                        continue
                    c = (ref, key)
                    if ref > base and c not in cells:
                        continue
                    if c not in cells:
                        new.setdefault(c, (read_cell(heap0, c), it.freeze(a, base) if False else a))
                    vals[c] = a
            else:
                if same_obj(cont, old):
                    continue
                c = (ref, None)
                if c not in cells:
                    if ref > base:
                        # contents of a placeholder object: compared through its owner
                        continue
                    new.setdefault(c, (read_cell(heap0, c), cont))
                vals[c] = cont
        # read values of all cells at the end of the path
        final = {}
        for c in cells:
            v2 = read_cell(it.heap, c)
            final[c] = v2 if isinstance(v2, Poison) else snapshot(it, v2, base, c)
        results.append((pc, final, kind, it.freeze(payload, base) if payload is not None and not isinstance(payload, ExcInst) else payload))

    try:
        it.explore(thunk, on_path)
    finally:
        it.heap, it.pc = saved_heap, saved_pc
        it.index_vars.pop()
    return results, new


def snapshot(it, v, base, c):
    if isinstance(v, PointDict):
        return PointDict(it.freeze(v.key, base), it.freeze(v.val, base))
    if c[1] is None:                      # heap content
        if isinstance(v, tuple):          # dict content or array content
            return tuple(it.freeze(x, base) for x in v)
        return it.freeze(v, base)
    return it.freeze(v, base)


def same_obj(a, b):
    if a is b:
        return True
    if isinstance(a, (int, str, Fraction, bool, type(None))) and type(a) is type(b):
        return a == b
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if isinstance(a, Ref) and isinstance(b, Ref) and not isinstance(a, VArr):
        return a == b
    if isinstance(a, SU) and isinstance(b, SU):
        return a.term.eq(b.term)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_obj(x, y) for x, y in zip(a, b))
    if isinstance(a, Seq) and isinstance(b, Seq) and len(a.segs) == len(b.segs):
        return all(x is y or isinstance(x, Unit) and isinstance(y, Unit) and same_obj(x.v, y.v)
                   for x, y in zip(a.segs, b.segs))
    return False


def is_realish(v):
    return isinstance(v, (Fraction, float)) or isinstance(v, z3.ArithRef) and v.is_real()


def placeholder(it, before, after):
    if before is UNSET or isinstance(before, Poison):
        return ("over", UNSET, [])
    if isinstance(before, bool) and is_bool(after) or isinstance(before, z3.BoolRef) and is_bool(after):
        b = z3.Bool(it.fresh_name("acc"))
        return ("bool", b, [b])
    if isinstance(before, (SC, complex)) or isinstance(after, (SC, complex)):
        if is_num(before) or isinstance(before, (SC, complex)):
            r, i = z3.Real(it.fresh_name("acc")), z3.Real(it.fresh_name("acc"))
            return ("complex", SC(r, i), [r, i])
    if is_num(before) and not isinstance(before, bool) and is_num(after):
        n = it.fresh_name("acc")
        c = z3.Real(n) if is_realish(before) or is_realish(after) else z3.Int(n)
        return ("num", c, [c])
    if isinstance(before, Seq) or isinstance(before, tuple) and isinstance(after, (Seq, tuple)):
        it.counter += 1
        h = Hole(it.counter)
        return ("seq", Seq([h]), [h.id, it.hole_len(h)])
    if isinstance(before, Act) and isinstance(after, Act):
        it.counter += 1
        h = Hole(it.counter)
        return ("act", Act(before.tag, before.base, Seq([h])), [h.id])
    if isinstance(before, (VList, VSet, VDict, SArr)) and type(after) is type(before):
        it.counter += 1
        h = Hole(it.counter)
        cls = type(before)
        return ("ref", lambda: cls(it.alloc(Seq([h]))), [h.id, it.hole_len(h)])
    if isinstance(before, VArr) and len(before.shape) == 1 and (isinstance(after, SArr) or isinstance(after, VArr) and len(after.shape) == 1 and after.shape != before.shape):
        it.counter += 1
        h = Hole(it.counter)
        return ("ref", lambda: SArr(it.alloc(Seq([h]))), [h.id, it.hole_len(h)])
    if isinstance(after, SU) and isinstance(before, (SU, VList)):
        if not isinstance(before, SU) or before.iface is after.iface:
            c = z3.Const(it.fresh_name("acc"), U)
            return ("su", SU(c, after.iface), [c])
    if isinstance(before, VObj) and isinstance(after, VObj) and before.cls is after.cls:
        d = it.heap.get(before.ref)
        if d is None:
            raise Unsupported("loop-carried object")
        subs, consts = {}, []
        for key, v in d.items():
            a = v
            if isinstance(v, (VList, VDict, VSet)):
                kind, ph, cs = placeholder(it, v, v)
            elif is_num(v) or is_bool(v) or isinstance(v, (Seq, tuple, SC, Act, VObj)):
                kind, ph, cs = placeholder(it, v, v)
            else:
                kind, ph, cs = ("same", v, [])
            subs[key] = (kind, ph, cs)
            consts += cs
        def make():
            return it.new_obj(before.cls, {kk: (ph() if callable(ph) else ph) for kk, (kd, ph, cs) in subs.items()})
        make.subs = subs
        return ("obj", make, consts)
    return ("over", before, [])


def conj(it, cs):
    return it.and_(list(cs))


def combine(it, n, k, heap0, base, cells, results):
    from .interp import ReturnSig
    normal = [r for r in results if r[2] == "normal"]
    exits = [r for r in results if r[2] != "normal"]
    all_consts = [c for (_kd, _ph, cs) in cells.values() for c in cs]
    closed = {}       # cell -> function(upper bound term) -> value
    pending = {c: v for c, v in cells.items()}
    subs = []         # (z3 const, function of index) substitutions for solved scalars

    def sub_all(v, at):
        for const, fn in subs:
            val = fn(at)
            if is_z3(v):
                v = z3.substitute(v, (const, coerce_to(const, val)))
            else:
                v = map_z3(it, v, const, coerce_to(const, val))
        return v

    def unresolved(except_cell=None):
        return [x for c, (_k, _p, cs) in pending.items() if c != except_cell for x in cs]

    progress = True
    while pending and progress:
        progress = False
        for c in list(pending):
            kind, ph, consts = pending[c]
            others = unresolved(c)
            vals = [(conj(it, [sub_all(x, k) for x in pc]), sub_all(fin[c], k)) for pc, fin, _kd, _pl in normal]
            if any(mentions(v, others) or mentions(g, others) for g, v in vals):
                continue
            before = read_cell(heap0, c)
            f = solve_point(it, n, k, before, vals) if kind == "point" else solve(it, n, k, kind, ph, consts, before, vals)
            closed[c] = f
            del pending[c]
            progress = True
            if kind == "num":
                subs.append((consts[0], f))
            elif kind == "complex":
                subs.append((consts[0], lambda at, f=f: it.to_sc(f(at)).re))
                subs.append((consts[1], lambda at, f=f: it.to_sc(f(at)).im))
            elif kind == "bool":
                subs.append((consts[0], f))
            elif kind == "su" and isinstance(before, SU) and hasattr(f, "is_fold"):
                subs.append((consts[0], lambda at, f=f: f(at).term))
            if hasattr(f, "hole_len"):
                subs.append((f.hole_len[0], lambda at, f=f: f.hole_len[1]))
    if pending:
        raise Unsupported("mutually dependent loop accumulators")

    def set_state(at):
        heap = dict(heap0)
        saved = it.heap
        it.heap = heap
        try:
            for c, f in closed.items():
                v = f(at)
                it.heap[c[0]] = it.heap[c[0]]
                write_cell(it.heap, c, v)
            return it.heap
        finally:
            it.heap = saved

    if exits:
        conds = []
        for pc, fin, kd, pl in exits:
            g = conj(it, [sub_all(x, k) for x in pc])
            if mentions(g, [x for x in all_consts if not (is_z3(x) and any(x.eq(s[0]) for s in subs))]):
                raise Unsupported("loop exit depends on an accumulator")
            conds.append(g)
        ex = it.or_(conds)
        exz = to_z3_bool(ex)
        some = z3.Exists([k], z3.And(k >= 0, k < n, exz))
        if z3.is_true(z3.simplify(exz)):
            some = n > 0
        w = it.fresh("w", z3.IntSort())
        j = z3.Int(it.fresh_name("j"))
        first = z3.Implies(some, z3.And(w >= 0, w < n, z3.substitute(exz, (k, w)),
                                        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(z3.substitute(exz, (k, j)))))))
        it.assume_axiom(first)
        frees = [x for x in it.index_vars if mentions(first, [x])]
        if frees and mentions(w, frees):        # w is a function of the enclosing indices: it exists for each of their values
            it.assume_axiom(z3.ForAll(frees, first, patterns=[w]))
        if it.decide(some):
            if len(conds) > 1:                  # with a single exit, both follow from the axiom
                it.pc.append(z3.And(w >= 0, w < n))
            heap = set_state(w)
            for (pc, fin, kd, pl), g in zip(exits, conds):
                gw = it.subst(to_z3_bool(g), k, w)
                if len(conds) == 1 or it.decide(gw):
                    it.heap = heap
                    for c in cells:
                        v = fin[c]
                        if isinstance(v, Poison):
                            write_cell(it.heap, c, v)
                            continue
                        v = it.subst(sub_all(v, k), k, w)
                        v = fill(it, cells[c], closed[c], v, w)
                        write_cell(it.heap, c, v)
                    if kd == "break":
                        return True
                    p2 = it.thaw(it.subst(sub_all(pl, k), k, w)) if pl is not None and not isinstance(pl, ExcInst) else pl
                    if kd == "return":
                        raise ReturnSig(p2)
                    raise PyExc(p2)
            raise Infeasible()
    it.heap = set_state(n)
    return False


def fill(it, cell, f, v, at):
    """replace holes in an exit path's value by the closed form"""
    kind, ph, consts = cell
    if kind == "over":
        return it.thaw(v) if not isinstance(v, (Seq,)) else v
    holes = [x for x in consts if isinstance(x, int)]
    if not holes or not mentions(v, holes):
        return it.thaw(v) if isinstance(v, Frozen) else v
    pre = f(at)
    if kind == "seq" and isinstance(v, Seq):
        return Seq(sum(((tuple(pre.segs) if isinstance(g, Hole) else (g,)) for g in v.segs), ()))
    if kind == "act":
        return Act(v.tag, v.base, Seq(sum(((tuple(pre.seq.segs) if isinstance(g, Hole) else (g,)) for g in v.seq.segs), ())))
    if kind == "ref" and isinstance(v, Frozen):
        ps = it.heap[pre.ref]
        return it.thaw(Frozen(v.kind, v.cls, Seq(sum(((tuple(ps.segs) if isinstance(g, Hole) else (g,)) for g in v.data.segs), ()))))
    raise Unsupported("loop exit with a structured accumulator")


def fold(it, n, idx, acc, body, base):
    """value after n steps  acc := body(acc, idx)  from base: an interned function of (base, n)"""
    nz = n if is_z3(n) else z3.IntVal(n)
    frees = [v for v in it.index_vars if not v.eq(idx) and mentions(body, [v])]
    tab = it.bigops.setdefault(("Fold", len(frees), "U"), [])
    for idx2, acc2, frees2, body2, F in tab:
        b2 = z3.substitute(body2, (idx2, idx), (acc2, acc), *zip(frees2, frees))
        if b2.eq(body) or it.check(it.pc + [idx >= 0, idx < nz, b2 != body]) == z3.unsat:
            return F(base, nz, *frees)
    F = z3.Function(it.fresh_name("Fold"), U, *([z3.IntSort()] * (1 + len(frees))), U)
    tab.append((idx, acc, frees, body, F))
    it.abstract.add(F.name())
    b = z3.Const(it.fresh_name("b"), U)
    it.axioms.append(z3.ForAll([b] + frees, F(b, z3.IntVal(0), *frees) == b, patterns=[F(b, z3.IntVal(0), *frees)]))
    return F(base, nz, *frees)


def coerce_to(const, val):
    if isinstance(val, SU):
        return val.term
    if const.sort() == U:
        return val
    if z3.is_bool(const):
        return to_z3_bool(val)
    if const.is_real():
        return to_z3_real(val)
    return z3.IntVal(val) if isinstance(val, int) else val


def map_z3(it, v, const, val):
    f = lambda x: map_z3(it, x, const, val)
    if is_z3(v):
        return z3.substitute(v, (const, val))
    if isinstance(v, Act):
        return Act(v.tag, f(v.base), f(v.seq))
    if isinstance(v, PointDict):
        return PointDict(f(v.key), f(v.val))
    return it.map_value(v, f)


def merge(it, vals):
    """ite-chain over mutually exclusive path conditions"""
    r = None
    for g, v in reversed(vals):
        if r is None or same_obj(r, v):
            r = v
        else:
            r = it.ite(g, v, r)
    return r


def at_index(it, v, k, j):
    if isinstance(v, Act):
        return Act(v.tag, it.subst(v.base, k, j), it.subst(v.seq, k, j))
    return it.subst(v, k, j)


def same_parts(it, n, k, cases):
    """do all paths through the body append the same?"""
    if len(cases) > 4 or any(len(p) != 1 or not isinstance(p[0], Unit) for _g, p in cases):
        return False
    from .prove import same_value
    saved = it.pc
    it.index_vars.append(k)
    try:
        p0 = cases[0][1]
        for g, p in cases[1:]:
            it.pc = saved + [k >= 0, k < n] + ([] if g is True else [g])
            if same_value(it, Seq(p0), Seq(p)) is not True:
                return False
        return True
    finally:
        it.pc = saved
        it.index_vars.pop()


def solve(it, n, k, kind, ph, consts, before, vals):
    """closed form of one cell: function (number of iterations) -> value"""
    if not vals:
        return lambda at: before
    if kind == "over":
        if any(isinstance(v, Poison) for _g, v in vals):
            if all(isinstance(v, Poison) for _g, v in vals):
                return lambda at: before

            def last(at):
                if isinstance(at, int) and at == 0:
                    return before
                if it.valid(gt0(at)):          # assigned by the last iteration?
                    m1 = it.binop("-", at, 1)
                    cand = [(to_z3_bool(it.subst(g, k, m1)), at_index(it, v, k, m1)) for g, v in vals if not isinstance(v, Poison)]
                    if it.valid(z3.Or(*[g for g, _v in cand])):
                        from .prove import same_value
                        v0 = cand[-1][1]
                        if all(same_value(it, v, v0, [g]) is True for g, v in cand[:-1]):
                            return it.thaw(v0)
                return Poison("conditionally assigned in a loop")
            return last
        if all(same_obj(v, vals[0][1]) for _g, v in vals) and not mentions(vals[0][1], [k]):
            v0 = vals[0][1]
            if same_obj(v0, before):
                return lambda at: before
            return lambda at: v0 if it.valid(gt0(at)) and not isinstance(v0, (Frozen,)) else Poison("assigned in a loop")
        try:
            m = merge(it, vals)
        except Unsupported:
            return lambda at: Poison("assigned in a loop")
        return lambda at: (it.thaw(at_index(it, m, k, it.binop("-", at, 1))) if it.valid(gt0(at)) else Poison("assigned in a loop that may not run"))
    if kind == "su":
        p = consts[0]
        if not any(mentions(v, [p]) or mentions(g, [p]) for g, v in vals):
            return solve(it, n, k, "over", before, [], before, vals)
        if any(not isinstance(v, SU) or v.iface is not ph.iface for _g, v in vals):
            raise Unsupported("opaque accumulator")
        body = merge(it, vals).term
        if isinstance(before, SU):
            def fs(at):
                return SU(fold(it, at, k, p, body, before.term), ph.iface)
            fs.is_fold = True
            return fs
        b0 = it.embed(before)

        def fsu(at):
            if it.valid(gt0(at)):
                return SU(fold(it, at, k, p, body, b0), ph.iface)
            if isinstance(at, int) or it.valid(at == 0):
                return before
            raise Unsupported("accumulator of a loop that may not run")
        return fsu
    if kind == "num":
        return solve_num(it, n, k, consts[0], before, vals)
    if kind == "complex":
        bs = it.to_sc(before)
        re = solve_num(it, n, k, consts[0], bs.re, [(g, it.to_sc(v).re) for g, v in vals], others=[consts[1]])
        im = solve_num(it, n, k, consts[1], bs.im, [(g, it.to_sc(v).im) for g, v in vals], others=[consts[0]])
        return lambda at: SC(re(at), im(at))
    if kind == "bool":
        p = consts[0]
        e = to_z3_bool(merge(it, vals))
        t = z3.simplify(z3.substitute(e, (p, z3.BoolVal(True))))
        f = z3.simplify(z3.substitute(e, (p, z3.BoolVal(False))))
        b0 = to_z3_bool(before)
        kv = [k >= 0, k < n]
        if it.check(it.pc + kv + [z3.Not(e == z3.And(p, t))]) == z3.unsat:
            def fn(at):
                if z3.is_true(t):
                    return before
                return z3.simplify(z3.And(b0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < at), t))))
            return fn
        if it.check(it.pc + kv + [z3.Not(e == z3.Or(p, f))]) == z3.unsat:
            return lambda at: z3.simplify(z3.Or(b0, z3.Exists([k], z3.And(k >= 0, k < at, f))))
        if it.check(it.pc + kv + [z3.Not(e == z3.Xor(p, z3.Not(t)))]) == z3.unsat and not mentions(t, [p]):
            # parity of the number of iterations that flip it
            def par(at):
                c = big_sum(it, at, k, z3.simplify(z3.If(t, z3.IntVal(0), z3.IntVal(1))))
                return z3.simplify(b0 == ((c if is_z3(c) else z3.IntVal(c)) % 2 == 0))
            return par
        raise Unsupported("boolean accumulator")
    if kind == "seq" and isinstance(before, Seq) and any(isinstance(v, Seq) and any(isinstance(g, Store) for g in v.segs) for _g, v in vals):
        return scatter(it, n, k, ph, before, vals)
    if kind in ("seq", "act", "ref"):
        cases = []
        for g, v in vals:
            s = v
            if kind == "act":
                if not isinstance(v, Act) or not same_obj_base(v, ph):
                    raise Unsupported("state accumulator")
                s = v.seq
            elif kind == "ref":
                if isinstance(v, Frozen):
                    s = v.data
                elif isinstance(v, Ref):
                    c0 = it.heap.get(v.ref) if v.ref in it.heap else None
                    raise Unsupported("rebinding to an existing object in a loop")
                else:
                    raise Unsupported("reference accumulator")
            if not isinstance(s, Seq):
                s = Seq.of(s) if isinstance(s, tuple) else None
            if s is None or not s.segs or not isinstance(s.segs[0], Hole) or \
                    mentions(Seq(s.segs[1:]), consts) or mentions(g, consts):
                raise Unsupported("list accumulator is not append-only")
            cases.append((g, s.segs[1:]))
        if all(len(p) == 0 for _g, p in cases):
            delta = lambda at: ()
        elif all(same_obj(Seq(p), Seq(cases[0][1])) for _g, p in cases) or same_parts(it, n, k, cases):
            delta = lambda at: (Comp(at, k, [(True, cases[0][1])]),)
        else:
            delta = lambda at: (Comp(at, k, cases),)
        if kind == "seq":
            b = before if isinstance(before, Seq) else Seq.of(before)
            return lambda at: Seq(b.segs + tuple(delta(at)))
        if kind == "act":
            return lambda at: Act(before.tag, before.base, Seq(before.seq.segs + tuple(delta(at))))
        cls = type(before)
        b = it.heap[before.ref]
        if cls is VArr:
            cls, b = SArr, tuple(it.arr_vals(before))
        if isinstance(b, tuple):
            b = Seq.of(b)
        return lambda at: cls(it.alloc(Seq(b.segs + tuple(delta(at)))))
    if kind == "obj":
        subs = ph.subs
        bd = it.heap[before.ref]
        fs = {}
        for key, (kd, p, cs) in subs.items():
            sv = []
            for g, v in vals:
                if not isinstance(v, Frozen) or v.kind != "obj":
                    raise Unsupported("object accumulator")
                if set(v.data) != set(subs):
                    raise Unsupported("object accumulator changes shape")
                sv.append((g, v.data[key]))
            if kd == "same":
                if not all(same_obj(v, bd[key]) for _g, v in sv):
                    kd = "over"
                    fs[key] = solve(it, n, k, "over", UNSET, [], bd[key], sv)
                else:
                    fs[key] = (lambda at, key=key: bd[key])
            else:
                fs[key] = solve(it, n, k, kd, p, cs, bd[key], sv)
        return lambda at: it.new_obj(before.cls, {key: f(at) for key, f in fs.items()})
    raise Unsupported(f"accumulator {kind}")


def solve_point(it, n, k, before, vals):
    """a loop over a dictionary's keys that changes values at the current key only"""
    for _g, v in vals:
        if not isinstance(v, PointDict):
            raise Unsupported("use of a dictionary while its values change")
    new = [(True if len(vals) == 1 else g, (Unit((v.key, v.val)),)) for g, v in vals]

    def fn(at):
        if at is n or is_z3(at) and is_z3(n) and at.eq(n):
            return Seq([Comp(n, k, new)])
        raise Unsupported("loop over a dictionary that is left early")
    return fn


def scatter(it, n, k, ph, before, vals):
    """loop that only assigns elements of a list: the element at p is the one assigned by the last iteration
    that writes p, or the old one"""
    h = ph.segs[0]
    hl = it.hole_len(h)
    ln = it.seq_len(before)
    lz = ln if is_z3(ln) else z3.IntVal(ln)
    rows = []
    for g, v in vals:
        g = z3.simplify(z3.substitute(to_z3_bool(g), (hl, lz)))
        if not v.segs or not isinstance(v.segs[0], Hole) or len(v.segs) > 2 or mentions(Seq(v.segs[1:]), [h.id]) or mentions(g, [h.id]):
            raise Unsupported("list accumulator")
        if len(v.segs) == 2:
            if not isinstance(v.segs[1], Store):
                raise Unsupported("list accumulator")
            i = z3.substitute(v.segs[1].i, (hl, lz)) if is_z3(v.segs[1].i) else z3.IntVal(v.segs[1].i)
            rows.append((g, i, v.segs[1].v))
    if len(before.segs) != 1 or not isinstance(before.segs[0], Comp):
        raise Unsupported("assignments to a list of irregular form")
    b = before.segs[0]
    if not all(len(p) == 1 and isinstance(p[0], Unit) for _c, p in b.cases) or b.cases[-1][0] is not True:
        raise Unsupported("assignments to a list of irregular form")
    if len(rows) != 1:
        raise Unsupported("several assignments per iteration")
    g, i, v = rows[0]
    memo = {}

    def fn(at):
        az = at if is_z3(at) else z3.IntVal(at)
        if az.get_id() not in memo:
            hit = z3.Function(it.fresh_name("hit"), z3.IntSort(), z3.BoolSort())
            last = z3.Function(it.fresh_name("lastwrite"), z3.IntSort(), z3.IntSort())
            it.abstract |= {hit.name(), last.name()}
            j, p = z3.Int(it.fresh_name("sj")), z3.Int(it.fresh_name("sp"))
            gj, ij = z3.substitute(g, (k, j)), z3.substitute(i, (k, j))
            it.axioms.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < az, gj), z3.And(hit(ij), last(ij) >= j))))
            lp = last(p)
            it.axioms.append(z3.ForAll([p], z3.Implies(hit(p), z3.And(lp >= 0, lp < az, z3.substitute(g, (k, lp)), z3.substitute(i, (k, lp)) == p)), patterns=[hit(p)]))
            memo[az.get_id()] = (hit, last, az)
        hit, last, _ = memo[az.get_id()]
        return Seq([Comp(b.n, b.idx, [(hit(b.idx), (Unit(it.subst(v, k, last(b.idx))),))] + list(b.cases))])
    fn.hole_len = (hl, ln)
    return fn


def same_obj_base(a, b):
    return a.tag == b.tag and same_obj(a.base, b.base)


def gt0(n):
    return n > 0


def solve_num(it, n, k, p, before, vals, others=()):
    def num(v):
        return coerce_to(p, v)
    if any(mentions(v, others) or mentions(g, others) for g, v in vals):
        raise Unsupported("coupled accumulators")
    raw = [(g, num(v)) for g, v in vals]
    # sum
    ds = [(g, z3.simplify(v - p, som=True)) for g, v in raw]
    if not any(mentions(d, [p]) or mentions(g, [p]) for g, d in ds):
        d = merge(it, ds)
        return lambda at: it.simp(it.binop("+", before, big_sum(it, at, k, d)))
    if not any(mentions(v, [p]) or mentions(g, [p]) for g, v in raw):
        m = merge(it, raw)
        def last(at):
            if isinstance(at, int) and at == 0:
                return before
            v = it.subst(m, k, it.binop("-", at, 1))
            return it.simp(v if is_z3(at) and it.valid(gt0(at)) else it.ite(gt0(at), v, before))
        return last
    # product
    if not any(mentions(g, [p]) for g, _v in raw):
        one = z3.RealVal(1) if p.is_real() else z3.IntVal(1)
        gs = [(g, z3.simplify(z3.substitute(v, (p, one)))) for g, v in raw]
        if all(it.check(it.pc + [k >= 0, k < n] + ([] if g is True else [g]) + [v != p * q]) == z3.unsat
               for (g, v), (_g, q) in zip(raw, gs)):
            q = merge(it, gs)
            return lambda at: it.simp(it.binop("*", before, big_prod(it, at, k, q)))
    # max / min
    e = merge(it, raw)
    cands = set()
    st = [e] + [g for g, _v in raw if is_z3(g)]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == p.sort() and not mentions(x, [p]):
            cands.add(x)
        st.extend(x.children())
    for c in sorted(cands, key=lambda c: (len(str(c)), str(c))):
        if it.check(it.pc + [k >= 0, k < n, e != z3.If(c > p, c, p)]) == z3.unsat:
            return lambda at, c=c: big_ext(it, at, k, c, before, True)
        if it.check(it.pc + [k >= 0, k < n, e != z3.If(c < p, c, p)]) == z3.unsat:
            return lambda at, c=c: big_ext(it, at, k, c, before, False)
    raise Unsupported("numeric accumulator of unknown form")


# ----------------------------------------------------------------- big operators
def idx_in(it, body, idx):
    return [v for v in it.index_vars if not v.eq(idx) and mentions(body, [v])]


def intern(it, kind, n, idx, body, axioms):
    frees = idx_in(it, body, idx)
    tab = it.bigops.setdefault((kind, len(frees), str(body.sort())), [])
    nz = n if is_z3(n) else z3.IntVal(n)
    for idx2, frees2, body2, F in tab:
        b2 = z3.substitute(body2, (idx2, idx), *zip(frees2, frees))
        if b2.eq(body) or it.check(it.pc + [idx >= 0, idx < nz, b2 != body]) == z3.unsat:
            return F(nz, *frees)
    F = z3.Function(it.fresh_name(kind), *([z3.IntSort()] * (1 + len(frees))), body.sort())
    tab.append((idx, frees, body, F))
    it.abstract.add(F.name())
    axioms(F, frees)
    return F(nz, *frees)


def forall(vs, f):
    return z3.ForAll(vs, f) if vs else f


def big_sum(it, n, idx, body):
    if isinstance(body, SC):
        return SC(big_sum(it, n, idx, body.re), big_sum(it, n, idx, body.im))
    if isinstance(n, int) and n <= 16:
        r = 0
        for j in range(n):
            r = it.binop("+", r, it.subst(body, idx, j) if is_z3(body) else body)
        return it.simp(r) if is_z3(r) else r
    if not is_z3(body):
        return it.binop("*", n, body) if body != 0 else 0
    body = z3.simplify(body, som=True)
    if isinstance(body, z3.BoolRef):
        body = z3.If(body, z3.IntVal(1), z3.IntVal(0))
    if not mentions(body, [idx]):
        return it.binop("*", n, body)
    if z3.is_to_real(body):
        return z3.ToReal(coerce_to(z3.Int("x"), big_sum(it, n, idx, body.arg(0))))
    if z3.is_add(body):
        r = 0
        for c in body.children():
            r = it.binop("+", r, big_sum(it, n, idx, c))
        return r
    if z3.is_mul(body):
        out, inn = [], []
        for c in body.children():
            (inn if mentions(c, [idx]) else out).append(c)
        if out:
            r = big_sum(it, n, idx, inn[0] if len(inn) == 1 else z3.Product(*inn))
            for c in out:
                r = it.binop("*", c, r)
            return r
    if body.eq(idx):
        nz = n if is_z3(n) else z3.IntVal(n)
        return z3.simplify(nz * (nz - 1) / 2)

    def ax(F, frees):
        zero = z3.RealVal(0) if body.is_real() else z3.IntVal(0)
        it.axioms.append(forall(frees, F(z3.IntVal(0), *frees) == zero))
        if it.valid(z3.Implies(idx >= 0, body >= 0)):
            m = z3.Int(it.fresh_name("m"))
            it.axioms.append(z3.ForAll([m] + frees, z3.Implies(m >= 0, F(m, *frees) >= zero), patterns=[F(m, *frees)]))
    return intern(it, "Sum", n, idx, body, ax)


def big_prod(it, n, idx, body):
    if not is_z3(body) and body == 1:
        return 1
    if isinstance(n, int) and n <= 16:
        r = 1
        for j in range(n):
            r = it.binop("*", r, it.subst(body, idx, j) if is_z3(body) else body)
        return it.simp(r) if is_z3(r) else r
    body = body if is_z3(body) else z3.IntVal(body)
    body = z3.simplify(body)
    if z3.is_to_real(body):
        return z3.ToReal(coerce_to(z3.Int("x"), big_prod(it, n, idx, body.arg(0))))

    if z3.is_int_value(body) and body.as_long() == 2:
        return it.binop("**", 2, n)

    def ax(F, frees):
        one = z3.RealVal(1) if body.is_real() else z3.IntVal(1)
        it.axioms.append(forall(frees, F(z3.IntVal(0), *frees) == one))
    return intern(it, "Prod", n, idx, body, ax)


def big_ext(it, n, idx, body, init, is_max):
    """max/min of init and body(0..n-1); init None: of a non-empty sequence"""
    body = body if is_z3(body) else z3.IntVal(body)

    def ax(F, frees):
        m, i, w = z3.Int(it.fresh_name("m")), idx, z3.Function(it.fresh_name("argext"), *([z3.IntSort()] * (2 + len(frees))))
        bound = (body <= F(m, *frees)) if is_max else (body >= F(m, *frees))
        it.axioms.append(z3.ForAll([m, i] + frees, z3.Implies(z3.And(i >= 0, i < m), bound)))
        ww = w(m, *frees)
        it.axioms.append(z3.ForAll([m] + frees, z3.Implies(m > 0, z3.And(ww >= 0, ww < m,
                                   z3.substitute(body, (idx, ww)) == F(m, *frees))), patterns=[F(m, *frees)]))
    t = intern(it, "Max" if is_max else "Min", n, idx, body, ax)
    if init is None:
        return t
    iz, t2 = it.coerce(init, t)
    better = (t2 > iz) if is_max else (t2 < iz)
    return z3.simplify(z3.If(z3.And(gt0(n if is_z3(n) else z3.IntVal(n)), better), t2, iz))
