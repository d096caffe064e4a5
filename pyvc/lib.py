"""Builtins (executed semantics) and library models (assumed contracts, listed as trusted)."""
import itertools
import math
import z3
from fractions import Fraction

from .values import *
from . import mats, sparse
from .values import Hole
from . import poly as P
from .loops import big_sum, big_prod, big_ext, for_loop, Act, mentions, PointDict, same_obj


def exc(cls, *a):
    return PyExc(ExcInst(cls, a))


# ------------------------------------------------------------------ dicts

STRING = Iface("string", classes=("str",))
COUNTER = Iface("counter", classes=("Counter", "dict"))


def uncons(it, s):
    """first element and rest of a sequence; rest None if it is empty"""
    from .prove import _peel
    segs = list(s.segs)
    while segs:
        g = segs.pop(0)
        if isinstance(g, Unit):
            return it.thaw(g.v), Seq(segs)
        if not isinstance(g, Comp) or len(g.cases) != 1 or g.cases[0][0] is not True:
            raise Unsupported("first element of an irregular sequence")
        if not it.decide(it.cmp(">", g.n, 0)):
            continue
        f, r = _peel(it, g)
        segs = list(f.segs) + [r] + segs
    return None, None

def dict_content(it, d):
    return it.heap[d.ref]


def here(it, k, c):
    if same_obj(k, c.key):
        return True
    e = it.eq(k, c.key)
    return e if isinstance(e, bool) else it.valid(e)


def dict_get(it, d, k, default=UNSET):
    c = it.heap[d.ref]
    if isinstance(c, PointDict):
        if not here(it, k, c):
            raise Unsupported("another entry of a dictionary being looped over")
        return c.val
    if isinstance(c, Seq):
        # latest insertion wins; conditions decided from the back
        for g in reversed(c.segs):
            if isinstance(g, Unit):
                e = it.eq(k, g.v[0])
                if e if isinstance(e, bool) else it.decide(e):
                    return it.thaw(g.v[1])
            elif isinstance(g, Comp) and g.simple() is not None:
                gk, gv = g.simple().v
                i = it.fresh("dk", z3.IntSort())
                it.index_vars.append(g.idx)
                try:
                    hit = it.eq(k, gk)
                finally:
                    it.index_vars.pop()
                n = g.n if is_z3(g.n) else z3.IntVal(g.n)
                ex = z3.Exists([g.idx], z3.And(g.idx >= 0, g.idx < n, to_z3_bool(hit)))
                j = z3.Int(it.fresh_name("j"))
                it.assume_axiom(z3.Implies(ex, z3.And(i >= 0, i < n, z3.substitute(to_z3_bool(hit), (g.idx, i)),
                    z3.ForAll([j], z3.Implies(z3.And(j > i, j < n), z3.Not(z3.substitute(to_z3_bool(hit), (g.idx, j))))))))
                if it.decide(ex):
                    return it.thaw(it.subst(gv, g.idx, i))
            else:
                raise Unsupported("lookup in a dict built by an unfinished or conditional loop")
    else:
        for kk, v in c:
            e = it.eq(k, kk)
            if e if isinstance(e, bool) else it.decide(e):
                return v
    if default is UNSET:
        if getattr(it, "defaultdicts", {}).get(d.ref) is not None:
            v = it.call(it.defaultdicts[d.ref], [], {})
            dict_set(it, d, k, v)
            return v
        raise exc(KeyError, k)
    return default


def dict_set(it, d, k, v):
    c = it.heap[d.ref]
    if isinstance(c, PointDict):
        if not here(it, k, c):
            raise Unsupported("another entry of a dictionary being looped over")
        it.heap[d.ref] = PointDict(c.key, v)
        return
    if isinstance(c, Seq):
        it.heap[d.ref] = Seq(c.segs + (Unit((k, v)),))
        return
    out = list(c)
    for i, (kk, _) in enumerate(out):
        e = it.eq(k, kk)
        if e if isinstance(e, bool) else it.decide(e):
            out[i] = (kk, v)
            break
    else:
        out.append((k, v))
    it.heap[d.ref] = tuple(out)


def dict_del(it, d, k):
    c = it.heap[d.ref]
    if isinstance(c, Seq):
        raise Unsupported("del on symbolic dict")
    for i, (kk, _) in enumerate(c):
        e = it.eq(k, kk)
        if e if isinstance(e, bool) else it.decide(e):
            it.heap[d.ref] = c[:i] + c[i + 1:]
            return
    raise exc(KeyError, k)


def dict_update(it, d, src):
    if isinstance(src, VDict):
        c = it.heap[src.ref]
        if isinstance(c, tuple):
            for k, v in c:
                dict_set(it, d, k, v)
            return
        cur = it.heap[d.ref]
        it.heap[d.ref] = Seq((Seq.of(cur) if isinstance(cur, tuple) else cur).segs + c.segs)
        return
    s = it.iterate(src)
    c = s.concrete()
    if c is not None:
        for kv in c:
            k, v = it.as_seq(kv).concrete()
            dict_set(it, d, k, v)
        return
    cur = it.heap[d.ref]
    it.heap[d.ref] = Seq((Seq.of(cur) if isinstance(cur, tuple) else cur).segs + s.segs)


def dict_items(it, d):
    c = it.heap[d.ref]
    if not isinstance(c, tuple):
        it.distinct(it.map_seq(c, lambda kv: kv[0]))
    return Seq.of(c) if isinstance(c, tuple) else c


# ------------------------------------------------------------------ sets
def make_set(it, seq):
    c = seq.concrete()
    if c is None:
        return VSet(it.alloc(seq))
    out = []
    for v in c:
        if not _in(it, v, out):
            out.append(v)
    return VSet(it.alloc(Seq.of(out)))


def _in(it, v, lst):
    for o in lst:
        e = it.eq(v, o)
        if e if isinstance(e, bool) else it.decide(e):
            return True
    return False


def set_op(it, op, a, b):
    x = it.as_seq(a)
    y = it.as_seq(b)
    if op == "|":
        return make_set(it, x + y)
    cx, cy = x.concrete(), y.concrete()
    if cx is None:
        raise Unsupported("symbolic set operation")
    def inb(v):
        e = it.contains(b, v)
        return e if isinstance(e, bool) else it.decide(e)
    if op == "-":
        return VSet(it.alloc(Seq.of([v for v in cx if not inb(v)])))
    if op == "&":
        return VSet(it.alloc(Seq.of([v for v in cx if inb(v)])))
    if op == "^" and cy is not None:
        return VSet(it.alloc(Seq.of([v for v in cx if not _in(it, v, cy)] + [v for v in cy if not _in(it, v, cx)])))
    raise Unsupported("set operation")


# ------------------------------------------------------------------ arrays
def to_array(it, v, dtype=None):
    """numpy.array(v) (a new array)"""
    if isinstance(v, VArr):
        return it.new_arr(it.arr_vals(v), v.shape)
    if isinstance(v, SArr):
        return SArr(it.alloc(it.heap[v.ref]))
    if isinstance(v, (VList, tuple, Seq, VIter)):
        s = it.as_seq(v)
        c = s.concrete()
        if c is None:
            return SArr(it.alloc(s))
        if not c:
            return it.new_arr([], (0,))
        if isinstance(c[0], (VList, tuple, VArr)):
            rows = [to_array(it, x) for x in c]
            if any(not isinstance(r, VArr) for r in rows):
                raise Unsupported("2-d array of symbolic length")
            if any(r.shape != rows[0].shape for r in rows):
                raise Unsupported("ragged array")
            return it.new_arr([x for r in rows for x in it.arr_vals(r)], (len(rows),) + rows[0].shape)
        return it.new_arr(c, (len(c),))
    if isinstance(v, (VObj, SU)):
        return to_array(it, it.as_seq(v))
    if is_num(v) or is_bool(v) or isinstance(v, (SC, complex, P.Poly)):
        return it.new_arr([v], ())
    raise Unsupported(f"array from {v!r}")


def strides(shape):
    st, acc = [], 1
    for s in reversed(shape):
        st.append(acc)
        acc *= s
    return list(reversed(st))


def arr_get(it, a, i):
    if isinstance(a, SArr):
        if isinstance(i, VSlice):
            return SArr(it.alloc(it.seq_slice(it.heap[a.ref], i.a, i.b, i.c)))
        if is_intlike(i):
            return it.seq_get(it.heap[a.ref], i)
        if i is None or isinstance(i, tuple) and i:
            return mats.index_vec(it, a, i if isinstance(i, tuple) else (None,))
        raise Unsupported("fancy index on symbolic array")
    if isinstance(a, SMat):
        return mats.index_mat(it, a, i)
    if isinstance(i, SU) or is_z3(i) and len(a.shape) > 1:
        raise Unsupported("symbolic index into array")
    if isinstance(i, VArr) or isinstance(i, VList):
        idx = it.as_seq(i).concrete()
        if all(isinstance(x, bool) for x in idx):
            idx = [j for j, b in enumerate(idx) if b]
        parts = [arr_get(it, a, j) for j in idx]
        if parts and isinstance(parts[0], VArr):
            return it.new_arr([x for p in parts for x in it.arr_vals(p)], (len(parts),) + parts[0].shape)
        return it.new_arr(parts, (len(parts),))
    if is_z3(i):
        n = a.shape[0] if a.kind == "numpy" else len(a.idx)
        for k in range(n):
            if it.decide(it.or_([it.eq(i, k), it.eq(i, k - n)])):
                return arr_get(it, a, k)
        raise exc(IndexError)
    if a.kind == "sympy" and not isinstance(i, tuple):
        if isinstance(i, int):
            try:
                return it.arr_vals(a)[i]
            except IndexError:
                raise exc(IndexError)
        vals = it.arr_vals(a)[i.a:i.b:i.c]
        return it.new_list(vals)
    ix = i if isinstance(i, tuple) else (i,)
    st = strides(a.shape)
    pos, shape = [0], []
    fancy = [x for x in ix if isinstance(x, (VArr, VList))]
    if fancy and len(fancy) == len(ix) == len(a.shape) and a.kind == "numpy" and len(ix) > 1 and \
            all(isinstance(x, VArr) and len(x.shape) == len(ix) and all(n == 1 for e, n in enumerate(x.shape) if e != d) for d, x in enumerate(ix)):
        cols = [it.arr_vals(x) for x in ix]          # an open mesh (numpy.ix_)
        if not all(isinstance(q, int) and not isinstance(q, bool) for c in cols for q in c):
            raise Unsupported("mesh index")
        if any(not -a.shape[d] <= q < a.shape[d] for d, c in enumerate(cols) for q in c):
            raise exc(IndexError)
        vals = it.arr_vals(a)
        return it.new_arr([vals[sum(q % a.shape[d] * st[d] for d, q in enumerate(t))] for t in itertools.product(*cols)], tuple(len(c) for c in cols))
    if fancy and (len(fancy) > 1 or any(isinstance(x, int) for x in ix) or a.kind != "numpy"):
        raise Unsupported("several fancy indices")
    if fancy:
        sel = it.as_seq(fancy[0]).concrete()
        if not all(isinstance(x, int) and not isinstance(x, bool) for x in sel or ["?"]):
            raise Unsupported("fancy index")
    if not all(x is None and a.kind == "numpy" or isinstance(x, (VArr, VList)) or isinstance(x, VSlice) or isinstance(x, int) for x in ix):
        raise Unsupported("array index")
    if len([x for x in ix if x is not None]) > len(a.shape):
        raise exc(IndexError)
    ix = list(ix) + [VSlice(None, None, None)] * (len(a.shape) - len([x for x in ix if x is not None]))
    keep_sympy = a.kind == "sympy" and any(isinstance(x, VSlice) for x in ix)
    d = -1
    for x in ix:
        if x is None:
            shape.append(1)
            continue
        d += 1
        if isinstance(x, VSlice):
            r = range(a.shape[d])[x.a:x.b:x.c]
            shape.append(len(r))
        elif isinstance(x, (VArr, VList)):
            if not all(-a.shape[d] <= q < a.shape[d] for q in sel):
                raise exc(IndexError)
            r = [q % a.shape[d] for q in sel]
            shape.append(len(r))
        elif isinstance(x, int):
            if not -a.shape[d] <= x < a.shape[d]:
                raise exc(IndexError)
            r = [x % a.shape[d]]
            if keep_sympy:
                shape.append(1)
        else:
            raise Unsupported("array index")
        pos = [p + j * st[d] for p in pos for j in r]
    if not shape:
        return it.heap[a.ref][a.idx[pos[0]]]
    return VArr(a.ref, [a.idx[p] for p in pos], shape, a.kind)


def arr_set(it, a, i, v):
    if isinstance(a, SMat):
        raise Unsupported("assignment to entries of a symbolic matrix")
    if isinstance(a, SArr):
        c = it.heap[a.ref].concrete()
        if c is not None and isinstance(i, int):
            if not -len(c) <= i < len(c):
                raise exc(IndexError)
            c[i] = v
            it.heap[a.ref] = Seq.of(c)
            return
        it.heap[a.ref] = it.seq_store(it.heap[a.ref], i, v)
        return
    if isinstance(i, VArr) and i.shape == a.shape and all(is_bool(x) for x in it.arr_vals(i)):
        base = list(it.heap[a.ref])
        for p, b in zip(a.idx, it.arr_vals(i)):
            base[p] = it.ite(b, v, base[p])
        it.heap[a.ref] = tuple(base)
        return
    if is_z3(i):
        n = a.shape[0]
        for k in range(n):
            if it.decide(it.or_([it.eq(i, k), it.eq(i, k - n)])):
                return arr_set(it, a, k, v)
        raise exc(IndexError)
    if isinstance(i, (VArr, VList)):
        idx = it.as_seq(i).concrete()
        vals = it.as_seq(v).concrete() if isinstance(v, (VArr, VList, tuple)) else [v] * len(idx)
        for k, x in zip(idx, vals):
            arr_set(it, a, k, x)
        return
    if a.kind == "sympy" and isinstance(i, int):
        base = list(it.heap[a.ref])
        base[a.idx[i]] = v
        it.heap[a.ref] = tuple(base)
        return
    t = arr_get(it, a, i)
    if isinstance(t, VArr) and t.ref == a.ref:
        it.arr_store(t, v)
        return
    # scalar position
    ix = i if isinstance(i, tuple) else (i,)
    st = strides(a.shape)
    p = sum((x % a.shape[d]) * st[d] for d, x in enumerate(ix))
    base = list(it.heap[a.ref])
    base[a.idx[p]] = v
    it.heap[a.ref] = tuple(base)


def broadcast(it, a, b):
    if not isinstance(a, VArr):
        return [a] * len(b.idx), it.arr_vals(b), b.shape
    if not isinstance(b, VArr):
        return it.arr_vals(a), [b] * len(a.idx), a.shape
    if a.shape == b.shape:
        return it.arr_vals(a), it.arr_vals(b), a.shape
    nd = max(len(a.shape), len(b.shape))
    sa = (1,) * (nd - len(a.shape)) + a.shape
    sb = (1,) * (nd - len(b.shape)) + b.shape
    shape = []
    for x, y in zip(sa, sb):
        if x != y and 1 not in (x, y):
            raise exc(ValueError, "broadcast")
        shape.append(max(x, y) if 0 not in (x, y) else 0)
    def expand(vals, s):
        st = strides(s)
        out = []
        def rec(d, off):
            if d == nd:
                out.append(vals[off])
                return
            for j in range(shape[d]):
                rec(d + 1, off + (j if s[d] != 1 else 0) * st[d])
        rec(0, 0)
        return out
    return expand(it.arr_vals(a), sa), expand(it.arr_vals(b), sb), tuple(shape)


def elt_op(it, op, x, y):
    if op in ("==", "!=", "<", "<=", ">", ">="):
        return it.cmp(op, x, y)
    return it.binop(op, x, y)


def arr_binop(it, op, a, b):
    if isinstance(a, SMat) or isinstance(b, SMat):
        return mats.binop(it, op, a, b, lambda op, x, y: elt_op(it, op, x, y))
    for x, y, r in ((a, b, False), (b, a, True)):
        if isinstance(x, SArr):
            s = it.heap[x.ref]
            if isinstance(y, (VList, tuple)):
                y = to_array(it, y)
            if isinstance(y, SArr):
                t = it.heap[y.ref]
                n1, n2 = it.seq_len(s), it.seq_len(t)
                if not it.decide(it.eq(n1, n2)):
                    raise exc(ValueError, "broadcast")
                if op == "@":
                    return zip_sum(it, s, t) if not r else zip_sum(it, t, s)
                return SArr(it.alloc(zip_map(it, [s, t], lambda p, q: elt_op(it, op, q, p) if r else elt_op(it, op, p, q))))
            if isinstance(y, VArr) and len(y.idx) != 1:
                raise Unsupported("array lengths")
            if isinstance(y, VArr):
                y = it.arr_vals(y)[0]
            return SArr(it.alloc(it.map_seq(s, lambda p: elt_op(it, op, y, p) if r else elt_op(it, op, p, y))))
    kinds = [x.kind for x in (a, b) if isinstance(x, VArr)]
    if isinstance(a, (VList, tuple)):
        a = to_array(it, a)
    if isinstance(b, (VList, tuple)):
        b = to_array(it, b)
    kind = "sympy" if "sympy" in kinds else "numpy"
    if op == "@" or (op == "*" and kind == "sympy" and isinstance(a, VArr) and isinstance(b, VArr)):
        return matmul(it, a, b, kind)
    if op == "==" and kind == "sympy":
        if not (isinstance(a, VArr) and isinstance(b, VArr)):
            return False
        if a.shape != b.shape:
            return False
        return it.and_([it.eq(x, y) for x, y in zip(it.arr_vals(a), it.arr_vals(b))])
    if op == "**" and kind == "sympy":
        r = a
        for _ in range(b - 1):
            r = matmul(it, r, a, kind)
        return r
    xs, ys, shape = broadcast(it, a, b)
    return it.new_arr([elt_op(it, op, x, y) for x, y in zip(xs, ys)], shape, kind)


def matmul(it, a, b, kind):
    if not isinstance(a, VArr) or not isinstance(b, VArr):
        raise Unsupported("matmul")
    sa = a.shape if len(a.shape) == 2 else (1,) + a.shape
    sb = b.shape if len(b.shape) == 2 else b.shape + (1,)
    if sa[1] != sb[0]:
        raise exc(ValueError, "matmul shapes")
    A, B = it.arr_vals(a), it.arr_vals(b)
    out = []
    for i in range(sa[0]):
        for j in range(sb[1]):
            acc = 0
            for k in range(sa[1]):
                x, y = A[i * sa[1] + k], B[k * sb[1] + j]
                if _is0(x) or _is0(y):
                    continue
                acc = it.binop("+", acc, it.binop("*", x, y))
            out.append(acc)
    shape = (() if len(a.shape) == 1 else (sa[0],)) + (() if len(b.shape) == 1 else (sb[1],))
    if shape == ():
        return out[0]
    return it.new_arr(out, shape, kind)


def _is0(x):
    return not is_z3(x) and not isinstance(x, (SU, SC)) and x == 0


def kron(it, a, b, kind):
    a, b = as_arr(it, a), as_arr(it, b)
    if len(a.shape) == 1 and len(b.shape) == 1:
        return it.new_arr([mul0(it, x, y) for x in it.arr_vals(a) for y in it.arr_vals(b)], (a.shape[0] * b.shape[0],), kind)
    sa = a.shape if len(a.shape) == 2 else (1,) + a.shape
    sb = b.shape if len(b.shape) == 2 else (1,) + b.shape
    A, B = it.arr_vals(a), it.arr_vals(b)
    out = []
    for i in range(sa[0]):
        for k in range(sb[0]):
            for j in range(sa[1]):
                for l in range(sb[1]):
                    out.append(mul0(it, A[i * sa[1] + j], B[k * sb[1] + l]))
    return it.new_arr(out, (sa[0] * sb[0], sa[1] * sb[1]), kind)


def mul0(it, x, y):
    if _is0(x) or _is0(y):
        return 0
    if not is_z3(x) and x == 1:
        return y
    if not is_z3(y) and y == 1:
        return x
    return it.binop("*", x, y)


def as_arr(it, v):
    return v if isinstance(v, (VArr, SArr, SMat)) else to_array(it, v)


def same_shape(it, seqs):
    if len({len(s.segs) for s in seqs}) != 1:
        return False
    for gs in zip(*[s.segs for s in seqs]):
        if all(isinstance(g, Unit) for g in gs):
            continue
        if not all(isinstance(g, Comp) and len(g.cases) == 1 and g.cases[0][0] is True for g in gs) \
                or not all(it.valid(it.eq(gs[0].n, g.n)) for g in gs[1:]) or not same_shape(it, [Seq(g.cases[0][1]) for g in gs]):
            return False
    return True


def zip_map(it, seqs, f):
    """elementwise map over sequences of equal length and compatible segmentation"""
    segs = [list(s.segs) for s in seqs]
    out = []
    while all(segs):
        heads = [s[0] for s in segs]
        if all(h is heads[0] for h in heads) and isinstance(heads[0], Comp) and heads[0].simple() is None:
            h = heads[0]
            it.index_vars.append(h.idx)
            try:
                out.append(Comp(h.n, h.idx, [(c, zip_map(it, [Seq(p)] * len(segs), f).segs) for c, p in h.cases]))
            finally:
                it.index_vars.pop()
            for s in segs:
                s.pop(0)
            continue
        if all(isinstance(h, Unit) for h in heads):
            out.append(Unit(f(*[it.thaw(h.v) for h in heads])))
            for s in segs:
                s.pop(0)
            continue
        if all(isinstance(h, Comp) and h.simple() is not None for h in heads):
            n0 = heads[0].n
            if not all(it.valid(it.eq(n0, h.n)) for h in heads[1:]):
                # split at the shortest
                for m in [h.n for h in heads]:
                    if all(it.valid(it.cmp("<=", m, h.n)) for h in heads):
                        from .prove import split
                        for s in segs:
                            if not it.valid(it.eq(s[0].n, m)):
                                s[0:1] = split(it, s[0], m)
                        break
                else:
                    raise Unsupported("zip of sequences with unrelated lengths")
                continue
            k = z3.Int(it.fresh_name("k"))
            it.index_vars.append(k)
            try:
                base = it.nref
                v = f(*[it.thaw(it.subst(h.simple().v, h.idx, k)) for h in heads])
                v = it.freeze(v, base)
            finally:
                it.index_vars.pop()
            out.append(Comp(n0, k, [(True, [Unit(v)])]))
            for s in segs:
                s.pop(0)
            continue
        if all(isinstance(h, Comp) and len(h.cases) == 1 and h.cases[0][0] is True for h in heads) \
                and all(it.valid(it.eq(heads[0].n, h.n)) for h in heads[1:]):
            # parts of the same shape: zip inside
            k = z3.Int(it.fresh_name("k"))
            it.index_vars.append(k)
            try:
                base = it.nref
                parts = [it.thaw_seq(it.subst(Seq(h.cases[0][1]), h.idx, k)) for h in heads]
                if not same_shape(it, parts):
                    raise Unsupported("zip of differently structured sequences")
                inner = it.freeze(zip_map(it, parts, f), base)
            finally:
                it.index_vars.pop()
            out.append(Comp(heads[0].n, k, [(True, inner.segs)]))
            for s in segs:
                s.pop(0)
            continue
        # a unit against a comp: peel
        done = False
        for s in segs:
            h = s[0]
            if isinstance(h, Comp):
                if it.valid(it.cmp("<=", h.n, 0)):
                    s.pop(0)
                    done = True
                    break
                if len(h.cases) == 1 and h.cases[0][0] is True and it.valid(it.cmp(">=", h.n, 1)):
                    from .prove import _peel
                    a, r = _peel(it, h)
                    s[0:1] = list(a.segs) + [r]
                    done = True
                    break
        if not done:
            raise Unsupported("zip of differently structured sequences")
    return Seq(out)


def zip_sum(it, s, t):
    z = zip_map(it, [s, t], lambda a, b: it.binop("*", a, b))
    return sum_seq(it, z, 0)


def sum_seq(it, s, start):
    tot = start
    for g in s.segs:
        if isinstance(g, Unit):
            tot = it.binop("+", tot, it.thaw(g.v))
        elif isinstance(g, Comp):
            it.index_vars.append(g.idx)
            try:
                e = None
                for c, p in reversed(g.cases):
                    v = sum_seq(it, Seq(p), 0)
                    e = v if c is True and e is None else it.ite(c, v, 0 if e is None else e)
            finally:
                it.index_vars.pop()
            tot = it.binop("+", tot, big_sum(it, g.n, g.idx, e))
        else:
            raise Unsupported("sum over accumulator")
    return tot


def ext_seq(it, s, is_max, default=UNSET):
    c = s.concrete()
    if c is not None:
        if not c:
            if default is not UNSET:
                return default
            raise exc(ValueError, "empty sequence")
        best = c[0]
        for v in c[1:]:
            better = it.cmp(">" if is_max else "<", v, best)
            if not is_z3(v) and not is_z3(best) and isinstance(better, bool):
                best = v if better else best
            elif is_num(v) and is_num(best):
                best = it.ite(better, v, best)
            else:
                best = v if (better if isinstance(better, bool) else it.decide(better)) else best
        return best
    if not it.decide(nonempty(it, s)):
        if default is not UNSET:
            return default
        raise exc(ValueError, "empty sequence")
    flat = flatten_nonempty(it, s)
    best = None
    for g in flat:
        if isinstance(g, Unit):
            v = g.v
            best = v if best is None else it.ite(it.cmp(">" if is_max else "<", v, best), v, best)
        else:
            v = ext_comp(it, g, is_max)
            # g may be empty only if something else is not
            ne = nonempty(it, Seq([g]))
            if best is None:
                if it.valid(ne) or len(flat) == 1:
                    best = v
                elif it.decide(ne):
                    best = v
            else:
                better = it.and_([ne, it.cmp(">" if is_max else "<", v, best)])
                best = it.ite(better, v, best)
    if best is None:
        raise Infeasible()
    return best


def nonempty(it, s):
    """has the sequence an element?"""
    alts = []
    for g in s.segs:
        if isinstance(g, Unit):
            return True
        if not isinstance(g, Comp):
            return it.cmp(">", it.seq_len(s), 0)
        if g.simple() is not None:
            alts.append(it.cmp(">", g.n, 0))
            continue
        it.index_vars.append(g.idx)
        try:
            inner, earlier = [], []
            for c, p in g.cases:
                inner.append(it.and_(earlier + [c, nonempty(it, Seq(p))]))
                earlier.append(it.not_(c))
            body = it.or_(inner)
        finally:
            it.index_vars.pop()
        if body is False:
            continue
        if body is True:
            alts.append(it.cmp(">", g.n, 0))
            continue
        n = g.n if is_z3(g.n) else z3.IntVal(g.n)
        alts.append(z3.And(n > 0, z3.substitute(body, (g.idx, z3.IntVal(0)))))
        alts.append(z3.Exists([g.idx], z3.And(g.idx >= 0, g.idx < n, body)))
    return it.or_(alts)


def flatten_nonempty(it, s):
    return [g for g in s.segs]


def ext_comp(it, g, is_max):
    """extremum over a (non-empty) comprehension; nested comprehensions become an opaque
    value characterised by bound and attainment"""
    u = g.simple()
    if u is not None:
        if not is_num(u.v):
            raise Unsupported("extremum of non-numbers")
        return big_ext(it, g.n, g.idx, u.v if is_z3(u.v) else z3.IntVal(u.v), None, is_max)
    r = it.fresh("ext", z3.IntSort())
    def over(seg, fn):
        return it.exists(seg, fn)
    bad = it.exists(g, lambda v: it.cmp(">" if is_max else "<", v, r))
    hit = it.exists(g, lambda v: it.eq(v, r))
    ne = nonempty(it, Seq([g]))
    it.axioms.append(z3.Not(to_z3_bool(bad)))
    it.axioms.append(z3.Implies(to_z3_bool(ne), to_z3_bool(hit)))
    key = ("extcomp", is_max)
    tab = it.bigops.setdefault(key, [])
    from .prove import same_value
    for g2, r2 in tab:
        if same_value(it, Seq([g]), Seq([g2])) is True:
            return r2
    tab.append((g, r))
    it.abstract.add(r.decl().name())
    return r


def all_seq(it, s, pred):
    cs = []
    for g in s.segs:
        if isinstance(g, Unit):
            cs.append(pred(g.v))
        elif isinstance(g, Comp):
            cs.append(it.forall(g, pred))
        else:
            raise Unsupported("all() over accumulator")
    return it.and_(cs)


def real_part(it, v):
    if isinstance(v, SC):
        return v.re
    if isinstance(v, complex):
        return Fraction(v.real)
    if isinstance(v, P.Poly):
        return (v + v.conj()) * Fraction(1, 2)
    return v


def imag_part(it, v):
    if isinstance(v, SC):
        return v.im
    if isinstance(v, complex):
        return Fraction(v.imag)
    if isinstance(v, P.Poly):
        return (v - v.conj()) * Fraction(1, 2) * (-P.IM)
    return 0


def conj(it, v):
    if isinstance(v, SC):
        return SC(v.re, it.unop("-", v.im))
    if isinstance(v, complex):
        return v.conjugate()
    if isinstance(v, P.Poly):
        return v.conj()
    if isinstance(v, (VArr,)):
        return it.new_arr([conj(it, x) for x in it.arr_vals(v)], v.shape, v.kind)
    if isinstance(v, (SArr, SMat)):
        return arr_map(it, v, lambda x: conj(it, x))
    if is_num(v) or is_bool(v):
        return v
    raise Unsupported("conjugate")


def transpose(it, v, axes=None):
    if not isinstance(v, VArr):
        raise Unsupported("transpose")
    n = len(v.shape)
    axes = tuple(reversed(range(n))) if axes is None else tuple(axes)
    if not all(isinstance(x, int) for x in axes) or sorted(x % n for x in axes) != list(range(n)) if n else axes:
        raise Unsupported("axes")
    st = strides(v.shape)
    shape = tuple(v.shape[x] for x in axes)
    return VArr(v.ref, [v.idx[sum(j * st[x] for j, x in zip(ix, axes))] for ix in itertools.product(*[range(k) for k in shape])], shape, v.kind)


# ------------------------------------------------------------------ attribute models
def lib_attr(it, v, name):
    def m(f):
        return Builtin(name, f)
    if isinstance(v, VList):
        def setc(s):
            it.heap[v.ref] = s
        cont = lambda: it.heap[v.ref]
        if name == "append":
            return m(lambda it, a, k: setc(cont() + Seq([Unit(a[0])])))
        if name == "extend":
            return m(lambda it, a, k: setc(cont() + it.iterate(a[0])))
        if name == "copy":
            return m(lambda it, a, k: it.new_list(cont()))
        if name == "insert":
            def f(it, a, k):
                c = cont().concrete()
                if isinstance(a[0], int) and a[0] == 0:
                    return setc(Seq((Unit(a[1]),) + cont().segs))
                if c is None or not isinstance(a[0], int):
                    raise Unsupported("insert")
                c.insert(a[0], a[1])
                setc(Seq.of(c))
            return m(f)
        if name == "pop":
            def f(it, a, k):
                i = a[0] if a else -1
                c = cont().concrete()
                if c is None:
                    if i == 0 and isinstance(cont().segs[0], Unit):
                        x = cont().segs[0].v
                        setc(Seq(cont().segs[1:]))
                        return x
                    if i == -1 and isinstance(cont().segs[-1], Unit):
                        x = cont().segs[-1].v
                        setc(Seq(cont().segs[:-1]))
                        return x
                    raise Unsupported("pop")
                if not c:
                    raise exc(IndexError, "pop from empty list")
                x = c.pop(i)
                setc(Seq.of(c))
                return x
            return m(f)
        if name == "reverse":
            return m(lambda it, a, k: setc(it.reverse_seq(cont())))
        if name == "clear":
            return m(lambda it, a, k: setc(Seq()))
        if name == "sort":
            return m(lambda it, a, k: setc(sort_seq(it, cont(), k.get("key"), k.get("reverse", False))))
        if name == "remove":
            def f(it, a, k):
                c = cont().concrete()
                if c is None:
                    raise Unsupported("remove")
                for i, x in enumerate(c):
                    e = it.eq(x, a[0])
                    if e if isinstance(e, bool) else it.decide(e):
                        del c[i]
                        setc(Seq.of(c))
                        return
                raise exc(ValueError)
            return m(f)
    if isinstance(v, (VList, tuple, Seq)):
        if name == "index":
            def f(it, a, k):
                c = it.as_seq(v).concrete()
                if c is None:
                    raise Unsupported("index")
                for i, x in enumerate(c):
                    e = it.eq(x, a[0])
                    if e if isinstance(e, bool) else it.decide(e):
                        return i
                raise exc(ValueError)
            return m(f)
        if name == "count":
            def f(it, a, k):
                return sum_seq(it, it.map_seq(it.as_seq(v), lambda x: it.ite(it.eq(x, a[0]), 1, 0)), 0)
            return m(f)
    if isinstance(v, VDict):
        if name == "get":
            return m(lambda it, a, k: dict_get(it, v, a[0], a[1] if len(a) > 1 else k.get("default")))
        if name == "items":
            return m(lambda it, a, k: it.new_list(dict_items(it, v)))
        if name == "keys":
            return m(lambda it, a, k: it.new_list(it.iterate(v)))
        if name == "values":
            return m(lambda it, a, k: it.new_list(it.map_seq(dict_items(it, v), lambda kv: kv[1])))
        if name == "update":
            def f(it, a, k):
                if a:
                    dict_update(it, v, a[0])
                for kk, x in k.items():
                    dict_set(it, v, kk, x)
            return m(f)
        if name == "copy":
            return m(lambda it, a, k: VDict(it.alloc(it.heap[v.ref])))
        if name == "pop":
            def f(it, a, k):
                x = dict_get(it, v, a[0], a[1] if len(a) > 1 else UNSET)
                try:
                    dict_del(it, v, a[0])
                except PyExc:
                    pass
                return x
            return m(f)
        if name == "clear" and isinstance(it.heap[v.ref], tuple):
            def f(it, a, k):
                it.heap[v.ref] = ()
            return m(f)
        if name == "setdefault":
            def f(it, a, k):
                x = dict_get(it, v, a[0], UNSET2)
                if x is UNSET2:
                    x = a[1] if len(a) > 1 else None
                    dict_set(it, v, a[0], x)
                return x
            return m(f)
    if isinstance(v, VSet):
        if name == "add":
            def f(it, a, k):
                c = it.heap[v.ref].concrete()
                if c is None:
                    it.heap[v.ref] = Seq(it.heap[v.ref].segs + (Unit(a[0]),))
                elif not _in(it, a[0], c):
                    it.heap[v.ref] = Seq.of(c + [a[0]])
            return m(f)
        if name in ("remove", "discard"):
            def f(it, a, k):
                c = it.heap[v.ref].concrete()
                if c is None:
                    raise Unsupported("removal from a symbolic set")
                for j, x in enumerate(c):
                    if _in(it, a[0], [x]):
                        it.heap[v.ref] = Seq.of(c[:j] + c[j + 1:])
                        return None
                if name == "remove":
                    raise exc(KeyError, a[0])
            return m(f)
        if name in ("union", "update"):
            def f(it, a, k):
                s = it.heap[v.ref]
                for x in a:
                    s = s + it.iterate(x)
                r = make_set(it, s)
                if name == "update":
                    it.heap[v.ref] = it.heap[r.ref]
                    return None
                return r
            return m(f)
        if name == "intersection":
            return m(lambda it, a, k: set_op(it, "&", v, make_set(it, it.iterate(a[0]))))
        if name == "difference":
            return m(lambda it, a, k: set_op(it, "-", v, make_set(it, it.iterate(a[0]))))
        if name == "symmetric_difference":
            return m(lambda it, a, k: set_op(it, "^", v, make_set(it, it.iterate(a[0]))))
        if name == "issubset":
            return m(lambda it, a, k: it.set_sub(v, make_set(it, it.iterate(a[0]))))
        if name == "copy":
            return m(lambda it, a, k: VSet(it.alloc(it.heap[v.ref])))
    if isinstance(v, str):
        if name == "join":
            def f(it, a, k):
                s = it.iterate(a[0])
                c = s.concrete()
                if c is not None and all(isinstance(x, str) for x in c):
                    return v.join(c)
                r = it.opaque_app("join", [v, s], STRING)
                if v == "":
                    it.joined.append((r.term, s))
                return r
            return m(f)
        if name == "format":
            def f(it, a, k):
                if all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
                    return v.format(*a, **k)
                return it.opaque_app("format", [v] + list(a))
            return m(f)
        if hasattr(v, name):
            def f(it, a, k):
                if any(not isinstance(x, (str, int, tuple, type(None))) for x in a):
                    raise Unsupported("string method")
                try:
                    r = getattr(v, name)(*a, **k)
                except Exception as e:
                    raise PyExc(ExcInst(type(e), e.args))
                return it.new_list(r) if isinstance(r, list) else r
            return m(f)
    if isinstance(v, VArr):
        if name == "shape":
            return v.shape
        if name == "size":
            return len(v.idx)
        if name == "ndim":
            return len(v.shape)
        if name == "T":
            return transpose(it, v)
        if name == "H":
            return conj(it, transpose(it, v))
        if name == "transpose":
            return m(lambda it, a, k: transpose(it, v, None if not a or a == [None] else it.as_seq(a[0]).concrete() if len(a) == 1 else a) if not k else it._unsup("transpose"))
        if name == "nonzero" and v.shape:
            def f(it, a, k):
                at = list(itertools.product(*[range(n) for n in v.shape]))
                e = [ix for ix, x in zip(at, it.arr_vals(v)) if sparse.nonzero(it, x)]
                return tuple(it.new_arr([ix[d] for ix in e], (len(e),)) for d in range(len(v.shape)))
            return m(f)
        if name in ("conj", "conjugate"):
            return m(lambda it, a, k: conj(it, v))
        if name == "adjoint":
            return m(lambda it, a, k: conj(it, transpose(it, v)))
        if name in ("copy", "flatten", "ravel"):
            return m(lambda it, a, k: it.new_arr(it.arr_vals(v), v.shape if name == "copy" else (len(v.idx),), v.kind))
        if name == "astype":
            return m(lambda it, a, k: as_type(it, v, a, k))
        if name == "all" and v.kind != "sympy":
            return m(lambda it, a, k: arr_all(it, v, a, k))
        if name == "any" and v.kind != "sympy":
            return m(lambda it, a, k: it.not_(arr_all(it, v, a, k, neg=True)))
        if name == "tolist":
            def tl(x):
                if not x.shape:
                    return it.arr_vals(x)[0]
                if len(x.shape) == 1:
                    return it.new_list(it.arr_vals(x))
                return it.new_list([tl(y) for y in it.as_seq(x).concrete()])
            return m(lambda it, a, k: tl(v))
        if name == "sum":
            return m(lambda it, a, k: arr_sum(it, v, a, k))
        if name == "real":
            return it.new_arr([real_part(it, x) for x in it.arr_vals(v)], v.shape)
        if name == "imag":
            return it.new_arr([imag_part(it, x) for x in it.arr_vals(v)], v.shape)
        if name == "reshape":
            def f(it, a, k):
                sh = a[0] if isinstance(a[0], tuple) else tuple(a)
                n = len(v.idx)
                known = 1
                for x in sh:
                    if x != -1:
                        known *= x
                sh = tuple(n // known if x == -1 else x for x in sh)
                return VArr(v.ref, v.idx, sh, v.kind)
            return m(f)
        if name == "dot":
            return m(lambda it, a, k: matmul(it, v, as_arr(it, a[0]), v.kind))
        if name == "dtype":
            return VLib("numpy.dtype_of")
        if v.kind == "sympy" and name in ("evalf", "doit"):
            return m(lambda it, a, k: v)
        if v.kind == "sympy" and name == "subs":
            return m(lambda it, a, k: it.new_arr([poly_subs(it, x, a[0]) for x in it.arr_vals(v)], v.shape, v.kind))
        if v.kind == "sympy" and name == "free_symbols":
            gs = sorted({g for x in it.arr_vals(v) if isinstance(x, P.Poly) for g in x.gens() if not g.startswith("#")})
            return VSet(it.alloc(Seq.of([P.Poly.gen(g) for g in gs])))
        if name in ("free_symbols", "subs", "evalf", "atoms") and v.kind == "numpy":
            raise exc(AttributeError, name)
        if name in ("rows", "cols"):
            return v.shape[0 if name == "rows" else 1]
        if name in ("row", "col") and v.kind == "sympy":
            def part(it, a, k):
                i, (r, c) = a[0], v.shape
                if k or not isinstance(i, int) or isinstance(i, bool):
                    raise Unsupported(name)
                n = r if name == "row" else c
                if not -n <= i < n:
                    raise exc(IndexError, "Index out of range")
                xs = it.arr_vals(v)
                i %= n
                return it.new_arr(xs[i * c:(i + 1) * c], (1, c), "sympy") if name == "row" else it.new_arr(xs[i::c], (r, 1), "sympy")
            return m(part)
    if isinstance(v, SMat):
        return mats.attr(it, v, name, m)
    if isinstance(v, sparse.VSp):
        return sparse.attr(it, v, name)
    if isinstance(v, SArr):
        s = it.heap[v.ref]
        if name == "copy":
            return m(lambda it, a, k: SArr(it.alloc(s)))
        if name == "astype":
            return m(lambda it, a, k: as_type(it, v, a, k))
        if name == "all":
            return m(lambda it, a, k: arr_all(it, v, a, k))
        if name == "any":
            return m(lambda it, a, k: it.not_(arr_all(it, v, a, k, neg=True)))
        if name == "sum":
            return m(lambda it, a, k: it._unsup("sum with options") if a or k else sum_seq(it, s, 0))
        if name == "tolist":
            return m(lambda it, a, k: it.new_list(s))
        if name == "shape":
            return (it.seq_len(s),)
        if name == "size":
            return it.seq_len(s)
        if name == "ndim":
            return 1
        if name == "dot":
            return m(lambda it, a, k: arr_binop(it, "@", v, a[0]))
        if name == "real":
            return SArr(it.alloc(it.map_seq(s, lambda x: real_part(it, x))))
    if isinstance(v, P.Poly):
        if name == "free_symbols":
            return VSet(it.alloc(Seq.of([P.Poly.gen(g) for g in sorted(v.gens()) if not g.startswith("#")])))
        if name == "subs":
            return m(lambda it, a, k: poly_subs(it, v, a[0]))
        if name in ("conjugate",):
            return m(lambda it, a, k: v.conj())
        if name == "is_real":
            return I_free(v)
        if name == "is_number":
            return not [g for g in v.gens() if not g.startswith("#")]
    if isinstance(v, (SC, complex)):
        if name == "real":
            return real_part(it, v)
        if name == "imag":
            return imag_part(it, v)
        if name in ("conj", "conjugate"):
            return m(lambda it, a, k: conj(it, v))
    if is_num(v) or is_bool(v):
        if name == "real":
            return v
        if name == "imag":
            return 0
        if name == "conjugate" or name == "conj" and not isinstance(v, (int, bool)):
            return m(lambda it, a, k: v)
        if name == "bit_length" and isinstance(v, int):
            return m(lambda it, a, k: int(v).bit_length())
        if name == "is_integer" and isinstance(v, Fraction):
            return m(lambda it, a, k: v.denominator == 1)
        if name == "item":
            return m(lambda it, a, k: v)
    if isinstance(v, Act):
        f = getattr(it, "act_attrs", {}).get((v.tag, name))
        if f is not None:
            return f(it, v)
    if isinstance(v, Builtin) and name == "__name__":
        return v.name
    if isinstance(v, Builtin) and (v.name, name) == ("dict", "fromkeys"):
        def f(it, a, k):
            val = a[1] if len(a) > 1 else None
            return it.builtins["dict"].fn(it, [it.new_list(it.map_seq(it.iterate(a[0]), lambda x: (x, val)))], {})
        return m(f)
    if isinstance(v, Builtin) and v.name == "type" and name == "__name__":
        return "type"
    if isinstance(v, VBound) and name == "__self__":
        return v.self_
    if isinstance(v, VFunc) and name == "__get__":
        return m(lambda it, a, k: VBound(v, a[0]))
    return NotImplemented


UNSET2 = Unset()


def I_free(v):
    return P.I not in v.gens()


def poly_subs(it, v, mapping):
    if not isinstance(v, P.Poly):
        return v
    c = it.heap[mapping.ref]
    if not isinstance(c, tuple):
        raise Unsupported("subs with a symbolic map")
    mp = {}
    for k, x in c:
        if not isinstance(k, P.Poly) or len(k.gens()) != 1:
            raise Unsupported("subs of a non-symbol")
        mp[next(iter(k.gens()))] = P.Poly.const(it.to_poly(x))
    if any(g.startswith(("c:", "s:")) for g in v.gens()):
        raise Unsupported("substitution under trigonometric functions")
    return v.subs(mp)


def sort_seq(it, s, key=None, reverse=False):
    c = s.concrete()
    if c is None:
        c0 = [g for g in s.segs]
        raise Unsupported("sort of a symbolic sequence")
    kf = (lambda v: v) if key is None else (lambda v: it.call(key, [v], {}))
    items = [(kf(v), v) for v in c]
    # insertion sort (stable), forking on symbolic comparisons
    out = []
    for kv in items:
        j = len(out)
        while j > 0:
            lt = it.cmp("<", kv[0], out[j - 1][0]) if not reverse else it.cmp(">", kv[0], out[j - 1][0])
            if lt if isinstance(lt, bool) else it.decide(lt):
                j -= 1
            else:
                break
        out.insert(j, kv)
    return Seq.of([v for _, v in out])


def install(it):
    B = {}
    it.builtins = B
    M = it.models
    it.lib_attr = lambda v, n: lib_attr(it, v, n)
    it.lib_consts = {"numpy.pi": P.Poly.gen(P.PI), "math.pi": P.Poly.gen(P.PI), "sympy.pi": P.Poly.gen(P.PI),
                     "sympy.I": P.IM, "sympy.S.ImaginaryUnit": P.IM, "numpy.newaxis": None, "sympy.I": P.IM,
                     "sympy.S.Zero": 0, "sympy.S.One": 1, "sys.float_info.min": Fraction(2.2250738585072014e-308), "sys.float_info.epsilon": Fraction(2.220446049250313e-16),
                     "math.inf": float("inf"), "numpy.inf": float("inf")}

    def b(name):
        def deco(f):
            B[name] = Builtin(name, f)
            return f
        return deco

    def m(*names):
        def deco(f):
            for n in names:
                M[n] = f
            return f
        return deco

    B["NotImplemented"] = NotImplSingleton
    B["Ellipsis"] = Ellipsis
    B["__name__"] = "module"
    for n in ("object", "type", "property", "staticmethod", "classmethod"):
        B[n] = Builtin(n, lambda it, a, k, n=n: _special(it, n, a))

    @b("len")
    def _(it, a, k):
        return it.length(a[0])

    @b("range")
    def _(it, a, k):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        for x in (lo, hi, st):
            if not is_intlike(x):
                if isinstance(x, Fraction) or isinstance(x, z3.ArithRef) and x.is_real():
                    raise exc(TypeError, "float in range")
                raise Unsupported("range argument")
        if it.split_ranges and st == 1 and not (isinstance(lo, int) and isinstance(hi, int)):
            d = it.sub(hi, lo)         # ranges of few elements: one case per length
            for n in range(it.split_ranges + 1):
                e = it.cmp("<=", d, n)
                if e if isinstance(e, bool) else it.decide(e):
                    return tuple(it.binop("+", lo, q) for q in range(n))
            raise Unsupported("range longer than expected")
        s = it.range_seq(lo, hi, st)
        c = s.concrete()
        return tuple(c) if c is not None else s

    @b("enumerate")
    def _(it, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        s = it.iterate(a[0])
        return it.new_iter(enum_seq(it, s, start))

    @b("zip")
    def _(it, a, k):
        seqs = []
        for x in a:
            if type(x).__name__ == "StarArg":
                if len(a) != 1 or len(x.seq.segs) != 1 or x.seq.segs[0].simple() is None or not isinstance(x.seq.segs[0].simple().v, tuple):
                    raise Unsupported("zip(*symbolic)")
                g = x.seq.segs[0]
                if not it.decide(g.n > 0):
                    return it.new_iter(Seq())
                return it.new_iter(Seq.of([Seq([Comp(g.n, g.idx, [(True, (Unit(e),))])]) for e in g.simple().v]))
            seqs.append(it.iterate(x))
        if not seqs:
            return it.new_iter(Seq())
        cs = [s.concrete() for s in seqs]
        if all(c is not None for c in cs):
            return it.new_iter(Seq.of([tuple(t) for t in zip(*cs)]))
        lens = [it.seq_len(s) for s in seqs]
        n0 = lens[0]
        for n in lens[1:]:
            if not it.valid(it.eq(n0, n)):
                # truncate to the shorter
                if it.decide(it.cmp("<=", n0, n)):
                    seqs = [it.seq_slice(s, None, n0) for s in seqs]
                else:
                    n0 = n
                    seqs = [it.seq_slice(s, None, n0) for s in seqs]
        return it.new_iter(zip_map(it, seqs, lambda *x: tuple(x)))

    @b("map")
    def _(it, a, k):
        f = a[0]
        if len(a) == 2:
            s = it.iterate(a[1])
            out = it.new_list([])
            def body(v):
                r = it.call(f, [v], {})
                it.heap[out.ref] = it.heap[out.ref] + Seq([Unit(r)])
            for_loop(it, s, body)
            return it.new_iter(it.heap[out.ref])
        z = it.builtins["zip"].fn(it, a[1:], {})
        out = it.new_list([])
        def body2(v):
            r = it.call(f, list(v), {})
            it.heap[out.ref] = it.heap[out.ref] + Seq([Unit(r)])
        for_loop(it, it.iterate(z), body2)
        return it.new_iter(it.heap[out.ref])

    @b("filter")
    def _(it, a, k):
        f, s = a[0], it.iterate(a[1])
        out = it.new_list([])
        def body(v):
            t = it.truth(v if f is None else it.call(f, [v], {}))
            if it.decide(t):
                it.heap[out.ref] = it.heap[out.ref] + Seq([Unit(v)])
        for_loop(it, s, body)
        return it.new_iter(it.heap[out.ref])

    @b("sorted")
    def _(it, a, k):
        return it.new_list(sort_seq(it, it.iterate(a[0]), k.get("key"), k.get("reverse", False)))

    @b("reversed")
    def _(it, a, k):
        return it.new_iter(it.reverse_seq(it.as_seq(a[0])))

    @b("list")
    def _(it, a, k):
        return it.new_list(it.iterate(a[0]) if a else Seq())

    @b("tuple")
    def _(it, a, k):
        s = it.iterate(a[0]) if a else Seq()
        c = s.concrete()
        return tuple(c) if c is not None else s

    @b("iter")
    def _(it, a, k):
        return a[0] if isinstance(a[0], VIter) else it.new_iter(it.as_seq(a[0]))

    @b("next")
    def _(it, a, k):
        if isinstance(a[0], SU) and "__next__" in a[0].iface.methods:
            return a[0].iface.methods["__next__"](it, a[0], [], {})
        if not isinstance(a[0], Ref):
            raise Unsupported("next of an unknown iterator")
        s = it.heap[a[0].ref]
        n = it.seq_len(s)
        if not it.decide(it.cmp(">", n, 0)):
            if len(a) > 1:
                return a[1]
            raise exc(StopIteration)
        v = it.seq_get(s, 0)
        it.heap[a[0].ref] = it.seq_slice(s, 1, None)
        return v

    @b("dict")
    def _(it, a, k):
        if a and isinstance(a[0], SU) and a[0].iface is COUNTER and not k:
            return a[0]
        d = VDict(it.alloc(()))
        if a:
            dict_update(it, d, a[0])
        for kk, v in k.items():
            dict_set(it, d, kk, v)
        return d

    @b("set")
    def _(it, a, k):
        if a and isinstance(a[0], SU) and "set" in a[0].iface.ops:
            return a[0].iface.ops["set"](it, a[0])
        return make_set(it, it.iterate(a[0]) if a else Seq())
    B["frozenset"] = Builtin("frozenset", B["set"].fn)

    @b("sum")
    def _(it, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        s = it.iterate(a[0])
        if any(isinstance(x, Unit) and isinstance(x.v, (VObj, VList)) for x in s.segs) or isinstance(start, (VObj, VList, SU)):
            acc = start
            c = s.concrete()
            if c is None:
                raise Unsupported("sum of objects")
            for v in c:
                acc = it.binop("+", acc, v)
            return acc
        return sum_seq(it, s, start)

    def ext(is_max):
        def f(it, a, k):
            key = k.get("key")
            s = it.iterate(a[0]) if len(a) == 1 else Seq.of(a)
            if key is not None:
                c = s.concrete()
                if c is None:
                    raise Unsupported("max with key")
                best = c[0]
                bk = it.call(key, [best], {})
                for v in c[1:]:
                    kk = it.call(key, [v], {})
                    e = it.cmp(">" if is_max else "<", kk, bk)
                    if e if isinstance(e, bool) else it.decide(e):
                        best, bk = v, kk
                return best
            return ext_seq(it, s, is_max, k.get("default", UNSET))
        return f
    B["max"] = Builtin("max", ext(True))
    B["min"] = Builtin("min", ext(False))

    @b("all")
    def _(it, a, k):
        return all_seq(it, it.iterate(a[0]), it.truth)

    @b("any")
    def _(it, a, k):
        return it.not_(all_seq(it, it.iterate(a[0]), lambda v: it.not_(it.truth(v))))

    @b("abs")
    def _(it, a, k):
        v = a[0]
        if isinstance(v, z3.ArithRef):
            return z3.simplify(z3.If(v >= 0, v, -v))
        if isinstance(v, (int, Fraction)):
            return abs(v)
        if isinstance(v, (SC, complex)):
            s = it.to_sc(v)
            return sqrt_real(it, it.binop("+", it.binop("*", s.re, s.re), it.binop("*", s.im, s.im)))
        if isinstance(v, (VArr, SArr, SMat)):
            return arr_map(it, v, lambda x: B["abs"].fn(it, [x], {}))
        if isinstance(v, SU) and "abs" in v.iface.ops:
            return v.iface.ops["abs"](it, v)
        raise Unsupported("abs")

    @b("int")
    def _(it, a, k):
        v = a[0] if a else 0
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if is_intlike(v):
            return int(v) if isinstance(v, bool) else v
        if isinstance(v, str):
            if set(k) - {"base"} or len(a) > 1 and k:
                raise Unsupported("options of int")
            try:
                return int(v, *(a[1:] or k.values()))
            except ValueError as e:
                raise PyExc(ExcInst(ValueError, e.args))
        if isinstance(v, (Fraction,)):
            return int(v)
        if isinstance(v, z3.ArithRef):
            if v.num_args() == 0 and str(v).startswith("log2_"):
                return int(str(v)[5:]).bit_length() - 1
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if isinstance(v, P.Poly) and v.as_fraction() is not None:
            return int(v.as_fraction())
        if isinstance(v, SU) and "int" in v.iface.ops:
            return v.iface.ops["int"](it, v)
        if isinstance(v, SU) and (len(a) == 2 or set(k) == {"base"}) and (a[1] if len(a) == 2 else k["base"]) == 2:
            return binary_number(it, v)
        if isinstance(v, (SC, complex)) or v is None or isinstance(v, P.Poly):
            raise exc(TypeError, "int")
        raise Unsupported("int()")

    @b("float")
    def _(it, a, k):
        v = a[0] if a else 0
        if isinstance(v, (int, Fraction)):
            return Fraction(v)
        if isinstance(v, z3.ExprRef) and not isinstance(v, z3.BitVecRef):
            return to_z3_real(v)
        if isinstance(v, str):
            try:
                return Fraction(repr(float(v)))
            except ValueError as e:
                raise PyExc(ExcInst(ValueError, e.args))
        if isinstance(v, P.Poly):
            return v
        if isinstance(v, (SC, complex)) or v is None:
            raise exc(TypeError, "float")
        if isinstance(v, SU) and "float" in v.iface.ops:
            return v.iface.ops["float"](it, v)
        raise Unsupported("float()")

    @b("complex")
    def _(it, a, k):
        if len(a) == 2:
            return SC(a[0], a[1])
        if isinstance(a[0], P.Poly) and [g for g in a[0].gens() if not g.startswith("#")]:
            raise exc(TypeError, "cannot convert an expression with symbols")
        return it.to_sc(a[0])

    @b("bool")
    def _(it, a, k):
        return it.truth(a[0]) if a else False

    @b("str")
    def _(it, a, k):
        v = a[0] if a else ""
        if isinstance(v, str):
            return v
        if isinstance(v, int):
            return str(v)
        if isinstance(v, VObj):
            mm, _c = v.cls.lookup("__str__")
            if mm is not None:
                return it.call(mm, [v], {})
        from .interp import STR
        if isinstance(v, SU) and v.iface is STR:
            return v
        if isinstance(v, SU) and "str" in v.iface.ops:
            return v.iface.ops["str"](it, v)
        return SU(it.mk("str", [v]), STR)
    B["repr"] = Builtin("repr", lambda it, a, k: it.opaque_app("repr", [a[0]]))

    @b("issubclass")
    def _(it, a, k):
        if isinstance(a[0], VClass) and isinstance(a[1], VClass):
            return a[1] in a[0].mro()
        if isinstance(a[1], VClass) and (isinstance(a[0], Builtin) or isinstance(a[0], SU) and a[0].iface is OPAQUE):
            if isinstance(a[0], SU):
                t = a[0].term
                if not (t.decl().name().endswith("type_of") and t.num_args() == 1):
                    raise Unsupported("issubclass of an opaque class")
            return False
        raise Unsupported("issubclass")

    @b("isinstance")
    def _(it, a, k):
        return it.isinstance(a[0], a[1])

    @b("getattr")
    def _(it, a, k):
        if not isinstance(a[1], str):
            raise Unsupported("getattr with symbolic name")
        if len(a) == 3:
            try:
                return it.getattr(a[0], a[1])
            except PyExc as e:
                if isinstance(e.value, ExcInst) and issubclass(e.value.cls, AttributeError):
                    return a[2]
                raise
        return it.getattr(a[0], a[1])

    @b("setattr")
    def _(it, a, k):
        it.setattr(a[0], a[1], a[2])

    @b("hasattr")
    def _(it, a, k):
        if isinstance(a[0], (tuple, Seq)) and a[1] == "_asdict":
            return False
        if a[1] in ("__len__", "__iter__", "__getitem__", "__contains__") and (is_num(a[0]) or is_bool(a[0]) or a[0] is None or isinstance(a[0], (str, tuple, Seq, VList, VDict, VSet) + ARRAYS)):
            return isinstance(a[0], (str, tuple, Seq, VList, VDict, VSet) + ARRAYS) and not (isinstance(a[0], VSet) and a[1] == "__getitem__")
        try:
            it.getattr(a[0], a[1])
            return True
        except PyExc as e:
            if isinstance(e.value, ExcInst) and issubclass(e.value.cls, AttributeError):
                return False
            raise

    @b("callable")
    def _(it, a, k):
        return isinstance(a[0], (VFunc, VBound, Builtin, VClass)) or isinstance(a[0], SU) and a[0].iface.call is not None

    @b("id")
    def _(it, a, k):
        raise Unsupported("id")

    @b("hash")
    def _(it, a, k):
        return it.num_app("hash", [a[0]], z3.IntSort())

    @b("round")
    def _(it, a, k):
        v = a[0]
        if len(a) > 1:
            raise Unsupported("round to digits")
        return round_half_even(it, v)

    @b("pow")
    def _(it, a, k):
        return it.binop("**", a[0], a[1])

    @b("divmod")
    def _(it, a, k):
        return (it.binop("//", a[0], a[1]), it.binop("%", a[0], a[1]))

    @m("numpy.iscomplexobj")
    def _(it, a, k):
        x = a[0]
        if isinstance(x, (SC, complex)):
            return True
        if isinstance(x, (int, float, Fraction)) or is_z3(x):
            return False
        if isinstance(x, VArr):
            vals = it.arr_vals(x)
            if vals and all(isinstance(e, (SC, complex)) for e in vals):
                return True
            if vals and all(isinstance(e, (int, float, Fraction)) or is_z3(e) for e in vals):
                return False
        raise Unsupported("iscomplexobj of an array of unknown type")

    from . import files
    files.install(it, B, m)

    @m("sys.exit")
    def _(it, a, k):
        raise exc(SystemExit, *a)

    @b("bin")
    def _(it, a, k):
        if isinstance(a[0], int):
            return bin(a[0])
        raise Unsupported("bin of a symbolic number")

    @b("chr")
    def _(it, a, k):
        return chr(a[0])

    @b("ord")
    def _(it, a, k):
        return ord(a[0])

    @b("format")
    def _(it, a, k):
        if isinstance(a[0], int) and isinstance(a[1], str):
            return format(a[0], a[1])
        return it.opaque_app("format", a)

    @b("slice")
    def _(it, a, k):
        a = list(a)
        return VSlice(None, a[0], None) if len(a) == 1 else VSlice(*(a + [None] * (3 - len(a))))

    # ---------------- functools / itertools / operator / copy / typing
    @m("functools.reduce")
    def _(it, a, k):
        f, s = a[0], it.iterate(a[1])
        segs = list(s.segs)
        if len(a) > 2:
            acc = a[2]
        else:
            try:
                acc, rest = uncons(it, s)
            except Unsupported:
                if not it.decide(it.cmp(">", it.seq_len(s), 0)):
                    raise exc(TypeError, "reduce() of empty sequence")
                acc, rest = it.thaw(it.seq_get(s, 0)), it.seq_slice(s, 1, None)
            if rest is None:
                raise exc(TypeError, "reduce() of empty sequence")
            segs = list(rest.segs)
        rest = Seq(segs)
        fr = {"acc": acc}
        holder = it.alloc({"acc": acc})
        def body(v):
            d = dict(it.heap[holder])
            d["acc"] = it.call(f, [d["acc"], v], {})
            it.heap[holder] = d
        for_loop(it, rest, body)
        return it.heap[holder]["acc"]

    @m("functools.partial")
    def _(it, a, k):
        f, pre, kw = a[0], a[1:], dict(k)
        return Builtin("partial", lambda it, x, y: it.call(f, list(pre) + list(x), {**kw, **y}))

    @m("functools.wraps", "functools.lru_cache", "functools.update_wrapper")
    def _(it, a, k):
        return Builtin("deco", lambda it, x, y: x[0])

    @m("itertools.chain")
    def _(it, a, k):
        s = Seq()
        for x in a:
            s = s + it.iterate(x)
        return it.new_iter(s)

    @m("itertools.chain.from_iterable")
    def _(it, a, k):
        out = it.new_list([])
        def body(v):
            more = it.iterate(v)
            it.heap[out.ref] = it.heap[out.ref] + more
        for_loop(it, it.iterate(a[0]), body)
        return it.new_iter(it.heap[out.ref])

    @m("itertools.product")
    def _(it, a, k):
        import itertools
        cs = [it.iterate(x).concrete() for x in a]
        if any(c is None for c in cs):
            raise Unsupported("product")
        return it.new_iter(Seq.of(list(itertools.product(*cs, repeat=k.get("repeat", 1)))))

    @m("itertools.combinations")
    def _(it, a, k):
        import itertools
        c = it.iterate(a[0]).concrete()
        if c is None:
            raise Unsupported("combinations")
        return it.new_iter(Seq.of(list(itertools.combinations(c, a[1]))))

    @m("itertools.permutations")
    def _(it, a, k):
        import itertools
        c = it.iterate(a[0]).concrete()
        if c is None:
            raise Unsupported("permutations")
        return it.new_iter(Seq.of(list(itertools.permutations(c, *a[1:]))))

    @m("itertools.islice")
    def _(it, a, k):
        args = list(a[1:])
        lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
        return it.new_iter(it.seq_slice(it.iterate(a[0]), lo, hi))

    @m("itertools.repeat")
    def _(it, a, k):
        if len(a) < 2:
            return it.opaque_app("endless", [a[0]], Iface("endless", methods={"__next__": lambda it, s, b, kk, x=a[0]: x}))
        return it.new_iter(it.map_seq(it.range_seq(0, a[1], 1), lambda i: a[0]))

    @m("operator.matmul")
    def _(it, a, k):
        return it.binop("@", a[0], a[1])
    for nm, op in (("mul", "*"), ("add", "+"), ("sub", "-"), ("truediv", "/"), ("pow", "**"), ("floordiv", "//"), ("mod", "%")):
        M["operator." + nm] = lambda it, a, k, op=op: it.binop(op, a[0], a[1])

    for nm, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        M["operator." + nm] = lambda it, a, k, op=op: it.cmp(op, a[0], a[1])

    M["operator.neg"] = lambda it, a, k: it.unop("-", a[0])

    @m("operator.attrgetter")
    def _(it, a, k):
        n = a[0]
        def f(it, x, y):
            v = x[0]
            for p in n.split("."):
                v = it.getattr(v, p)
            return v
        return Builtin("attrgetter", f)

    @m("operator.itemgetter")
    def _(it, a, k):
        if len(a) == 1:
            return Builtin("itemgetter", lambda it, x, y: it.getitem(x[0], a[0]))
        return Builtin("itemgetter", lambda it, x, y: tuple(it.getitem(x[0], i) for i in a))

    @m("copy.copy")
    def _(it, a, k):
        return shallow(it, a[0])

    @m("copy.deepcopy")
    def _(it, a, k):
        return deep(it, a[0], {})

    @m("typing.cast")
    def _(it, a, k):
        return a[1]

    @m("dataclasses.replace")
    def _(it, a, k):
        o = a[0]
        d = dict(it.heap[o.ref])
        fs = o.cls.dataclass["fields"]
        kw = {n: d[n] for n, _ in fs}
        for n, v in k.items():
            if n not in kw:
                raise exc(TypeError, n)
            kw[n] = v
        return it.instantiate(o.cls, [], kw)

    @m("dataclasses.field")
    def _(it, a, k):
        if "default_factory" in k:
            return ("__factory__", k["default_factory"])
        return k.get("default", UNSET)

    @m("collections.defaultdict")
    def _(it, a, k):
        d = VDict(it.alloc(()))
        it.defaultdicts = dict(getattr(it, "defaultdicts", {}))
        it.defaultdicts[d.ref] = a[0] if a else None
        if len(a) > 1:
            dict_update(it, d, a[1])
        return d

    @m("collections.OrderedDict")
    def _(it, a, k):
        return B["dict"].fn(it, a, k)

    @m("collections.Counter")
    def _(it, a, k):
        s = it.iterate(a[0]) if a else Seq()
        c = s.concrete()
        if c is None:
            return it.opaque_app("Counter", [s], COUNTER)
        d = VDict(it.alloc(()))
        it.defaultdicts = dict(getattr(it, "defaultdicts", {}))
        it.defaultdicts[d.ref] = B["int"]
        for v in c:
            dict_set(it, d, v, it.binop("+", dict_get(it, d, v, 0), 1))
        return d
    B["__import__"] = Builtin("__import__", lambda it, a, k: it._unsup("__import__"))

    # ---------------- math / numpy / sympy on numbers
    def trig(fn):
        def f(it, a, k):
            v = a[0]
            if isinstance(v, (VArr, SArr, SMat)):
                return arr_map(it, v, lambda x: f(it, [x], k))
            if fn == "exp" and is_z3(v) and is_num(v):
                return real_exp(it, v)
            try:
                p = P.Poly.const(it.to_poly(v))
                if fn == "cos":
                    return P.cos_sin(p)[0]
                if fn == "sin":
                    return P.cos_sin(p)[1]
                return P.exp(p)
            except P.PolyUnsupported as e:
                raise Unsupported(str(e))
        return f
    for lib in ("numpy", "sympy", "math", "cmath"):
        M[lib + ".cos"] = trig("cos")
        M[lib + ".sin"] = trig("sin")
        M[lib + ".exp"] = trig("exp")

    @m("numpy.sqrt", "math.sqrt", "sympy.sqrt")
    def _(it, a, k):
        v = a[0]
        if isinstance(v, (VArr, SArr, SMat)):
            return arr_map(it, v, lambda x: M["numpy.sqrt"](it, [x], {}))
        if is_z3(v):
            return sqrt_real(it, v)
        try:
            return P.sqrt(P.Poly.const(it.to_poly(v)))
        except P.PolyUnsupported:
            if isinstance(v, (int, Fraction)) and v >= 0:
                return sqrt_real(it, to_z3_real(v))
            raise Unsupported("sqrt")

    @m("numpy.log", "math.log")
    def _(it, a, k):
        if len(a) > 1 or k:
            raise Unsupported("log with options")
        v = a[0]
        if isinstance(v, (VArr, SArr, SMat)):
            return arr_map(it, v, lambda x: M["numpy.log"](it, [x], {}))
        if not is_num(v):
            raise Unsupported("log")
        if not is_z3(v) and v == 1:
            return 0
        pos = it.cmp(">", v, 0)
        if not (pos if isinstance(pos, bool) else it.decide(pos)):
            raise exc(ValueError, "math domain error")
        return z3.Function("log", z3.RealSort(), z3.RealSort())(to_z3_real(v))

    @m("numpy.log2", "math.log2")
    def _(it, a, k):
        v = a[0]
        if isinstance(v, int) and v > 0 and v & (v - 1) == 0:
            return Fraction(v.bit_length() - 1)
        if isinstance(v, int) and v > 0:
            r = z3.Real(f"log2_{v}")          # strictly between the neighbouring integers; not rounded
            b = v.bit_length() - 1
            it.axioms.append(z3.And(r > b, r < b + 1))
            return r
        if isinstance(v, (int, Fraction)) and v <= 0:
            raise Unsupported("log2 of a non-positive number")
        if isinstance(v, z3.ArithRef) and v.is_int():
            # log2 as the inverse of pow2 on powers of two
            from .interp import _pow2
            r = z3.Function("log2", z3.IntSort(), z3.RealSort())(v)
            x = z3.Int("l2x")
            it.axioms.append(z3.ForAll([x], z3.Implies(x >= 0, z3.Function("log2", z3.IntSort(), z3.RealSort())(_pow2(x)) == z3.ToReal(x)), patterns=[_pow2(x)]))
            return r
        raise Unsupported("log2")

    @m("math.floor", "numpy.floor")
    def _(it, a, k):
        v = a[0]
        if isinstance(v, (int, Fraction)):
            return math.floor(v)
        if isinstance(v, z3.ArithRef):
            return v if v.is_int() else z3.ToInt(v)
        if isinstance(v, (VArr, SArr, SMat)):
            return arr_map(it, v, lambda x: M["math.floor"](it, [x], {}))
        raise Unsupported("floor")

    @m("math.ceil", "numpy.ceil")
    def _(it, a, k):
        v = a[0]
        if isinstance(v, (int, Fraction)):
            return math.ceil(v)
        if isinstance(v, z3.ArithRef):
            return v if v.is_int() else -z3.ToInt(-v)
        if isinstance(v, (VArr, SArr, SMat)):
            return arr_map(it, v, lambda x: M["math.ceil"](it, [x], {}))
        raise Unsupported("ceil")

    @m("numpy.round", "numpy.around", "numpy.rint")
    def _(it, a, k):
        if len(a) > 1 or k:
            raise Unsupported("round to digits")
        return arr_map(it, a[0], lambda x: round_half_even(it, x)) if isinstance(a[0], (VArr, SArr, SMat)) else round_half_even(it, a[0])

    @m("numpy.abs", "numpy.absolute", "sympy.Abs", "math.fabs")
    def _(it, a, k):
        return B["abs"].fn(it, a, k)

    @m("numpy.real", "sympy.re")
    def _(it, a, k):
        return arr_map(it, a[0], lambda x: real_part(it, x)) if isinstance(a[0], (VArr, SArr, SMat)) else real_part(it, a[0])

    @m("numpy.imag", "sympy.im")
    def _(it, a, k):
        return arr_map(it, a[0], lambda x: imag_part(it, x)) if isinstance(a[0], (VArr, SArr, SMat)) else imag_part(it, a[0])

    @m("numpy.conj", "numpy.conjugate", "sympy.conjugate")
    def _(it, a, k):
        return conj(it, a[0])

    @m("numpy.array", "numpy.asarray", "numpy.copy", "numpy.asfarray")
    def _(it, a, k):
        if set(k) - {"dtype", "copy", "order"} or k.get("order", "C") not in ("C", "K", "A", "F"):     # the order in memory is not observable
            raise Unsupported("options of numpy.array")
        r = to_array(it, a[0])
        t = k.get("dtype", a[1] if len(a) > 1 else None)
        if getattr(t, "name", getattr(t, "path", None)) in ("complex", "float", "numpy.complex128", "numpy.float64") and isinstance(a[0], VArr) and a[0].kind == "sympy" and \
                any(isinstance(x, P.Poly) and [g for g in x.gens() if not g.startswith(("#", "z:"))] for x in it.arr_vals(r)):
            raise exc(TypeError, "cannot convert an expression with symbols")
        return r

    @m("numpy.array_equal")
    def _(it, a, k):
        x, y = as_arr(it, a[0]), as_arr(it, a[1])
        if k or len(a) > 2 or not isinstance(x, VArr) or not isinstance(y, VArr):
            raise Unsupported("array_equal")
        if x.shape != y.shape:
            return False
        return it.and_([it.eq(p, q) for p, q in zip(it.arr_vals(x), it.arr_vals(y))])

    @m("numpy.asarray", "numpy.asfarray")
    def _(it, a, k):
        if isinstance(a[0], (VArr, SArr, SMat)):
            if k or len(a) > 1:
                raise Unsupported("asarray with a type may or may not copy")
            return a[0]
        return to_array(it, a[0])

    @m("numpy.fromiter")
    def _(it, a, k):
        xs = it.iterate(a[0])
        if not all(is_intlike(e) for e in (xs.concrete() if xs.concrete() is not None else it._unsup("fromiter of unknown length"))):
            raise Unsupported("fromiter of non-integers")
        return to_array(it, it.new_list(xs))

    @m("numpy.zeros", "numpy.empty")
    def _(it, a, k):
        return filled(it, a[0], 0)

    @m("numpy.ones")
    def _(it, a, k):
        return filled(it, a[0], 1)

    @m("numpy.zeros_like")
    def _(it, a, k):
        if isinstance(a[0], VArr):
            return it.new_arr([0] * len(a[0].idx), a[0].shape)
        return SArr(it.alloc(it.map_seq(it.as_seq(a[0]), lambda x: 0)))

    @m("numpy.eye", "numpy.identity")
    def _(it, a, k):
        n = a[0]
        if not isinstance(n, int):
            raise Unsupported("identity of symbolic size")
        return it.new_arr([1 if i == j else 0 for i in range(n) for j in range(n)], (n, n))

    @m("numpy.diag")
    def _(it, a, k):
        x = as_arr(it, a[0])
        if len(a) > 1 or k or not isinstance(x, VArr):
            raise Unsupported("numpy.diag")
        xs = it.arr_vals(x)
        if len(x.shape) == 1:
            n = len(xs)
            return it.new_arr([xs[i] if i == j else 0 for i in range(n) for j in range(n)], (n, n))
        r, c = x.shape
        return it.new_arr([xs[i * c + i] for i in range(min(r, c))], (min(r, c),))

    @m("sympy.eye")
    def _(it, a, k):
        n = a[0]
        if not isinstance(n, int):
            raise Unsupported("identity of symbolic size")
        return it.new_arr([1 if i == j else 0 for i in range(n) for j in range(n)], (n, n), "sympy")

    @m("sympy.zeros")
    def _(it, a, k):
        r, c = (a[0], a[1]) if len(a) > 1 else (a[0], a[0])
        return it.new_arr([0] * (r * c), (r, c), "sympy")

    @m("sympy.Matrix", "sympy.matrices.Matrix", "sympy.MutableDenseMatrix")
    def _(it, a, k):
        if len(a) == 3 and isinstance(a[0], int):
            c = it.as_seq(a[2]).concrete()
            return it.new_arr(c, (a[0], a[1]), "sympy")
        v = to_array(it, a[0])
        if not isinstance(v, VArr):
            raise Unsupported("Matrix of symbolic size")
        sh = v.shape if len(v.shape) == 2 else (v.shape[0], 1)
        return it.new_arr(it.arr_vals(v), sh, "sympy")

    @m("sympy.Matrix.diag", "sympy.diag")
    def _(it, a, k):
        blocks = [x if isinstance(x, VArr) else it.new_arr([x], (1, 1), "sympy") for x in a]
        n = sum(x.shape[0] for x in blocks)
        c = sum(x.shape[1] for x in blocks)
        out = [0] * (n * c)
        r0 = c0 = 0
        for x in blocks:
            vs = it.arr_vals(x)
            for i in range(x.shape[0]):
                for j in range(x.shape[1]):
                    out[(r0 + i) * c + c0 + j] = vs[i * x.shape[1] + j]
            r0 += x.shape[0]
            c0 += x.shape[1]
        return it.new_arr(out, (n, c), "sympy")

    sparse.install(it, m)

    @m("numpy.kron")
    def _(it, a, k):
        return kron(it, a[0], a[1], "numpy")

    @m("sympy.kronecker_product")
    def _(it, a, k):
        r = a[0]
        for x in a[1:]:
            r = kron(it, r, x, "sympy")
        return r

    @m("sympy.simplify", "sympy.expand", "sympy.N", "sympy.nsimplify", "sympy.sympify", "sympy.trigsimp")
    def _(it, a, k):
        if isinstance(a[0], str):
            raise Unsupported("sympify of a string")
        return a[0]

    @m("sympy.Symbol")
    def _(it, a, k):
        if isinstance(a[0], str):
            return P.Poly.gen(a[0])
        raise Unsupported("symbol with symbolic name")

    @m("numpy.argsort")
    def _(it, a, k):
        c = it.as_seq(a[0]).concrete()
        if len(a) > 1 or set(k) - {"kind"} or c is None or k.get("kind") not in (None, "stable", "mergesort"):
            raise Unsupported("argsort")
        stable = bool(k)
        out = []
        for i, x in enumerate(c):
            j = len(out)
            while j > 0:
                y = c[out[j - 1]]
                lt = it.cmp("<", x, y)
                if not stable:      # equal elements may come in either order
                    eq = it.eq(x, y)
                    if eq is not False:
                        lt = it.or_([lt, it.and_([eq, z3.Bool(it.fresh_name("tie"))])])
                if lt if isinstance(lt, bool) else it.decide(lt):
                    j -= 1
                else:
                    break
            out.insert(j, i)
        return it.new_arr(out, (len(out),))

    @m("numpy.dot", "numpy.matmul")
    def _(it, a, k):
        return arr_binop(it, "@", as_arr(it, a[0]), as_arr(it, a[1]))

    @m("numpy.multiply")
    def _(it, a, k):
        return it.binop("*", as_arr(it, a[0]), as_arr(it, a[1]))

    @m("numpy.add", "numpy.subtract", "numpy.divide", "numpy.true_divide")
    def _(it, a, k):
        raise Unsupported("ufunc")
    for nm, op in (("add", "+"), ("subtract", "-"), ("divide", "/"), ("true_divide", "/")):
        def uf(it, a, k, op=op):
            if k or len(a) != 2:
                raise Unsupported("ufunc with options")
            x, y = (v if is_num(v) or isinstance(v, (SC, complex, P.Poly)) else as_arr(it, v) for v in a)
            return it.binop(op, x, y)
        M["numpy." + nm] = uf

    for nm, mx in (("amax", True), ("max", True), ("amin", False), ("min", False)):
        def ext(it, a, k, mx=mx):
            if k or len(a) != 1:
                raise Unsupported("extremum along an axis")
            if is_num(a[0]):
                return a[0]
            v = as_arr(it, a[0])
            if not isinstance(v, (VArr, SArr)):
                raise Unsupported("extremum of a symbolic matrix")
            return ext_seq(it, Seq.of(it.arr_vals(v)) if isinstance(v, VArr) else it.heap[v.ref], mx)
        M["numpy." + nm] = ext

    @m("numpy.einsum")
    def _(it, a, k):
        if set(k) - {"optimize"} or not isinstance(a[0], str) or "." in a[0] or not all(isinstance(x, VArr) for x in a[1:]):
            raise Unsupported("einsum")
        spec = a[0].replace(" ", "")
        ins, out = spec.split("->") if "->" in spec else (spec, None)
        ins = ins.split(",")
        every = "".join(ins)
        if out is None:
            out = "".join(sorted(c for c in set(every) if every.count(c) == 1))
        dims = {}
        if len(ins) != len(a) - 1:
            raise Unsupported("einsum")
        for s_, x in zip(ins, a[1:]):
            if len(s_) != len(x.shape):
                raise exc(ValueError, "einsum")
            for c, n in zip(s_, x.shape):
                if dims.setdefault(c, n) != n:
                    raise exc(ValueError, "einsum")
        # contract one operand at a time: {index tuple over `have`: value}
        have, cur = "", {(): 1}
        for j, (s_, x) in enumerate(zip(ins, a[1:])):
            later = "".join(ins[j + 1:]) + out
            new = "".join(dict.fromkeys(c for c in have + s_ if c in later))
            vals, st = it.arr_vals(x), strides(x.shape)
            extra = "".join(dict.fromkeys(c for c in s_ if c not in have))
            acc = {}
            for key, w in cur.items():
                for ex in itertools.product(*[range(dims[c]) for c in extra]):
                    at = dict(zip(have + extra, key + ex))
                    y = mul0(it, w, vals[sum(at[c] * t for c, t in zip(s_, st))])
                    if _is0(y):
                        continue
                    kk = tuple(at[c] for c in new)
                    acc[kk] = it.binop("+", acc[kk], y) if kk in acc else y
            have, cur = new, acc
        res = [cur.get(tuple(dict(zip(out, ix))[c] for c in have), 0) for ix in itertools.product(*[range(dims[c]) for c in out])]
        return it.new_arr(res, tuple(dims[c] for c in out)) if out else res[0]

    @m("numpy.transpose")
    def _(it, a, k):
        ax = k.get("axes", a[1] if len(a) > 1 else None)
        return transpose(it, as_arr(it, a[0]), None if ax is None else it.as_seq(ax).concrete())

    @m("numpy.ix_")
    def _(it, a, k):
        out = []
        for d, x in enumerate(a):
            c = it.as_seq(x).concrete()
            if c is None or not all(isinstance(y, int) and not isinstance(y, bool) for y in c):
                raise Unsupported("ix_")
            out.append(it.new_arr(c, tuple(len(c) if e == d else 1 for e in range(len(a)))))
        return tuple(out)

    @m("numpy.sum")
    def _(it, a, k):
        v = as_arr(it, a[0]) if not isinstance(a[0], VIter) else a[0]
        if isinstance(v, VArr):
            return arr_sum(it, v, a[1:], k)
        if k or len(a) > 1:
            raise Unsupported("sum with options")
        return sum_seq(it, it.as_seq(v), 0)

    @m("numpy.prod")
    def _(it, a, k):
        s = it.as_seq(a[0])
        r = 1
        for g in s.segs:
            if isinstance(g, Unit):
                r = it.binop("*", r, g.v)
            elif isinstance(g, Comp) and g.simple() is not None:
                r = it.binop("*", r, big_prod(it, g.n, g.idx, g.simple().v))
            else:
                raise Unsupported("prod")
        return r

    @m("numpy.concatenate", "numpy.hstack")
    def _(it, a, k):
        s = Seq()
        for x in it.as_seq(a[0]).concrete() or it._unsup("concatenate"):
            if isinstance(x, VArr) and len(x.shape) != 1:
                raise Unsupported("2-d concatenate")
            s = s + it.as_seq(x)
        return to_array(it, s)

    @m("numpy.append")
    def _(it, a, k):
        x = it.as_seq(a[0])
        y = it.as_seq(a[1]) if isinstance(a[1], (VArr, SArr, VList, tuple)) else Seq([Unit(a[1])])
        return to_array(it, x + y)

    @m("numpy.arange")
    def _(it, a, k):
        r = B["range"].fn(it, a, k)
        return to_array(it, r)

    @m("numpy.isclose", "numpy.allclose")
    def _(it, a, k):
        # exact-real reading: values are close iff they are within the default tolerances
        return close(it, a[0], a[1], k, a[2:])

    @m("math.isclose")
    def _(it, a, k):
        x, y = a
        rel, tol = k.get("rel_tol", Fraction(1, 10 ** 9)), k.get("abs_tol", 0)
        ab, mx = it.builtins["abs"].fn, it.builtins["max"].fn
        big = mx(it, [ab(it, [x], {}), ab(it, [y], {})], {})
        return it.cmp("<=", ab(it, [it.binop("-", x, y)], {}), mx(it, [it.binop("*", rel, big), tol], {}))

    @m("numpy.linalg.norm")
    def _(it, a, k):
        v = as_arr(it, a[0])
        s = it.map_seq(it.as_seq(v), lambda x: abs2(it, x))
        return sqrt_real(it, to_z3_real(sum_seq(it, s, 0)))

    @m("numpy.vdot", "numpy.inner")
    def _(it, a, k):
        x = it.as_seq(as_arr(it, a[0]))
        y = it.as_seq(as_arr(it, a[1]))
        return sum_seq(it, zip_map(it, [x, y], lambda p, q: it.binop("*", conj(it, p), q)), 0)

    @m("numpy.all")
    def _(it, a, k):
        return arr_all(it, as_arr(it, a[0]), a[1:], k)

    @m("numpy.any")
    def _(it, a, k):
        return it.not_(arr_all(it, as_arr(it, a[0]), a[1:], k, neg=True))

    @m("numpy.logical_and")
    def _(it, a, k):
        return truth_op(it, lambda x, y: it.and_([x, y]), a, k)

    @m("numpy.logical_or")
    def _(it, a, k):
        return truth_op(it, lambda x, y: it.or_([x, y]), a, k)

    @m("numpy.logical_not")
    def _(it, a, k):
        return truth_op(it, lambda x: it.not_(x), a, k)

    @m("numpy.clip")
    def _(it, a, k):
        if len(a) != 3 or k or any(not is_num(x) for x in a[1:]):
            raise Unsupported("clip with options")
        mx, mn = it.builtins["max"].fn, it.builtins["min"].fn
        f = lambda x: mn(it, [mx(it, [x, a[1]], {}), a[2]], {})
        return arr_map(it, as_arr(it, a[0]), f) if not is_num(a[0]) else f(a[0])
    for t in ("int", "float", "int64", "float64", "complex128", "bool_"):
        base = {"int64": "int", "float64": "float", "complex128": "complex", "bool_": "bool"}.get(t, t)
        M["numpy." + t] = lambda it, a, k, base=base: B[base].fn(it, a, k)


def abs2(it, x):
    if isinstance(x, (SC, complex)):
        s = it.to_sc(x)
        return it.binop("+", it.binop("*", s.re, s.re), it.binop("*", s.im, s.im))
    if isinstance(x, P.Poly):
        return x * x.conj()
    return it.binop("*", x, x)


def close(it, x, y, k, rest):
    if isinstance(x, (VArr, SArr)) or isinstance(y, (VArr, SArr)):
        raise Unsupported("allclose of arrays")
    rtol = k.get("rtol", rest[0] if rest else Fraction(1, 10 ** 5))
    atol = k.get("atol", rest[1] if len(rest) > 1 else Fraction(1, 10 ** 8))
    if set(k) - {"rtol", "atol"}:
        raise Unsupported("isclose with options")
    ab = it.builtins["abs"].fn
    return it.cmp("<=", ab(it, [it.binop("-", x, y)], {}),
                  it.binop("+", atol, it.binop("*", rtol, ab(it, [y], {}))))


def arr_sum(it, v, a, k):
    k = dict(k)
    axis = a[0] if a else k.pop("axis", None)
    if k or len(a) > 1 or not (axis is None or isinstance(axis, int)) or v.kind != "numpy":
        raise Unsupported("sum with options")
    vals = it.arr_vals(v)
    if axis is None or len(v.shape) == 1:
        return sum_seq(it, Seq.of(vals), 0)
    if len(v.shape) != 2:
        raise Unsupported("axis sum")
    r, c = v.shape
    if axis % 2 == 0:
        return it.new_arr([sum_seq(it, Seq.of([vals[i * c + j] for i in range(r)]), 0) for j in range(c)], (c,))
    return it.new_arr([sum_seq(it, Seq.of(vals[i * c:(i + 1) * c]), 0) for i in range(r)], (r,))


SQRT = []


def sqrt_real(it, v):
    v = to_z3_real(v)
    F = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
    r = F(z3.simplify(v))
    it.assume_axiom(z3.Implies(v >= 0, z3.And(r >= 0, r * r == v)))
    if not SQRT or not any(a is SQRT[0] for a in it.axioms):
        x = z3.Real("sqrt_x")
        SQRT[:] = SQRT or [z3.ForAll([x], z3.Implies(x >= 0, z3.And(F(x) >= 0, F(x) * F(x) == x)), patterns=[F(x)])]
        it.assume_axiom(SQRT[0])
    return r


def round_half_even(it, v):
    if isinstance(v, (int, Fraction)):
        return round(v)
    if isinstance(v, z3.ArithRef):
        if v.is_int():
            return v
        f = z3.ToInt(v)
        d = v - z3.ToReal(f)
        half = z3.Q(1, 2)
        return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    raise Unsupported("round")


def filled(it, shape, v):
    if isinstance(shape, int):
        shape = (shape,)
    if isinstance(shape, (VList,)):
        shape = tuple(it.as_seq(shape).concrete())
    if is_z3(shape):
        return SArr(it.alloc(it.map_seq(it.range_seq(0, shape, 1), lambda i: v)))
    if isinstance(shape, tuple) and len(shape) == 1 and is_z3(shape[0]):
        return filled(it, shape[0], v)
    if isinstance(shape, tuple) and len(shape) == 2 and all(is_intlike(x) for x in shape) and any(is_z3(x) for x in shape):
        return mats.new(it, shape[0], shape[1], lambda i, j: v)
    if not isinstance(shape, tuple) or not all(isinstance(x, int) for x in shape):
        raise Unsupported("array of symbolic shape")
    n = 1
    for x in shape:
        n *= x
    if n > 70000:
        raise Unsupported("array too large")
    return it.new_arr([v] * n, shape)


def binary_number(it, v):
    """int(text, 2) of a text joined from the decimal texts of digits 0 and 1"""
    for t, s in reversed(it.joined):
        if t.eq(v.term):
            break
    else:
        raise Unsupported("number of an unknown text")
    digits = it.map_seq(s, lambda x: digit_of(it, x))
    c = digits.concrete()
    if c is None:
        return it.num_app("binary", [digits], z3.IntSort())
    if not c:
        raise exc(ValueError, "empty text")
    r = 0
    for d in c:
        r = it.binop("+", it.binop("*", 2, r), d)
    return r


def digit_of(it, x):
    if isinstance(x, str) and x in ("0", "1"):
        return int(x)
    if isinstance(x, SU) and z3.is_app(x.term) and x.term.decl().name() == "k:str":
        y = x.term.arg(0)
        if y.decl().name() == "inj_num" and z3.is_to_real(y.arg(0)):
            d = y.arg(0).arg(0)
            if it.valid(z3.And(d >= 0, d <= 1)):
                return d
    raise Unsupported("text that may not be a binary digit")


def real_exp(it, v):
    E = z3.Function("exp", z3.RealSort(), z3.RealSort())
    if "real exp" not in it.once:
        it.once.add("real exp")
        x = z3.Real("expx")
        it.axioms += [z3.ForAll([x], E(x) > 0, patterns=[E(x)]), E(z3.RealVal(0)) == 1]
    return E(to_z3_real(v))


def truth_op(it, f, a, k):
    if k:
        raise Unsupported("options of a logical operation")
    if not any(isinstance(x, ARRAYS + (VList, tuple)) for x in a):
        return f(*[it.truth(x) for x in a])
    a = [as_arr(it, x) if isinstance(x, ARRAYS + (VList, tuple)) else x for x in a]
    if len(a) == 1:
        return arr_map(it, a[0], lambda x: f(it.truth(x)))
    if all(isinstance(x, VArr) for x in a) and a[0].shape == a[1].shape:
        return it.new_arr([f(it.truth(x), it.truth(y)) for x, y in zip(*[it.arr_vals(x) for x in a])], a[0].shape)
    if all(isinstance(x, SArr) for x in a):
        s, t = [it.heap[x.ref] for x in a]
        if not it.decide(it.eq(it.seq_len(s), it.seq_len(t))):
            raise exc(ValueError, "broadcast")
        return SArr(it.alloc(zip_map(it, [s, t], lambda p, q: f(it.truth(p), it.truth(q)))))
    raise Unsupported("logical operation on arrays of different shape")


def arr_all(it, v, a, k, neg=False):
    if a or k or not isinstance(v, (VArr, SArr)):
        raise Unsupported("all/any along an axis")
    t = (lambda x: it.not_(it.truth(x))) if neg else it.truth
    return it.and_([t(x) for x in it.arr_vals(v)]) if isinstance(v, VArr) else all_seq(it, it.heap[v.ref], t)


def as_type(it, v, a, k):
    t = k.get("dtype", a[0] if a else None)
    name = getattr(t, "name", getattr(t, "path", None))
    if set(k) - {"dtype", "copy"} or len(a) > 1 or not isinstance(name, str):
        raise Unsupported("astype")
    name = name.split(".")[-1]
    if name in ("float", "float64", "complex", "complex128"):
        return arr_map(it, v, lambda x: x)
    if name in ("int", "int64"):
        return arr_map(it, v, lambda x: it.builtins["int"].fn(it, [x], {}))
    raise Unsupported("astype")


def arr_map(it, v, f):
    if isinstance(v, SMat):
        return mats.map_(it, v, f)
    if isinstance(v, VArr):
        return it.new_arr([f(x) for x in it.arr_vals(v)], v.shape, v.kind)
    return SArr(it.alloc(it.map_seq(it.heap[v.ref], f)))


def enum_seq(it, s, start):
    out, off = [], start
    for g in s.segs:
        if isinstance(g, Unit):
            out.append(Unit((off, g.v)))
            off = it.binop("+", off, 1)
        elif isinstance(g, Comp):
            if g.simple() is None:
                raise Unsupported("enumerate over an irregular sequence")
            out.append(Comp(g.n, g.idx, [(True, [Unit((it.simp(it.binop("+", off, g.idx)), g.simple().v))])]))
            off = it.simp(it.binop("+", off, g.n))
        else:
            raise Unsupported("enumerate over accumulator")
    return Seq(out)


def shallow(it, v):
    if isinstance(v, VObj):
        return it.new_obj(v.cls, it.heap[v.ref])
    if isinstance(v, (VList, VDict, VSet, SArr)):
        return type(v)(it.alloc(it.heap[v.ref]))
    if isinstance(v, VArr):
        return it.new_arr(it.arr_vals(v), v.shape, v.kind)
    return v


def deep(it, v, memo):
    if isinstance(v, Ref) and v.ref in memo and not isinstance(v, VArr):
        return memo[v.ref]
    if isinstance(v, VObj):
        o = it.new_obj(v.cls, {})
        memo[v.ref] = o
        it.heap[o.ref] = {k: deep(it, x, memo) for k, x in it.heap[v.ref].items()}
        return o
    if isinstance(v, VList):
        o = VList(it.alloc(Seq()))
        memo[v.ref] = o
        it.heap[o.ref] = deep_seq(it, it.heap[v.ref], memo)
        return o
    if isinstance(v, VDict):
        c = it.heap[v.ref]
        if isinstance(c, tuple):
            return VDict(it.alloc(tuple((deep(it, k, memo), deep(it, x, memo)) for k, x in c)))
        return VDict(it.alloc(deep_seq(it, c, memo)))
    if isinstance(v, (VSet, SArr)):
        return type(v)(it.alloc(it.heap[v.ref]))
    if isinstance(v, VArr):
        return it.new_arr(it.arr_vals(v), v.shape, v.kind)
    if isinstance(v, tuple):
        return tuple(deep(it, x, memo) for x in v)
    return v


def deep_seq(it, s, memo):
    return Seq(Unit(deep(it, g.v, memo)) if isinstance(g, Unit) else g for g in s.segs)


NONETYPE = Builtin("NoneType", None)


def _special(it, n, a):
    if n == "object":
        return it.fresh("object", U)
    if n == "type":
        v = a[0]
        if isinstance(v, VObj):
            return v.cls
        if isinstance(v, SU):
            return SU(it.mk("type_of", [v]), OPAQUE) if not hasattr(v.iface, "type") else v.iface.type
        if isinstance(v, bool):
            return it.builtins["bool"]
        if is_intlike(v):
            return it.builtins["int"]
        if is_num(v):
            return it.builtins["float"]
        if isinstance(v, str):
            return it.builtins["str"]
        if isinstance(v, VList):
            return it.builtins["list"]
        if isinstance(v, VDict):
            return it.builtins["dict"]
        if isinstance(v, (tuple, Seq)):
            return it.builtins["tuple"]
        if isinstance(v, VSet):
            return it.builtins["set"]
        if v is None:
            return NONETYPE
    raise Unsupported(f"{n}()")


from .interp import NotImpl
NotImplSingleton = NotImpl()
