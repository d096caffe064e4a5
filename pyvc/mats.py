"""2-d numpy arrays of symbolic shape: n rows, m columns, entry(i, j) a number"""
import z3
from .values import *
from .loops import big_sum


class Mat:
    """heap content of an SMat"""
    __slots__ = ("n", "m", "i", "j", "x")

    def __init__(self, n, m, i, j, x):
        self.n, self.m, self.i, self.j, self.x = n, m, i, j, x


def new(it, n, m, f):
    i, j = z3.Int(it.fresh_name("row")), z3.Int(it.fresh_name("col"))
    it.index_vars += [i, j]
    try:
        x = f(i, j)
    finally:
        del it.index_vars[-2:]
    if not (is_num(x) or is_bool(x) or isinstance(x, SC)):
        raise Unsupported("entries of a symbolic matrix")
    return SMat(it.alloc(Mat(n, m, i, j, x)))


def at(it, v, i, j):
    c = it.heap[v.ref]
    return it.subst(it.subst(c.x, c.i, i), c.j, j)


def elt(it, s, i):
    """element i of a sequence, 0 <= i < len known"""
    if len(s.segs) == 1 and isinstance(s.segs[0], Comp) and s.segs[0].simple() is not None:
        g = s.segs[0]
        return it.subst(g.simple().v, g.idx, i)
    raise Unsupported("symbolic array of irregular shape")


def full(x):
    return isinstance(x, VSlice) and x.a is None and x.b is None and x.c is None


def index_vec(it, a, ix):
    """v[:, None], v[None, :], v[None]"""
    s = it.heap[a.ref]
    n = it.seq_len(s)
    if len(ix) == 2 and full(ix[0]) and ix[1] is None:
        return new(it, n, 1, lambda i, j: elt(it, s, i))
    if ix[0] is None and (len(ix) == 1 or len(ix) == 2 and full(ix[1])):
        return new(it, 1, n, lambda i, j: elt(it, s, j))
    raise Unsupported("index into symbolic array")


def index_mat(it, a, i):
    c = it.heap[a.ref]
    if isinstance(i, tuple) and len(i) == 2 and all(is_intlike(x) for x in i):
        for x, n in zip(i, (c.n, c.m)):
            if not it.valid(it.and_([it.cmp(">=", x, 0), it.cmp("<", x, n)])):
                raise Unsupported("index that may be out of range")
        return at(it, a, *i)
    if is_intlike(i) and it.valid(it.and_([it.cmp(">=", i, 0), it.cmp("<", i, c.n)])):
        return vec(it, c.m, lambda j: at(it, a, i, j))
    if isinstance(i, tuple) and len(i) == 2 and all(full(x) for x in i):
        return a
    raise Unsupported("index into symbolic matrix")


def vec(it, n, f):
    from .lib import SArr
    if isinstance(n, int):
        return it.new_arr([f(z3.IntVal(k)) for k in range(n)], (n,))
    k = z3.Int(it.fresh_name("k"))
    it.index_vars.append(k)
    try:
        x = f(k)
    finally:
        it.index_vars.pop()
    return SArr(it.alloc(Seq([Comp(n, k, [(True, [Unit(x)])])])))


def as_mat(it, v):
    if isinstance(v, SMat):
        c = it.heap[v.ref]
        return c.n, c.m, lambda i, j: at(it, v, i, j)
    if isinstance(v, SArr):
        s = it.heap[v.ref]
        return 1, it.seq_len(s), lambda i, j: elt(it, s, j)
    if is_num(v) or is_bool(v) or isinstance(v, SC):
        return 1, 1, lambda i, j: v
    if isinstance(v, VArr) and len(v.idx) == 1:
        return 1, 1, lambda i, j: it.arr_vals(v)[0]
    raise Unsupported("operand of a symbolic matrix")


def dim(it, a, b):
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    e = it.eq(a, b)
    if e is True or e is not False and it.decide(e):
        return a
    raise Unsupported("broadcast of symbolic shapes")


def binop(it, op, a, b, f):
    if op == "@":
        return dot(it, a, b)
    n1, m1, f1 = as_mat(it, a)
    n2, m2, f2 = as_mat(it, b)
    z = lambda n, i: z3.IntVal(0) if isinstance(n, int) and n == 1 else i
    n, m = dim(it, n1, n2), dim(it, m1, m2)
    return new(it, n, m, lambda i, j: f(op, f1(z(n1, i), z(m1, j)), f2(z(n2, i), z(m2, j))))


def total(it, n, f):
    j = z3.Int(it.fresh_name("k"))
    it.index_vars.append(j)
    try:
        x = f(j)
    finally:
        it.index_vars.pop()
    return big_sum(it, n, j, x)


def mul(it, x, y):
    return it.binop("*", x, y)


def dot(it, a, b):
    if isinstance(a, SMat) and isinstance(b, SMat):
        n1, m1, f1 = as_mat(it, a)
        n2, m2, f2 = as_mat(it, b)
        same(it, m1, n2)
        return new(it, n1, m2, lambda i, j: total(it, m1, lambda k: mul(it, f1(i, k), f2(k, j))))
    if isinstance(a, SMat) and isinstance(b, SArr):
        n, m, f = as_mat(it, a)
        s = it.heap[b.ref]
        same(it, m, it.seq_len(s))
        return vec(it, n, lambda i: total(it, m, lambda k: mul(it, f(i, k), elt(it, s, k))))
    if isinstance(a, SArr) and isinstance(b, SMat):
        n, m, f = as_mat(it, b)
        s = it.heap[a.ref]
        same(it, n, it.seq_len(s))
        return vec(it, m, lambda j: total(it, n, lambda k: mul(it, elt(it, s, k), f(k, j))))
    raise Unsupported("product with a symbolic matrix")


def same(it, a, b):
    e = it.eq(a, b)
    if not (e is True or e is not False and it.decide(e)):
        raise PyExc(ExcInst(ValueError, ("shapes not aligned",)))


def map_(it, v, f):
    n, m, g = as_mat(it, v)
    return new(it, n, m, lambda i, j: f(g(i, j)))


def attr(it, v, name, method):
    c = it.heap[v.ref]
    if name in ("astype", "copy"):
        return method(lambda it, a, k: map_(it, v, (lambda x: x) if name == "copy" or not a else lambda x: it.call(a[0], [x], {}) if isinstance(a[0], Builtin) and a[0].name in ("float", "int") else it._unsup("astype")))
    if name == "shape":
        return (c.n, c.m)
    if name == "ndim":
        return 2
    if name in ("T", "transpose"):
        t = lambda: new(it, c.m, c.n, lambda i, j: at(it, v, j, i))
        return t() if name == "T" else method(lambda it, a, k: t() if not a and not k else it._unsup("axes"))
    if name == "dot":
        return method(lambda it, a, k: dot(it, v, a[0]))
    if name == "sum":
        def f(it, a, k):
            ax = k.get("axis", a[0] if a else None)
            if set(k) - {"axis"} or len(a) > 1:
                raise Unsupported("sum with options")
            if ax is None:
                return total(it, c.n, lambda i: total(it, c.m, lambda j: at(it, v, i, j)))
            if ax in (1, -1):
                return vec(it, c.n, lambda i: total(it, c.m, lambda j: at(it, v, i, j)))
            if ax in (0, -2):
                return vec(it, c.m, lambda j: total(it, c.n, lambda i: at(it, v, i, j)))
            raise Unsupported("axis")
        return method(f)
    raise Unsupported(f"attribute {name} of a symbolic matrix")
