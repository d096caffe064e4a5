"""Library contract of scipy.sparse matrices of concrete shape (csc and coo).  The model keeps the stored entries in storage
order, as scipy 1.10 does (tools/selftest.py compares it with scipy on random matrices): code may rely on the order of
`data` and `nonzero()`."""
from fractions import Fraction
import z3
from .values import *


class VSp(Ref):
    """heap content: Sp"""
    __slots__ = ()

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Sp:
    __slots__ = ("fmt", "shape", "e", "canonical", "maybe_zero")

    def __init__(self, fmt, shape, e, canonical=False, maybe_zero=False):
        self.fmt, self.shape, self.e, self.canonical, self.maybe_zero = fmt, tuple(shape), tuple(e), canonical, maybe_zero


def nonzero(it, x):
    t = it.truth(x)
    return t if isinstance(t, bool) else it.decide(t)


def new(it, *a, **k):
    return VSp(it.alloc(Sp(*a, **k)))


def get(it, v):
    return it.heap[v.ref]


def stored(it, v):
    """the stored entries, after a pending elimination of zeros"""
    s = get(it, v)
    if s.maybe_zero:
        s = Sp(s.fmt, s.shape, [x for x in s.e if nonzero(it, x[2])], s.canonical)
        it.heap[v.ref] = s
    return s


def num(it, x):
    from .lib import is_num
    return is_num(x) or isinstance(x, (SC, complex)) or type(x).__name__ == "Poly"


def from_dense(it, rows, fmt):
    n = len(rows)
    m = len(rows[0]) if n else 0
    e = [(i, j, x) for i, r in enumerate(rows) for j, x in enumerate(r) if nonzero(it, x)]
    return convert(it, Sp("coo", (n, m), e, True), fmt)


def convert(it, s, fmt):
    """Sp of the given format"""
    if fmt not in ("csc", "coo"):
        raise Unsupported("sparse format")
    if s.fmt == fmt:
        return s
    if fmt == "coo":
        return Sp("coo", s.shape, s.e, False, s.maybe_zero)
    e = sorted(s.e, key=lambda x: x[1])          # stable
    if s.canonical:
        return Sp("csc", s.shape, e, False, s.maybe_zero)
    tot = {}
    for r, c, x in sorted(e, key=lambda x: (x[1], x[0])):
        tot[r, c] = it.binop("+", tot[r, c], x) if (r, c) in tot else x
    return Sp("csc", s.shape, [(r, c, x) for (r, c), x in tot.items()], True, s.maybe_zero)


def rows_of(it, x):
    """dense argument as a list of rows"""
    from .lib import to_array
    if num(it, x):
        return [[x]]
    if isinstance(x, (VList, tuple)):
        x = to_array(it, x)
    if isinstance(x, VArr):
        vals = it.arr_vals(x)
        if len(x.shape) == 0:
            return [vals]
        if len(x.shape) == 1:
            return [vals]
        if len(x.shape) == 2:
            return [vals[i * x.shape[1]:(i + 1) * x.shape[1]] for i in range(x.shape[0])]
    raise Unsupported("sparse matrix of this value")


def concrete(it, x):
    c = it.as_seq(x).concrete()
    if c is None:
        raise Unsupported("entries of a sparse matrix")
    return c


def indices(it, x):
    c = concrete(it, x)
    if not all(isinstance(y, int) for y in c):
        raise Unsupported("symbolic position in a sparse matrix")
    return c


def construct(it, a, k, fmt):
    x = a[0]
    shape = k.get("shape", a[1] if len(a) > 1 else None)
    if set(k) - {"shape", "dtype", "copy"} or len(a) > 2:
        raise Unsupported("sparse matrix arguments")
    if isinstance(x, VSp):
        return VSp(it.alloc(convert(it, stored(it, x), fmt)))
    if isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, int) for y in x):
        return new(it, fmt, x, (), True)
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], (tuple, VList)):
        rc = concrete(it, x[1])
        if len(rc) != 2:
            raise Unsupported("sparse matrix arguments")
        r, c = (indices(it, y) for y in rc)
        d = concrete(it, x[0])
        if not len(r) == len(c) == len(d):
            raise PyExc(ExcInst(ValueError, ("row, column, and data arrays must be the same length",)))
        if shape is None:
            if not r:
                raise PyExc(ExcInst(ValueError, ("cannot infer dimensions",)))
            shape = (max(r) + 1, max(c) + 1)
        shape = tuple(concrete(it, shape))
        if not all(isinstance(y, int) for y in shape):
            raise Unsupported("symbolic shape")
        if any(not (0 <= i < shape[0] and 0 <= j < shape[1]) for i, j in zip(r, c)):
            raise PyExc(ExcInst(ValueError, ("index exceeds matrix dimensions",)))
        return VSp(it.alloc(convert(it, Sp("coo", shape, zip(r, c, d)), fmt)))
    if shape is not None:
        raise Unsupported("sparse matrix arguments")
    return VSp(it.alloc(from_dense(it, rows_of(it, x), fmt)))


def coo(it, x):
    return convert(it, stored(it, x), "coo") if isinstance(x, VSp) else from_dense(it, rows_of(it, x), "coo")


def kron(it, a, b, fmt):
    B, A = coo(it, b), coo(it, a)
    shape = (A.shape[0] * B.shape[0], A.shape[1] * B.shape[1])
    if fmt is None:
        raise Unsupported("format of a product")
    if not A.e or not B.e:
        return VSp(it.alloc(convert(it, Sp("coo", shape, ()), fmt)))
    e = [(r * B.shape[0] + s, c * B.shape[1] + d, it.binop("*", x, y)) for r, c, x in A.e for s, d, y in B.e]
    return VSp(it.alloc(convert(it, Sp("coo", shape, e), fmt)))


def columns(s):
    out = {}
    for r, c, x in s.e:
        out.setdefault(c, []).append((r, x))
    return out


def csc(it, v):
    return convert(it, stored(it, v), "csc")


def matmul(it, a, b):
    A, B = csc(it, a), csc(it, b)
    if A.shape[1] != B.shape[0]:
        raise PyExc(ExcInst(ValueError, ("dimension mismatch",)))
    ca, cb, e = columns(A), columns(B), []
    for j in range(B.shape[1]):
        sums = {}
        for k, x in cb.get(j, ()):
            for i, y in ca.get(k, ()):
                z = it.binop("*", x, y)
                sums[i] = it.binop("+", sums[i], z) if i in sums else z
        e += [(i, j, sums[i]) for i in reversed(list(sums)) if nonzero(it, sums[i])]
    return new(it, "csc", (A.shape[0], B.shape[1]), e)


def scale(it, v, op, x):
    s = get(it, v)
    return VSp(it.alloc(Sp(s.fmt, s.shape, [(i, j, it.binop(op, y, x)) for i, j, y in s.e], s.canonical, s.maybe_zero)))


def add(it, op, a, b):
    A, B = csc(it, a), csc(it, b)
    if A.shape != B.shape:
        raise PyExc(ExcInst(ValueError, ("inconsistent shapes",)))
    tot = {}
    for s, sg in ((A, "+"), (B, op)):
        for i, j, x in s.e:
            tot[j, i] = it.binop(sg, tot.get((j, i), 0), x)
    inorder = all([(j, i) for i, j, _ in s.e] == sorted({(j, i) for i, j, _ in s.e}) for s in (A, B))
    items = sorted(tot.items(), key=lambda t: t[0]) if inorder else sorted(reversed(list(tot.items())), key=lambda t: t[0][0])
    return new(it, "csc", A.shape, [(i, j, x) for (j, i), x in items if nonzero(it, x)], inorder)


def dense(it, v):
    """the entries as a dictionary"""
    tot = {}
    for i, j, x in get(it, v).e:
        tot[i, j] = it.binop("+", tot[i, j], x) if (i, j) in tot else x
    return tot


def array(it, v):
    s, d = get(it, v), dense(it, v)
    return it.new_arr([d.get((i, j), 0) for i in range(s.shape[0]) for j in range(s.shape[1])], s.shape)


def times_dense(it, v, x, left=False):
    """matrix times vector or dense matrix"""
    from .lib import matmul as mm, to_array
    if isinstance(x, (VList, tuple)):
        x = to_array(it, x)
    if not isinstance(x, VArr):
        raise Unsupported("product with this value")
    return mm(it, x, array(it, v), "numpy") if left else mm(it, array(it, v), x, "numpy")


def binop(it, op, a, b):
    if isinstance(a, VSp) and isinstance(b, VSp):
        if op in ("*", "@"):
            return matmul(it, a, b)
        if op in "+-":
            return add(it, op, a, b)
    elif isinstance(a, VSp):
        if op in "*/" and num(it, b):
            return scale(it, a, op, b)
        if op in ("*", "@") and not num(it, b):
            return times_dense(it, a, b)
        if op in "+-" and num(it, b) and b == 0:
            return a
    else:
        if op == "*" and num(it, a):
            return scale(it, b, op, a)
        if op in ("*", "@") and not num(it, a):
            return times_dense(it, b, a, True)
        if op == "+" and num(it, a) and a == 0:
            return b
    raise Unsupported(f"{op} of sparse matrices")


def getitem(it, v, i):
    s = get(it, v)
    if isinstance(i, tuple) and len(i) == 2 and all(isinstance(x, int) and not isinstance(x, bool) for x in i):
        r, c = (x + n if x < 0 else x for x, n in zip(i, s.shape))
        if not (0 <= r < s.shape[0] and 0 <= c < s.shape[1]):
            raise PyExc(ExcInst(IndexError, ()))
        return dense(it, v).get((r, c), 0)
    from .lib import arr_get
    r = arr_get(it, array(it, v), i)
    if isinstance(r, VArr) and len(r.shape) == 2:
        vals = it.arr_vals(r)
        return new(it, "csc", r.shape, [(p, q, vals[p * r.shape[1] + q]) for q in range(r.shape[1]) for p in range(r.shape[0])], True, True)
    raise Unsupported("index into a sparse matrix")


def transpose(it, v, conj=False):
    from .lib import conj as cj
    s = get(it, v)
    e = [(j, i, cj(it, x) if conj else x) for i, j, x in s.e]
    if s.fmt == "csc":      # stored as csr: nothing here depends on its order
        return VSp(it.alloc(convert(it, Sp("coo", s.shape[::-1], e, False, s.maybe_zero), "csc")))
    return VSp(it.alloc(Sp("coo", s.shape[::-1], e, False, s.maybe_zero)))


def attr(it, v, name):
    def m(f):
        return Builtin(name, f)
    ints = lambda l: it.new_arr(list(l), (len(l),))
    if name == "shape":
        return get(it, v).shape
    if name == "ndim":
        return 2
    if name == "format":
        return get(it, v).fmt
    if name == "nnz":
        return len(stored(it, v).e)
    if name == "data":
        return ints([x for _, _, x in stored(it, v).e])
    if name in ("row", "col") and get(it, v).fmt == "coo":
        return ints([x["row col".split().index(name)] for x in stored(it, v).e])
    if name in ("tocoo", "tocsc"):
        def f(it, a, k):
            if a or set(k) - {"copy"}:
                raise Unsupported(name)
            return VSp(it.alloc(convert(it, get(it, v), name[2:])))
        return m(f)
    if name == "asformat":
        return m(lambda it, a, k: VSp(it.alloc(convert(it, get(it, v), a[0]))) if len(a) == 1 and not k else it._unsup(name))
    if name == "copy":
        return m(lambda it, a, k: VSp(it.alloc(get(it, v))))
    if name == "nonzero":
        def f(it, a, k):
            s = stored(it, v)
            e = [x for x in s.e if nonzero(it, x[2])]
            if s.fmt == "csc":
                e.sort(key=lambda x: x[0])
            return (ints([x[0] for x in e]), ints([x[1] for x in e]))
        return m(f)
    if name == "eliminate_zeros":
        def f(it, a, k):
            s = get(it, v)
            it.heap[v.ref] = Sp(s.fmt, s.shape, s.e, s.canonical, True)
        return m(f)
    if name == "sum_duplicates":
        def f(it, a, k):
            s = get(it, v)
            it.heap[v.ref] = convert(it, convert(it, Sp("coo", s.shape, s.e, False, s.maybe_zero), "csc"), s.fmt)
        return m(f)
    if name == "toarray":
        return m(lambda it, a, k: array(it, v) if not a and not k else it._unsup(name))
    if name == "T":
        return transpose(it, v)
    if name == "transpose":
        return m(lambda it, a, k: transpose(it, v) if not a and not k else it._unsup(name))
    if name in ("getH", "H"):
        f = lambda it, a, k: transpose(it, v, True)
        return m(f) if name == "getH" else f(it, [], {})
    if name in ("conj", "conjugate"):
        return m(lambda it, a, k: transpose(it, transpose(it, v, True)))
    if name == "dot":
        return m(lambda it, a, k: binop(it, "*", v, a[0]))
    if name == "diagonal":
        def f(it, a, k):
            d = dense(it, v)
            n = min(get(it, v).shape)
            return ints([d.get((i, i), 0) for i in range(n)])
        return m(f)
    raise Unsupported(f"attribute {name} of a sparse matrix")


CLASSES = {"csc_matrix": "csc", "coo_matrix": "coo"}


def install(it, m):
    for name, fmt in CLASSES.items():
        m("scipy.sparse." + name)(lambda it, a, k, fmt=fmt: construct(it, a, k, fmt))

    @m("scipy.sparse.identity", "scipy.sparse.eye")
    def _(it, a, k):
        n, fmt = a[0], k.get("format")
        if not isinstance(n, int) or len(a) > 1 or set(k) - {"dtype", "format"} or fmt not in ("csc", "coo"):
            raise Unsupported("sparse identity")
        if n < 0:
            raise PyExc(ExcInst(ValueError, ("negative dimension",)))
        return new(it, fmt, (n, n), [(i, i, 1) for i in range(n)])

    @m("scipy.sparse.kron")
    def _(it, a, k):
        d = dict(zip(["A", "B", "format"], a), **k)
        return kron(it, d["A"], d["B"], d.get("format"))
