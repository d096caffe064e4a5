"""Value domain of the verifier (see DESIGN.md, "Values")."""
from fractions import Fraction
import z3

U = z3.DeclareSort("U")


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the obligation is undecided."""


class Infeasible(Exception):
    """The current path condition is contradictory."""


class PyExc(Exception):
    """A Python exception propagating through interpreted code."""
    def __init__(self, value):
        self.value = value


class ExcInst:
    """instance of a builtin exception class"""
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return f"{self.cls.__name__}{self.args!r}"


# ------------------------------------------------------------------ sequences
class Unit:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"<{self.v!r}>"


class Comp:
    """concatenation over idx in 0..n-1 of  (parts of the first case whose guard holds)"""
    __slots__ = ("n", "idx", "cases")

    def __init__(self, n, idx, cases):
        self.n, self.idx, self.cases = n, idx, tuple((g, tuple(p)) for g, p in cases)

    def simple(self):
        """the element value if there is exactly one element per index, else None"""
        if len(self.cases) == 1 and self.cases[0][0] is True and len(self.cases[0][1]) == 1 \
                and isinstance(self.cases[0][1][0], Unit):
            return self.cases[0][1][0]
        return None

    def __repr__(self):
        return f"Comp({self.idx}<{self.n}: {self.cases})"


class Hole:
    """the unknown prefix of a loop accumulator"""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"Hole{self.id}"


class Store:
    """zero-length segment after an accumulator: element assignment to it"""
    __slots__ = ("i", "v")

    def __init__(self, i, v):
        self.i, self.v = i, v


class Seq:
    """immutable sequence = concatenation of segments"""
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    @staticmethod
    def of(vals):
        return Seq(Unit(v) for v in vals)

    def concrete(self):
        if all(isinstance(s, Unit) for s in self.segs):
            return [s.v for s in self.segs]
        return None

    def __add__(self, o):
        return Seq(self.segs + o.segs)

    def __repr__(self):
        return f"Seq{list(self.segs)}"


class SetVal:
    """symbolic set: the set of the elements of a sequence"""
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


# ------------------------------------------------------------------ references
class Ref:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref

    def __hash__(self):
        return hash((type(self).__name__, self.ref))

    def __eq__(self, o):
        return type(o) is type(self) and o.ref == self.ref


class VList(Ref):
    __slots__ = ()


class VDict(Ref):
    """content: tuple of (key, value) pairs, or DictSeq"""
    __slots__ = ()


class VSet(Ref):
    """content: Seq of elements, pairwise distinct if all units"""
    __slots__ = ()


class VIter(Ref):
    """content: Seq of the remaining elements"""
    __slots__ = ()


class VObj(Ref):
    __slots__ = ("cls",)

    def __init__(self, ref, cls):
        self.ref, self.cls = ref, cls

    def __repr__(self):
        return f"<{self.cls.name}#{self.ref}>"


class VArr(Ref):
    """numpy array of concrete shape: heap content of ref is a tuple of entries;
    idx are the positions of this view's entries in row-major order."""
    __slots__ = ("idx", "shape", "kind")

    def __init__(self, ref, idx, shape, kind="numpy"):
        self.ref, self.idx, self.shape, self.kind = ref, tuple(idx), tuple(shape), kind

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class SArr(Ref):
    """1-d numpy array of symbolic length: heap content is a Seq"""
    __slots__ = ()


class SMat(Ref):
    """2-d numpy array of symbolic shape: heap content is a mats.Mat"""
    __slots__ = ()


ARRAYS = (VArr, SArr, SMat)


class Frozen:
    """immutable image of a heap object created inside a loop body"""
    __slots__ = ("kind", "cls", "data", "extra")

    def __init__(self, kind, cls, data, extra=None):
        self.kind, self.cls, self.data, self.extra = kind, cls, data, extra


class Poison:
    """value of a variable after a symbolic loop that the verifier does not track"""
    def __init__(self, why):
        self.why = why


class Unset:
    def __repr__(self):
        return "<unset>"


UNSET = Unset()


# ------------------------------------------------------------------ scalars
class SC:
    """complex number as a pair of reals"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return f"SC({self.re},{self.im})"


class SU:
    """opaque value: a term of the uninterpreted sort U with an interface"""
    __slots__ = ("term", "iface")

    def __init__(self, term, iface):
        self.term, self.iface = term, iface

    def __repr__(self):
        return f"SU({self.term}:{self.iface.name})"


class Iface:
    """Interface contract of an opaque value.  attrs: name -> value factory(interp, term);
    methods: name -> fn(interp, self, args, kwargs); classes: set of class names it is an
    instance of (others: not an instance, unless in maybe)."""
    def __init__(self, name, attrs=None, methods=None, classes=(), maybe=(), ops=None, call=None, truth=None,
                 iter=None, getitem=None, length=None, contains=None, eq=None):
        self.name = name
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.classes = set(classes)
        self.maybe = set(maybe)
        self.ops = ops or {}
        self.call = call
        self.truth = truth
        self.iter = iter
        self.getitem = getitem
        self.length = length
        self.contains = contains
        self.eq = eq


OPAQUE = Iface("opaque")

# ------------------------------------------------------------------ code objects


class VModule:
    def __init__(self, name):
        self.name = name


class VLib:
    """attribute path into a library that is not interpreted"""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<lib {self.path}>"

    def __eq__(self, o):
        return isinstance(o, VLib) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class VFunc:
    def __init__(self, node, frame, module, name, cls=None, defaults=(), kwdefaults=None):
        self.node, self.frame, self.module, self.name, self.cls = node, frame, module, name, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.dispatch = None       # list of (type value, VFunc) for singledispatch

    @property
    def qual(self):
        return f"{self.module}:{self.cls.name + '.' if self.cls else ''}{self.name}"

    def __repr__(self):
        return f"<fn {self.qual}>"


class VBound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class VClass:
    def __init__(self, name, module, bases, node):
        self.name, self.module, self.bases, self.node = name, module, bases, node
        self.attrs = {}
        self.dataclass = None      # dict(frozen=bool, eq=bool) if dataclass
        self.fields = []           # (name, default or UNSET)
        self.builtin_base = None   # python builtin exception class, "NamedTuple", ...
        self.props = {}
        self.is_enum = False

    def mro(self):
        # linearization good enough for the single-inheritance + mixin hierarchies here
        out = [self]
        for b in self.bases:
            if isinstance(b, VClass):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


class VProperty:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class VStatic:
    def __init__(self, f):
        self.f = f


class VClassMethod:
    def __init__(self, f):
        self.f = f


class VSuper:
    def __init__(self, obj, after):
        self.obj, self.after = obj, after


class VSlice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_bool(v):
    return isinstance(v, (bool, z3.BoolRef))


def is_num(v):
    return isinstance(v, (int, float, Fraction, z3.ArithRef)) and not isinstance(v, z3.BoolRef)


def is_intlike(v):
    return (isinstance(v, int)) or (isinstance(v, z3.ArithRef) and v.is_int()) or isinstance(v, z3.BitVecRef)


def to_z3_real(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        f = Fraction(v)
        return z3.Q(f.numerator, f.denominator)
    if isinstance(v, Fraction):
        return z3.Q(v.numerator, v.denominator)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, z3.ArithRef):
        return z3.ToReal(v) if v.is_int() else v
    raise Unsupported(f"not a real number: {v!r}")


def to_z3_bool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v
