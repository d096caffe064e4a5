"""C16: the algebra of qubit, Ising and fermion operators.

An operator denotes  sum over its terms t of  coefficient(t) * D(t),  D(t) the product of the factors of t in order.
The proof is modular: `_simplify` has the contract  coefficient' * D(term') = coefficient * D(term)  with term' in a
canonical form (proved below for every class on symbolic qubits), and the ring operations are proved for arbitrary
terms and an arbitrary `_simplify` with that contract, from  D(l + r) = D(l) D(r)."""
from itertools import combinations, product as cart
from pyvc.contract import Property
from .spec import *

P = Property("C16", trusted=["D(l + r) = D(l) D(r): the factors of a concatenated term multiply in order (definition of the denotation)"])
OF = "zquantum.core.openfermion.ops.operators."
CLS = {"qubit": OF + "qubit_operator:QubitOperator", "ising": OF + "ising_operator:IsingOperator", "fermion": OF + "fermion_operator:FermionOperator"}
SO = OF + "symbolic_operator:SymbolicOperator"
TOL = Fraction(1, 10 ** 8)
IDENTITY = z3.Const("identity_term", U)
CAT = z3.Function("concatenated", U, U, U)
SIMP = z3.Function("simplified", U, U)
WRE, WIM = (z3.Function(f"simplified_factor_{x}", U, z3.RealSort()) for x in ("re", "im"))


def same_term(it, s, o):
    if isinstance(o, tuple) and not o:
        return s.term == IDENTITY
    if isinstance(o, SU):
        return s.term == o.term
    raise Unsupported("comparison of a term")


TERM = Iface("term", eq=same_term, classes={"tuple"}, ops={"+": lambda it, a, b: SU(CAT(a.term, tterm(b)), TERM), "r+": lambda it, a, b: SU(CAT(tterm(a), b.term), TERM)})


def tterm(x):
    if isinstance(x, tuple) and not x:
        return IDENTITY
    if isinstance(x, SU):
        return x.term
    raise Unsupported("term")


def number(v, name, cplx):
    return SC(v.real(name + "_re"), v.real(name + "_im")) if cplx else v.real(name)


def parts(it, x):
    s = it.to_sc(x) if isinstance(x, (SC, complex)) else None
    return (to_z3_real(s.re), to_z3_real(s.im)) if s is not None else (to_z3_real(x), z3.RealVal(0))


def plus(a, b):
    return a[0] + b[0], a[1] + b[1]


def times(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


class Alg:
    def __init__(self, v, kind, cplx):
        self.v, self.it, self.kind, self.cplx, self.cls = v, v.it, kind, cplx, v.fn(CLS[kind])

    def op(self, name, k):
        """an operator with k different terms and any coefficients"""
        v = self.v
        ts = [v.opaque(f"{name}_term{i}", TERM) for i in range(k)]
        for a, b in combinations(ts, 2):
            v.assume(a.term != b.term)
        items = [(t, number(v, f"{name}{i}", self.cplx)) for i, t in enumerate(ts)]
        return self.it.new_obj(self.cls, {"terms": self.it.new_dict(list(items))}), items

    def items(self, o):
        return list(self.it.heap[self.it.getattr(o, "terms").ref])

    def coefficient(self, items, t):
        """sum of the coefficients of term t in a list of (term, coefficient)"""
        tot = (z3.RealVal(0), z3.RealVal(0))
        for u, x in items:
            if self.it.decide(tterm(u) == t):
                tot = plus(tot, x if isinstance(x, tuple) else parts(self.it, x))
        return tot

    def unchanged(self, o, items, why):
        now = self.items(o)
        self.v.prove(len(now) == len(items), why)
        for (t, x), (u, y) in zip(now, items):
            self.v.prove(tterm(t).eq(tterm(u)), why)
            self.v.same(x, y, why)

    def denotes(self, o, want, why, exact=True, dropped=0):
        """o's coefficients are those of the list `want`; a term may be left out if its coefficient is negligible
        dropped: how many negligible parts a coefficient may have lost on the way"""
        v, it = self.v, self.it
        v.prove(isinstance(o, VObj) and o.cls is self.cls, why + ": type")
        got = self.items(o)
        for (t, _), (u, _) in combinations(got, 2):
            v.prove(tterm(t) != tterm(u), why + ": terms merged")
        seen = []
        for t, _ in list(want) + got:
            t = tterm(t)
            if any(it.decide(t == s) for s in seen):
                continue
            seen.append(t)
            w = self.coefficient(want, t)
            mine = [x for u, x in got if it.decide(tterm(u) == t)]
            a = parts(it, mine[0]) if mine else (z3.RealVal(0), z3.RealVal(0))
            d = (a[0] - w[0], a[1] - w[1])
            if mine and not dropped:
                v.prove(z3.And(d[0] == 0, d[1] == 0), why + ": coefficient")
            elif exact:
                v.prove(z3.And(d[0] == 0, d[1] == 0), why + ": a missing term has coefficient zero")
            elif dropped:
                e = z3.Q(1 + dropped, 10 ** 8)
                v.prove(z3.And(*[z3.And(x <= e, -x <= e) for x in d]), why + ": up to negligible parts")
            else:
                v.prove(z3.Or(w[0] * w[0] + w[1] * w[1] <= z3.Q(1, 10 ** 16), SMALL(w[0], w[1], z3.Q(1, 10 ** 8))), why + ": a missing term is negligible")


SMALL = z3.Function("negligible", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())


def small(v):
    """contract of _issmall (proved below): whether the magnitude is below the tolerance"""
    def f(it, a, k):
        d = dict(zip(["val", "tol"], a), **k)
        x, t = parts(it, d["val"]), to_z3_real(d.get("tol", TOL))
        if isinstance(d["val"], (int, Fraction)) and not is_z3(d["val"]):
            return abs(d["val"]) < Fraction(d.get("tol", TOL))
        x = (z3.simplify(x[0]), z3.simplify(x[1]))
        r = SMALL(x[0], x[1], t)
        # a negligible number has negligible parts; zero is negligible for a positive tolerance
        it.assume_axiom(z3.Implies(r, z3.And(x[0] < t, -x[0] < t, x[1] < t, -x[1] < t)))
        it.assume_axiom(z3.Implies(z3.And(x[0] == 0, x[1] == 0, t > 0), r))
        return r
    v.contract(SO + "._issmall", f)


def both(cases, large=()):
    """every class; the larger sizes for one of them (the operations are those of the common base class)"""
    for kind, cplx in (("qubit", True), ("ising", False), ("fermion", True)):
        for c_ in list(cases) + (list(large) if kind == "qubit" else []):
            yield (kind, cplx) + tuple(c_ if isinstance(c_, tuple) else (c_,))


def neg(x):
    return -x[0], -x[1]


def linear(v, kind, cplx, n, m):
    A = Alg(v, kind, cplx)
    small(v)
    it = v.it
    which = v.choose(("a+b", "a-b", "a+=b", "a-=b", "accumulate"))
    a, ia = A.op("a", n)
    b, ib = A.op("b", m)
    minus = [(t, neg(parts(it, x))) for t, x in ib]
    if which in ("a+=b", "a-=b"):
        r = v.it.call(v.attr(a, "__iadd__" if which == "a+=b" else "__isub__"), [b], {})
        v.prove(isinstance(r, VObj) and r.ref == a.ref, which + ": in place")
        A.denotes(r, ia + (ib if which == "a+=b" else minus), which, exact=False)
    else:
        r = v.call(v.attr(A.cls, "accumulate"), v.list([a, b])) if which == "accumulate" else it.binop("+" if which == "a+b" else "-", a, b)
        A.denotes(r, ia + (minus if which == "a-b" else ib), which, exact=False, dropped=1 if which == "accumulate" else 0)
        v.prove(r.ref not in (a.ref, b.ref) and it.getattr(r, "terms").ref not in (it.getattr(a, "terms").ref, it.getattr(b, "terms").ref), which + ": a new operator")
        A.unchanged(a, ia, which + ": left operand unchanged")
    A.unchanged(b, ib, which + ": right operand unchanged")


for _kind, _c, _n, _m in both([(0, 1), (1, 1), (2, 1)], [(0, 2), (1, 2), (3, 0)]):
    def _mk(kind, cplx, n, m):
        @P.obligation(f"sums and differences of {kind} operators with {n} and {m} terms, {'complex' if cplx else 'real'} coefficients: coefficients add term by term, operands unchanged", targets=[SO + ".__iadd__", SO + ".__isub__", SO + ".__add__", SO + ".__sub__", SO + ".accumulate"],
                      bound=f"{n} and {m} terms, any terms (coinciding in any way) and coefficients", budget=120)
        def _(v):
            linear(v, kind, cplx, n, m)
    _mk(_kind, _c, _n, _m)


def product(v, kind, cplx, n, m):
    A = Alg(v, kind, cplx)
    it = v.it

    def simplify(it, a, k):
        d = dict(zip(["self", "term", "coefficient"], a), **k)
        t = tterm(d["term"])
        return it.binop("*", d.get("coefficient", 1), SC(WRE(t), WIM(t))), SU(SIMP(t), TERM)
    for q in (SO, CLS["qubit"], CLS["ising"], CLS["fermion"]):
        v.contract(q + "._simplify", simplify)
    inplace = it.decide(v.bool("in place"))
    a, ia = A.op("a", n)
    b, ib = A.op("b", m)
    want = []
    for t, x in ia:
        for u, y in ib:
            j = CAT(t.term, u.term)
            want.append((SU(SIMP(j), TERM), times(times(parts(it, x), parts(it, y)), (WRE(j), WIM(j)))))
    r = it.call(v.attr(a, "__imul__"), [b], {}) if inplace else it.binop("*", a, b)
    A.denotes(r, want, "product")
    if inplace:
        v.prove(r.ref == a.ref, "in place")
    else:
        A.unchanged(a, ia, "left operand unchanged")
        v.prove(r.ref not in (a.ref, b.ref) and it.getattr(r, "terms").ref not in (it.getattr(a, "terms").ref, it.getattr(b, "terms").ref), "a new operator")
    A.unchanged(b, ib, "right operand unchanged")


for _kind, _c, _n, _m in both([(0, 1), (1, 1), (2, 1), (1, 2)], [(2, 2)]):
    def _mk(kind, cplx, n, m):
        @P.obligation(f"products of {kind} operators with {n} and {m} terms, {'complex' if cplx else 'real'} coefficients: every pair of terms joined left to right, equal results merged, operands unchanged", targets=[SO + ".__imul__", SO + ".__mul__"],
                      bound=f"{n} and {m} terms, any terms, coefficients and simplification", budget=120)
        def _(v):
            product(v, kind, cplx, n, m)
    _mk(_kind, _c, _n, _m)


def scalar(v, kind, cplx, n):
    A = Alg(v, kind, cplx)
    small(v)
    it = v.it
    a, ia = A.op("a", n)
    names = ("s*a", "a*s", "a/s", "-a", "a+s", "s+a", "a-s", "s-a", "a*=s", "a/=s", "a+=s", "a-=s")
    which = v.choose(names)
    s = number(v, "s", cplx)
    ps = parts(it, s)
    unit = [(SU(IDENTITY, TERM), ps)]
    scaled = [(t, times(parts(it, x), ps)) for t, x in ia]
    if which in ("a/s", "a/=s"):
        nz = ps[0] * ps[0] + ps[1] * ps[1]
        v.assume(nz != 0)
        inv = (v.real("inverse_re"), v.real("inverse_im"))
        one = times(inv, ps)
        v.assume(z3.And(one[0] == 1, one[1] == 0))
        scaled = [(t, times(parts(it, x), inv)) for t, x in ia]
    if "=" in which:
        r = it.call(v.attr(a, {"*": "__imul__", "/": "__itruediv__", "+": "__iadd__", "-": "__isub__"}[which[1]]), [s], {})
        v.prove(isinstance(r, VObj) and r.ref == a.ref, which + ": in place")
    elif which == "-a":
        r = it.call(v.attr(a, "__neg__"), [], {})
    else:
        x, o, y = which
        r = it.binop(o, a if x == "a" else s, a if y == "a" else s)
    minus = lambda l: [(t, neg(parts(it, x)) if not isinstance(x, tuple) else neg(x)) for t, x in l]
    want = {"s*a": scaled, "a*s": scaled, "a/s": scaled, "-a": minus(ia), "a+s": ia + unit, "s+a": ia + unit, "a-s": ia + minus(unit), "s-a": minus(ia) + unit}[which.replace("=", "")]
    A.denotes(r, want, which, exact=False)
    if "=" not in which:
        A.unchanged(a, ia, which + ": operand unchanged")
        v.prove(r.ref != a.ref and it.getattr(r, "terms").ref != it.getattr(a, "terms").ref, which + ": a new operator")


for _kind, _c, _n in both([0, 1], [2]):
    def _mk(kind, cplx, n):
        @P.obligation(f"multiples, quotients and shifts of {kind} operators with {n} terms by {'complex' if cplx else 'real'} numbers", targets=[SO + "." + x for x in ("__imul__", "__mul__", "__rmul__", "__truediv__", "__itruediv__", "__neg__", "__radd__", "__rsub__")],
                      bound=f"{n} terms, any terms and numbers", budget=120)
        def _(v):
            scalar(v, kind, cplx, n)
    _mk(_kind, _c, _n)


@P.obligation("a number is negligible exactly if its magnitude is below the tolerance", targets=[SO + "._issmall"])
def _(v):
    it = v.it
    cplx = it.decide(v.bool("complex"))
    x = number(v, "x", cplx)
    t = v.real("tolerance") if it.decide(v.bool("explicit tolerance")) else None
    if t is not None:
        v.assume(t > 0)
    r = to_z3_bool(it.truth(v.call(v.attr(v.fn(SO), "_issmall"), x, *([] if t is None else [t]))))
    t = z3.Q(1, 10 ** 8) if t is None else t
    re, im = parts(it, x)
    m = re * re + im * im
    if not cplx:
        v.prove(z3.And(z3.Implies(r, z3.And(re <= t, -re <= t)), z3.Implies(z3.And(re < t, -re < t), r)), "below the tolerance")
    else:
        v.prove(z3.Implies(r, m <= t * t), "accepted: not above the tolerance")
        v.prove(z3.Implies(m < t * t, r), "below the tolerance: accepted")


PAULI_PHASE = {}


def pauli_product(ps):
    """(phase, Pauli) of a product of Pauli matrices, from the matrices"""
    m = ID
    for p in ps:
        m = mm(m, PAULI[p])
    for name, q in (("I", ID), ("X", PX), ("Y", PY), ("Z", PZ)):
        for ph in (1, 1j, -1, -1j):
            if all((Poly.const(x) - Poly.const(ph) * Poly.const(y)).is_zero() if hasattr(Poly, "is_zero") else Poly.const(x) == Poly.const(ph) * Poly.const(y) for r, s in zip(m, q) for x, y in zip(r, s)):
                return ph, name
    raise AssertionError


def simplified(v, kind, n, actions):
    it = v.it
    cls = v.fn(CLS[kind])
    q = [v.int(f"qubit{i}", 0) for i in range(n)]
    f = tuple(zip(q, actions))
    co = SC(v.real("c_re"), v.real("c_im"))
    o = it.new_obj(cls, {"terms": it.new_dict([])})
    r = it.call(v.attr(o, "_simplify"), [f], {"coefficient": co})
    v.prove(isinstance(r, tuple) and len(r) == 2, "coefficient and term")
    got = it.as_seq(r[1]).concrete()
    v.prove(isinstance(r[1], tuple) and got is not None, "a tuple")
    # qubits in order, each with the product of its own factors in order
    groups = []
    for x, p in f:
        for g in groups:
            if it.decide(g[0] == x):
                g[1].append(p)
                break
        else:
            groups.append((x, [p]))
    phase, want = 1, []
    for x, ps in groups:
        ph, name = pauli_product(ps)
        phase *= ph
        if name != "I":
            k = 0
            while k < len(want) and it.decide(want[k][0] < x):
                k += 1
            want.insert(k, (x, name))
    v.prove(len(got) == len(want), "one factor per qubit, identities left out")
    for a, b in zip(got, want):
        v.prove(len(a) == 2 and a[1] == b[1], "the Pauli of the product")
        v.prove(to_z3_bool(it.eq(a[0], b[0])), "qubits in increasing order")
    c_ = it.to_sc(r[0]) if not isinstance(r[0], SC) else r[0]
    w = times(parts(it, co), (z3.RealVal(int(complex(phase).real)), z3.RealVal(int(complex(phase).imag))))
    v.prove(z3.And(to_z3_real(c_.re) == w[0], to_z3_real(c_.im) == w[1]), "coefficient times the phase of the product")


for _n in (0, 1, 2, 3):
    def _mk(n):
        @P.obligation(f"products of {n} Pauli factors: the Pauli table on every qubit, different qubits commute, one canonical form", targets=[CLS["qubit"] + "._simplify"],
                      bound=f"{n} factors, any Paulis, any qubits (coinciding in any way)", budget=240)
        def _(v):
            simplified(v, "qubit", n, v.choose(["".join(x) for x in cart("XYZ", repeat=n)]))
    _mk(_n)

for _n in (0, 1, 2, 3, 4):
    def _mk(n):
        @P.obligation(f"products of {n} Z factors: qubits with an odd number of factors, in order; the coefficient is kept", targets=[CLS["ising"] + "._simplify"],
                      bound=f"{n} factors on any qubits (coinciding in any way)", budget=240)
        def _(v):
            simplified(v, "ising", n, "Z" * n)
    _mk(_n)


@P.obligation("fermion terms keep their ladder factors, in order, and their coefficient", targets=[CLS["fermion"] + "._simplify"])
def _(v):
    it = v.it
    n = v.int("n", 0)
    q, d = v.int_fn("mode", 0), v.int_fn("dagger", 0, 1)
    t = v.seq("factors", n, lambda i: (q(i), d(i)))
    co = SC(v.real("c_re"), v.real("c_im"))
    o = it.new_obj(v.fn(CLS["fermion"]), {"terms": it.new_dict([])})
    r = it.call(v.attr(o, "_simplify"), [t], {"coefficient": co})
    v.same(it.as_seq(r[1]), t, "factors")
    v.same(r[0], co, "coefficient")


ACTIONS = {"qubit": ("X", "Y", "Z"), "ising": ("Z",), "fermion": (0, 1)}


def init(v, kind, form, n):
    """contract of the constructor: the given factors, simplified"""
    it = v.it
    cls = v.fn(CLS[kind])
    acts = v.choose(["/".join(map(str, x)) for x in cart(ACTIONS[kind], repeat=n)], "actions").split("/") if n else []
    acts = [int(x) if kind == "fermion" else x for x in acts]
    q = [v.int(f"qubit{i}", 0) for i in range(n)]
    factors = list(zip(q, acts))
    seen = []

    def simplify(it, a, k):
        d = dict(zip(["self", "term", "coefficient"], a), **k)
        seen.append(d["term"])
        return it.binop("*", d.get("coefficient", 1), v.real("w")), SU(z3.Const("simplified_term", U), TERM)
    for x in (SO, CLS["qubit"], CLS["ising"], CLS["fermion"]):
        v.contract(x + "._simplify", simplify)
    co = v.real("coefficient") if it.decide(v.bool("explicit coefficient")) else None
    arg = {"tuple": lambda: tuple(factors), "list": lambda: v.list(list(factors)), "single": lambda: factors[0]}[form]()
    r = it.call(cls, [arg] + ([] if co is None else [co]), {})
    items = list(it.heap[it.getattr(r, "terms").ref])
    v.prove(len(items) == 1 and len(seen) == 1, "one term")
    v.same(it.as_seq(seen[0]), Seq.of([tuple(x) for x in factors]), "the factors in the given order")
    v.prove(tterm(items[0][0]).eq(z3.Const("simplified_term", U)), "the simplified term")
    v.prove(to_z3_real(items[0][1]) == (z3.RealVal(1) if co is None else co) * v.real("w"), "coefficient")


for _kind in CLS:
    for _form, _n in (("tuple", 0), ("list", 0), ("tuple", 1), ("list", 1), ("single", 1), ("tuple", 2), ("list", 2)):
        def _mk(kind, form, n):
            @P.obligation(f"a {kind} operator from a {form} of {n} factors has that term with the given coefficient", targets=[SO + ".__init__", SO + "._parse_sequence", SO + "._validate_factor"], bound=f"{n} factors")
            def _(v):
                init(v, kind, form, n)
        _mk(_kind, _form, _n)

    def _mk(kind):
        @P.obligation(f"{kind} operators: factors with a negative index, an unknown action or a wrong number of parts are rejected; no term gives zero", targets=[SO + ".__init__", SO + "._parse_sequence", SO + "._validate_factor", SO + ".zero", SO + ".identity"])
        def _(v):
            it = v.it
            cls = v.fn(CLS[kind])
            i = v.int("index", 0)
            m = v.int("negative", None, -1)
            a = ACTIONS[kind][0]
            for bad in ((m, a), (i, "W"), (i, "x"), (i, 2), (i, a, a), (i,), ("3", a)):
                v.raises((ValueError, IndexError), lambda: it.call(cls, [(bad,)], {}), f"{len(bad)} parts, rejected")
                v.raises((ValueError, IndexError), lambda: it.call(cls, [((i, a), bad)], {}), "rejected after a valid factor")
            v.raises(ValueError, lambda: it.call(cls, [(m, a)], {}), "single factor, negative index")
            v.raises(ValueError, lambda: it.call(cls, [v.opaque("thing")], {}), "something else")
            v.raises(ValueError, lambda: it.call(cls, [(), "1"], {}), "coefficient that is no number")
            v.prove(not it.heap[it.getattr(it.call(cls, [], {}), "terms").ref], "zero operator")
            v.prove(not it.heap[it.getattr(v.call(v.attr(cls, "zero")), "terms").ref], "zero()")
            one = list(it.heap[it.getattr(v.call(v.attr(cls, "identity")), "terms").ref])
            v.prove(len(one) == 1 and one[0][0] == () and it.decide(to_z3_bool(it.eq(one[0][1], 1))), "identity()")
    _mk(_kind)


@P.obligation("powers multiply the operator exponent times onto the identity; other exponents are rejected", targets=[SO + ".__pow__"], bound="exponents 0 to 4", budget=60)
def _(v):
    it = v.it
    kind = v.choose(CLS)
    A = Alg(v, kind, False)
    n = v.choose([-1, -2, "half", "text", 0, 1, 2, 3, 4], "exponent")
    a, ia = A.op("a", 2)
    log = []

    def imul(it, x, k):
        log.append((x[0].ref, x[1].ref))
        new = [(SU(z3.Const(f"power{len(log)}", U), TERM), v.real(f"power{len(log)}"))]
        it.setattr(x[0], "terms", it.new_dict(new))
        return x[0]
    v.contract(SO + ".__imul__", imul)
    p = v.attr(a, "__pow__")
    if n in (-1, -2, "half", "text"):
        v.raises(ValueError, lambda: it.call(p, [{"half": Fraction(1, 2), "text": "2"}.get(n, n)], {}), "rejected")
        return
    r = it.call(p, [n], {})
    A.unchanged(a, ia, "operand unchanged")
    v.prove(r.ref != a.ref and r.cls is A.cls, "a new operator")
    if n == 0:
        got = A.items(r)
        v.prove(len(got) == 1 and got[0][0] == () and it.decide(to_z3_bool(it.eq(got[0][1], 1))), "identity")
    elif all(x[1] == a.ref for x in log):
        v.prove(len(log) == n and all(x[0] == r.ref for x in log), "multiplied exponent times")
    else:
        raise Unsupported("another way to raise to a power")


def closeness(v, kind, cplx, n, m):
    A = Alg(v, kind, cplx)
    it = v.it
    a, ia = A.op("a", n)
    b, ib = A.op("b", m)
    tol = None
    if it.decide(v.bool("explicit tolerance")):
        tol = v.real("tolerance")
        v.assume(tol > 0)
    how = "isclose" if tol is not None else v.choose(("==", "!=", "isclose"))
    r = it.call(v.attr(a, "isclose"), [b] + ([] if tol is None else [tol]), {}) if how == "isclose" else it.eq(a, b) if how == "==" else it.not_(it.eq(a, b)) if False else it.cmp(how, a, b)
    r = to_z3_bool(it.truth(r))
    if how == "!=":
        r = z3.Not(r)
    t = z3.Q(1, 10 ** 8) if tol is None else tol
    le, lt = [], []
    ab = lambda x: z3.If(x >= 0, x, -x)
    for u, x in ia:
        for w, y in ib:
            if it.decide(u.term == w.term):
                x_, y_ = to_z3_real(x), to_z3_real(y)
                mx = z3.If(ab(x_) >= 1, ab(x_), z3.RealVal(1))
                mx = z3.If(ab(y_) >= mx, ab(y_), mx)
                le.append(ab(x_ - y_) <= t * mx)
                lt.append(ab(x_ - y_) < t * mx)
    for mine, other in ((ia, ib), (ib, ia)):
        for u, x in mine:
            if not any(it.decide(u.term == w.term) for w, _ in other):
                le.append(ab(to_z3_real(x)) <= t)
                lt.append(ab(to_z3_real(x)) < t)
    v.prove(z3.Implies(r, z3.And(*le)), "accepted: every coefficient agrees within the tolerance")
    v.prove(z3.Implies(z3.And(*lt), r), "all coefficients agree: accepted")
    A.unchanged(a, ia, "left operand unchanged")
    A.unchanged(b, ib, "right operand unchanged")


for _n, _m in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (2, 2)):
    def _mk(n, m):
        @P.obligation(f"approximate comparison of operators with {n} and {m} terms: accepted exactly if every coefficient agrees within the tolerance relative to its size", targets=[SO + ".isclose", SO + ".__eq__", SO + ".__ne__"],
                      bound=f"{n} and {m} terms, any terms and real coefficients", budget=120)
        def _(v):
            closeness(v, "qubit", False, n, m)
    _mk(_n, _m)


def compressed(v, kind, cplx, n):
    A = Alg(v, kind, cplx)
    it = v.it
    a, ia = A.op("a", n)
    tol = None
    if it.decide(v.bool("explicit tolerance")):
        tol = v.real("tolerance")
        v.assume(tol >= 0)
    it.call(v.attr(a, "compress"), [] if tol is None else [tol], {})
    t = z3.Q(1, 10 ** 8) if tol is None else tol
    ab = lambda x: z3.If(x >= 0, x, -x)
    got = A.items(a)
    v.prove(all(any(tterm(u).eq(tterm(w)) for w, _ in ia) for u, _ in got) and len({str(tterm(u)) for u, _ in got}) == len(got), "no other term")
    for u, x in ia:
        mine = [y for w, y in got if tterm(w).eq(tterm(u))]
        old = parts(it, x)
        new = parts(it, mine[0]) if mine else (z3.RealVal(0), z3.RealVal(0))
        for o, w in zip(old, new):
            v.prove(z3.Or(w == o, z3.And(w == 0, ab(o) <= t)), "a part is kept, or dropped because it is negligible")


for _c, _n in ((False, 0), (False, 1), (False, 2), (True, 1), (True, 2)):
    def _mk(cplx, n):
        @P.obligation(f"compressing an operator of {n} terms with {'complex' if cplx else 'real'} coefficients drops only negligible parts", targets=[SO + ".compress"], bound=f"{n} terms, any terms and coefficients", budget=120)
        def _(v):
            compressed(v, "qubit", cplx, n)
    _mk(_c, _n)


@P.obligation("the single-term operators of an operator: its terms and coefficients in order, again and again; any number of terms", targets=[SO + ".get_operators", SO + ".__iter__"])
def _(v):
    it = v.it
    kind = v.choose(CLS)
    n = v.int("n", 0)
    f, g = z3.Function("term", z3.IntSort(), U), z3.Function("coefficient", z3.IntSort(), z3.RealSort())
    made = z3.Function("operator_of_term", U, z3.RealSort(), U)
    v.contract(CLS[kind], lambda it, a, k: (lambda d: SU(made(tterm(d["term"]), to_z3_real(d.get("coefficient", 1))), OPAQUE))(dict(zip(["term", "coefficient"], a), **k)))
    items = v.seq("items", n, lambda i: (SU(f(i), TERM), g(i)))
    d = v.opaque("terms", Iface("terms", methods={"items": lambda it, s, a, k: items, "keys": lambda it, s, a, k: v.seq("keys", n, lambda i: SU(f(i), TERM))}, length=lambda it, s: n))
    o = it.new_obj(v.fn(CLS[kind]), {"terms": d})
    want = v.seq("want", n, lambda i: SU(made(f(i), g(i)), OPAQUE))
    v.same(it.as_seq(v.call("builtins:list", v.method(o, "get_operators")) if False else it.builtins["list"].fn(it, [v.method(o, "get_operators")], {})), want, "operators")
    v.same(it.as_seq(it.builtins["list"].fn(it, [o], {})), want, "iteration")
    v.same(it.as_seq(it.builtins["list"].fn(it, [o], {})), want, "second iteration")


@P.obligation("the constant of an operator is the coefficient of the empty term", targets=[SO + ".constant"], bound="operators with and without a constant and one other term")
def _(v):
    it = v.it
    o = it.new_obj(v.fn(CLS[v.choose(CLS)]), {"terms": it.new_dict([])})
    v.prove(to_z3_bool(it.eq(it.getattr(o, "constant"), 0)), "zero operator")
    x, y, z = v.real("x"), v.real("y"), v.real("z")
    o = it.new_obj(o.cls, {"terms": it.new_dict([(((v.int("q", 0), "Z"),), y), ((), x)])})
    v.prove(to_z3_bool(it.eq(it.getattr(o, "constant"), x)), "constant")
    it.setattr(o, "constant", z)
    got = list(it.heap[it.getattr(o, "terms").ref])
    v.prove(len(got) == 2, "terms")
    v.prove(z3.And(*[to_z3_bool(it.eq(c_, z if t == () else y)) for t, c_ in got]), "coefficients after setting it")
