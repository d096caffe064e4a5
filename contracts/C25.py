"""C25: time evolution circuits; Pauli strings of any length, any coefficient, time and number of steps.

A Pauli string P = P_1 ... P_n on distinct qubits satisfies exp(-i a P) = V+ exp(-i a Z_q) V whenever V+ Z_q V = P with
V unitary.  The circuit is V = (CNOT ladder)(base changes), then RZ(2a) on the last qubit, then V+ gate by gate; the lemma
obligations show, on the matrices of the real gates,
  B_P+ Z B_P = P         for the base change of each Pauli (H, RX(pi/2), none)
  CNOT+ (1 x Z) CNOT = Z x Z      so the ladder takes Z on the last qubit to the product of all Z (induction on n)
  RZ(2a) = exp(-i a Z),  and that the gates of the second half are the adjoints of those of the first.
"""
from itertools import combinations, product as cart
from pyvc.contract import Property
from .spec import *
from .C01 import lifted

P = Property("C25", trusted=["exp(-i a V+ Z V) = V+ exp(-i a Z) V for unitary V, and conjugation distributes over products (linear algebra)"])
EM = C + "evolution:"
GM = C + "circuits._gates:"
CM = C + "circuits._circuit:"
BG = C + "circuits._builtin_gates:"


def circuits(v):
    """contract of circuit addition (proved in C05): operations of the left, then of the right; nothing is said about widths"""
    cls = v.fn(CM + "Circuit")
    gop = v.fn(GM + "GateOperation")

    def new(s):
        return v.it.new_obj(cls, {"_operations": v.list(s), "_n_qubits": v.opaque("some width")})

    def add(it, a, k):
        l, r = it.as_seq(it.getattr(a[0], "operations")), a[1]
        if isinstance(r, VObj) and r.cls is gop:
            return new(Seq(l.segs + (Unit(r),)))
        if isinstance(r, VObj) and r.cls is cls:
            return new(l + it.as_seq(it.getattr(r, "operations")))
        raise Unsupported("sum of a circuit and something else")
    v.contract(CM + "Circuit.__add__", add)
    v.contract(CM + "Circuit", lambda it, a, k: new(it.as_seq(dict(zip(["operations", "n_qubits"], a), **k).get("operations", ()))))
    return new


def term(v, comps, coef):
    return v.opaque("term", Iface("term", attrs={"terms": lambda it, s: it.new_dict([(comps, coef)])}))


def ops(v, circ):
    return v.it.as_seq(v.attr(circ, "operations"))


@P.obligation("operations of the circuit of one Pauli string", targets=[EM + "time_evolution_for_term"], sufficient=True)
def _(v):
    n = v.int("n", 1)
    q = v.int_fn("qubit", 0)
    kind = z3.Function("pauli", z3.IntSort(), U)
    comps = v.seq("components", n, lambda i: (q(i), SU(kind(i), OPAQUE)))
    c_, t = v.real("coefficient"), v.real("time")
    circuits(v)
    H, RX, RZ, CNOT = (v.fn(BG + g) for g in ("H", "RX", "RZ", "CNOT"))
    r = v.call(EM + "time_evolution_for_term", term(v, comps, c_), t)
    it = v.it
    X, Y = it.embed("X"), it.embed("Y")

    def base(name, sign):
        return v.seq(name, n, None, cases=[(lambda i: kind(i) == X, lambda i: v.call(H, q(i))),
                                           (lambda i: kind(i) == Y, lambda i: v.call(v.call(RX, it.binop("/", it.binop("*", sign, PI), 2)), q(i)))])
    ladder = v.seq("ladder", n, None, cases=[(lambda i: i != n - 1, lambda i: v.call(CNOT, q(i), q(i + 1)))])
    back = v.seq("ladder back", n, None, cases=[(lambda i: i != 0, lambda i: v.call(CNOT, q(n - 1 - i), q(n - i)))])
    centre = v.call(v.call(RZ, 2 * t * c_), q(n - 1))
    want = base("changes", 1) + ladder + Seq.of([centre]) + back + base("reversals", -1)
    v.same(ops(v, r), want, "operations")


def matrix(v, name, *params):
    g = v.fn(BG + name)
    if params:
        g = v.call(g, *params)
    return rows(v, v.attr(g, "matrix"))


@P.obligation("base changes, CNOT ladder and central rotation conjugate Z into the Pauli string", targets=[BG + "H", BG + "RX", BG + "RZ", BG + "CNOT"])
def _(v):
    a = Poly.gen("a")
    h, cx = matrix(v, "H"), matrix(v, "CNOT")
    p, m = matrix(v, "RX", PI * H2), matrix(v, "RX", -PI * H2)
    v.mat_eq(mm(mm(h, PZ), h), PX, "X: H Z H = X")
    v.mat_eq(mm(mm(m, PZ), p), PY, "Y: RX(-pi/2) Z RX(pi/2) = Y")
    v.mat_eq(mm(h, h), ID, "reversal of the X change is its inverse")
    v.mat_eq(mm(m, p), ID, "reversal of the Y change is its inverse")
    v.mat_eq(mm(mm(cx, kron(ID, PZ)), cx), kron(PZ, PZ), "CNOT (1 x Z) CNOT = Z x Z")
    v.mat_eq(mm(mm(cx, kron(PZ, ID)), cx), kron(PZ, ID), "CNOT leaves Z on its control")
    v.mat_eq(mm(cx, cx), eye(4), "CNOT is its own inverse")
    v.mat_eq(matrix(v, "RZ", a * 2), add(scale(cos(a), ID), scale(-IM * sin(a), PZ)), "RZ(2a) = exp(-i a Z)")


def make(n):
    @P.obligation(f"the circuit's unitary is exp(-i t c P) for every Pauli string on {n} qubits", targets=[EM + "time_evolution_for_term"],
                  bound=f"strings of {n} factors on any of 3 qubits; all coefficients and times", budget=200)
    def ob(v):
        circuits(v)
        c_, t = Poly.gen("coefficient"), Poly.gen("time")
        for s in cart("XYZ", repeat=n):
            for qs, w in [(qs, 3) for qs in combinations(range(3), n)]:
                r = v.call(EM + "time_evolution_for_term", term(v, tuple(zip(qs, s)), c_), t)
                u = eye(2 ** w)
                for o in [g.v for g in ops(v, r).segs]:
                    u = mm(lifted(rows(v, v.attr(v.attr(o, "gate"), "matrix")), tuple(v.attr(o, "qubit_indices")), w), u)
                p = eye(2 ** w)
                for x, q in zip(s, qs):
                    p = mm(lifted(PAULI[x], (q,), w), p)
                want = add(scale(cos(c_ * t), eye(2 ** w)), scale(-IM * sin(c_ * t), p))
                v.mat_eq(u, want, f"unitary of {s} on {qs}")


for _n in (1, 2, 3):
    make(_n)


@P.obligation("the empty Pauli string gives an empty circuit; sums and zero are rejected", targets=[EM + "time_evolution_for_term"])
def _(v):
    circuits(v)
    c_, t = v.real("coefficient"), v.real("time")
    r = v.call(EM + "time_evolution_for_term", term(v, (), c_), t)
    v.same(ops(v, r), Seq(()), "no operation")
    n = v.int("n_terms", 0)
    v.assume(n != 1)
    many = v.opaque("operator", Iface("operator", attrs={"terms": lambda it, s: v.opaque("term dictionary", Iface("dict", length=lambda it, s: n))}))
    v.raises(ValueError, lambda: v.call(EM + "time_evolution_for_term", many, t), "not one term")


NOPS = z3.Function("n_term_ops", U, z3.RealSort(), z3.IntSort())
TOP = z3.Function("term_op", U, z3.RealSort(), z3.IntSort(), U)
TERM = z3.Function("summand", z3.IntSort(), U)
TERMI = Iface("term")
OPI = Iface("operation")


def it_div(v, a, b):
    return v.it.binop("/", a, b)


def term_ops(v, t, time):
    time = time if is_z3(time) else z3.RealVal(time)
    return v.seq("term operations", NOPS(t, time), lambda j: SU(TOP(t, time, j), OPI))


def contracted(v):
    new = circuits(v)
    x, r = z3.Const("cx", U), z3.Real("cr")
    v.it.axioms.append(z3.ForAll([x, r], NOPS(x, r) >= 0, patterns=[NOPS(x, r)]))

    def for_term(it, a, k):
        d = dict(zip(["term", "time"], a), **k)
        return new(term_ops(v, it.embed(d["term"]), d["time"]))
    v.contract(EM + "time_evolution_for_term", for_term)
    return new


def hamiltonian(v):
    m = v.int("n_terms", 1)
    return m, v.opaque("hamiltonian", Iface("operator", methods={"get_operators": lambda it, s, a, k: it.new_iter(v.seq("terms", m, lambda i: SU(TERM(i), TERMI)))}))


@P.obligation("N steps repeat the product of term evolutions over time t/N, in order", targets=[EM + "time_evolution"])
def _(v):
    contracted(v)
    m, h = hamiltonian(v)
    t, n = v.real("time"), v.int("n_steps", 1)
    r = v.call(EM + "time_evolution", h, t, trotter_order=n)
    step = it_div(v, t, n)
    v.same(ops(v, r), v.flat(n, lambda k: v.flat(m, lambda i: term_ops(v, TERM(i), step))), "operations")
    r = v.call(EM + "time_evolution", h, t)
    v.same(ops(v, r), v.flat(m, lambda i: term_ops(v, TERM(i), t)), "operations of a single step")


@P.obligation("a method other than Trotter is rejected", targets=[EM + "time_evolution"])
def _(v):
    contracted(v)
    m, h = hamiltonian(v)
    meth = v.opaque("method")
    v.assume(meth.term != v.it.embed("Trotter"))
    v.raises(ValueError, lambda: v.call(EM + "time_evolution", h, v.real("time"), method=meth), "rejected")
