"""C24: numerical gradients; any function, any number of parameters, any step."""
from pyvc.contract import Property
from .spec import *
from .C25 import contracted, hamiltonian, ops, term_ops, TERM, TERMI, EM, circuits

P = Property("C24", trusted=["the differentiated function is a function of the array's values (deterministic)",
                             "circuits of Pauli terms are the exact exponentials (C25); the derivative of a product is the sum over its factors"])
GM = C + "gradients:"
FN = z3.Function("value_at", U, z3.RealSort())


def arr(v, name="parameters"):
    n = v.int("n_" + name, 0)
    x = z3.Function(name, z3.IntSort(), z3.RealSort())
    return n, x, SArr(v.it.alloc(v.seq(name, n, lambda i: x(i))))


@P.obligation("gradient: component i is the central difference along coordinate i, parameters unchanged", targets=[GM + "finite_differences_gradient"])
def _(v):
    n, x, a = arr(v)
    h = v.real("step")
    v.assume(h != 0)
    f = v.opaque("function", Iface("function", call=lambda it, s, a, k: FN(it.embed(a[0]))))
    before = v.it.heap[a.ref]
    g = v.call(v.call(GM + "finite_differences_gradient", f, h), a)

    def component(i):
        def at(d):
            s = v.seq("at", n, lambda j: x(j), [(lambda j: j == i, lambda j: x(i) + d)])
            return FN(v.it.embed(SArr(v.it.alloc(s))))
        return (at(h) - at(-h)) / (2 * h)
    v.same(v.it.as_seq(g), v.seq("components", n, component), "components")
    v.same(v.it.heap[a.ref], before, "caller's parameters")


# ---- derivative circuits of a product formula
COEF = z3.Function("coefficient", U, z3.RealSort())


def setup(v):
    new = contracted(v)
    TERMI.classes.add("QubitOperator")
    TERMI.attrs["terms"] = lambda it, s: it.new_dict([(SU(z3.Function("string", U, U)(s.term), Iface("string")), COEF(s.term))])
    v.it.lib_consts["numpy.pi"] = pi = z3.Real("pi")
    v.it.axioms.append(z3.And(pi > 3, pi < 4))
    m, h = hamiltonian(v)
    i = z3.Int("ci")
    v.it.axioms.append(z3.ForAll([i], COEF(TERM(i)) != 0, patterns=[TERM(i)]))
    return new, m, h, pi


def shifted(v, m, t, n, i, sign, pi):
    """operations of one step of n whose i-th term evolves for a longer or shorter time: its rotation angle t c_i / n changes by
    sign * pi / 4"""
    step = v.it.binop("/", t, n)
    return v.flat(m, lambda j: term_ops(v, TERM(j), step), [(lambda j: j == i, lambda j: term_ops(v, TERM(i), step + sign * pi / 4 / COEF(TERM(i))))])


@P.obligation("derivative circuits and factors of a single step", targets=[EM + "time_evolution_derivatives"], sufficient=True)
def _(v):
    new, m, h, pi = setup(v)
    t = v.real("time")
    circs, factors = v.call(EM + "time_evolution_derivatives", h, t)
    v.same(v.it.as_seq(factors), v.flat(m, lambda i: Seq.of([COEF(TERM(i)), -COEF(TERM(i))])), "factors")
    v.same(v.it.as_seq(circs), v.flat(m, lambda i: Seq.of([new(shifted(v, m, t, 1, i, s, pi)) for s in (1, -1)])), "circuits")


@P.obligation("derivative circuits and factors of several steps", targets=[EM + "time_evolution_derivatives", EM + "_generate_circuit_sequence"], sufficient=True)
def _(v):
    new, m, h, pi = setup(v)
    t, n = v.real("time"), v.int("n_steps", 2)
    circs, factors = v.call(EM + "time_evolution_derivatives", h, t, trotter_order=n)
    it = v.it
    r = lambda i: it.binop("/", COEF(TERM(i)), n)
    v.same(it.as_seq(factors), v.flat(n, lambda p: v.flat(m, lambda i: Seq.of([r(i), -r(i)]))), "factors")
    plain = lambda: v.flat(m, lambda j: term_ops(v, TERM(j), it.binop("/", t, n)))
    one = lambda p, i, s: new(v.flat(n, lambda k: plain(), [(lambda k: k == p, lambda k: shifted(v, m, t, n, i, s, pi))]))
    v.same(it.as_seq(circs), v.flat(n, lambda p: v.flat(m, lambda i: Seq.of([one(p, i, s) for s in (1, -1)]))), "circuits")


@P.obligation("shift rule: f(x + pi/4) - f(x - pi/4) is the derivative of the expectation after exp(-i x P), P*P = 1", targets=[])
def _(v):
    # f(x) = <(cos x + i sin x P) O (cos x - i sin x P)> with a = <O>, b = <P O P>, d = <i (P O - O P)>
    a, b, d, x = (Poly.gen(n) for n in "abdx")
    f = lambda y: cos(y) * cos(y) * a + sin(y) * sin(y) * b + sin(y) * cos(y) * d
    df = cos(x) * sin(x) * (b - a) * 2 + (cos(x) * cos(x) - sin(x) * sin(x)) * d      # d cos = -sin, d sin = cos
    q = PI * Fraction(1, 4)
    v.poly_eq(f(x + q) - f(x - q), df, "shift rule")


@P.obligation("derivatives reject another method", targets=[EM + "time_evolution_derivatives"])
def _(v):
    new, m, h, pi = setup(v)
    meth = v.opaque("method")
    v.assume(meth.term != v.it.embed("Trotter"))
    v.raises(ValueError, lambda: v.call(EM + "time_evolution_derivatives", h, v.real("time"), method=meth), "rejected")
