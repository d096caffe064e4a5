"""C09: decompositions; any number of operations and rules, all parameter values.

The engine of the decomposition is proved by induction on the rules: decompose_operation with a first rule and any rest
gives the concatenation, over what the first rule makes of the operation (its production, or the operation itself), of the
decompositions with the rest."""
from pyvc.contract import Property
from .spec import *

P = Property("C09", trusted=["a circuit's unitary is the product of its operations' lifted matrices (C05), lifting is multiplicative (C01), controlling is multiplicative (C03)"])
DM = C + "decompositions._decomposition:"
ZM = C + "decompositions._zquantum_decompositions:"
BG = C + "circuits._builtin_gates:"
GM = C + "circuits._gates:"
CM = C + "circuits._circuit:"

OPI = Iface("operation")
NPR = z3.Function("n_production", U, U, z3.IntSort())
PR = z3.Function("production", U, U, z3.IntSort(), U)
CLAIM = z3.Function("claims", U, U, z3.BoolSort())
ND = z3.Function("n_decomposed", U, z3.IntSort())
D = z3.Function("decomposed", U, z3.IntSort(), U)


def setup(v):
    o, r = z3.Consts("o! r!", U)
    v.it.axioms += [z3.ForAll([r, o], NPR(r, o) >= 0, patterns=[NPR(r, o)]), z3.ForAll([o], ND(o) >= 0, patterns=[ND(o)])]


RULE = Iface("rule", methods={"predicate": lambda it, r, a, k: CLAIM(r.term, a[0].term)})


def produced(v, r, o):
    return v.seq("production", NPR(r, o), lambda j: SU(PR(r, o, j), OPI))


def prod_method(v):
    return Iface("rule", methods={"predicate": lambda it, r, a, k: CLAIM(r.term, a[0].term),
                                  "production": lambda it, r, a, k: v.list(produced(v, r.term, a[0].term))})


def rest_of(o, v):
    return v.seq("rest", ND(o), lambda j: SU(D(o, j), OPI))


@P.obligation("one rule, then the rest: the decompositions, by the remaining rules, of what the first rule makes of the operation", targets=[DM + "decompose_operation"])
def _(v):
    setup(v)
    RI = prod_method(v)
    first = v.opaque("first", RI)
    f = z3.Function("rule", z3.IntSort(), U)
    others = v.seq("rules", v.int("n_rules", 0), lambda i: SU(f(i), RI))
    op = v.opaque("operation", OPI)
    depth = []

    def h(it, a, k):
        if not depth:
            depth.append(1)
            return NotImplemented
        ops, rules = a[0], it.as_seq(a[1])
        v.same(rules, others, "the remaining rules, in order")
        return v.list(rest_of(ops.term, v))
    v.contract(DM + "decompose_operation", h)
    rules = v.list(Seq.of([first]) + others)
    r = v.call(DM + "decompose_operation", op, rules)
    want = v.flat(NPR(first.term, op.term), lambda j: rest_of(PR(first.term, op.term, j), v))
    if v.it.decide(CLAIM(first.term, op.term)):
        v.same(v.it.as_seq(r), want, "claimed by the first rule")
    else:
        v.same(v.it.as_seq(r), rest_of(op.term, v), "not claimed by the first rule")
    v.same(v.it.as_seq(rules), Seq.of([first]) + others, "the rules are left alone")


@P.obligation("without rules an operation is passed through", targets=[DM + "decompose_operation"])
def _(v):
    op = v.opaque("operation", OPI)
    v.same(v.it.as_seq(v.call(DM + "decompose_operation", op, v.list([]))), Seq.of([op]), "operation")


@P.obligation("operations are decomposed one after the other, in order, with the same rules", targets=[DM + "decompose_operations"])
def _(v):
    setup(v)
    RI = prod_method(v)
    f, o = z3.Function("rule", z3.IntSort(), U), z3.Function("op", z3.IntSort(), U)
    rules = v.seq("rules", v.int("n_rules", 0), lambda i: SU(f(i), RI))

    def h(it, a, k):
        v.same(it.as_seq(a[1]), rules, "the rules")
        return v.list(rest_of(a[0].term, v))
    v.contract(DM + "decompose_operation", h)
    n = v.int("n", 0)
    ops = v.seq("ops", n, lambda i: SU(o(i), OPI))
    l = v.list(ops)
    r = v.call(DM + "decompose_operations", l, v.list(rules))
    v.same(v.it.as_seq(r), v.flat(n, lambda i: rest_of(o(i), v)), "operations")
    v.same(v.it.as_seq(l), ops, "the operations are left alone")


@P.obligation("a decomposed circuit has the decomposed operations and the circuit's width", targets=[ZM + "decompose_zquantum_circuit"])
def _(v):
    made = []
    v.contract(CM + "Circuit", lambda it, a, k: made.append(dict(zip(["operations", "n_qubits"], a), **k)) or v.opaque("decomposed circuit"))
    ops, rules, out = v.opaque("operations"), v.opaque("rules"), v.opaque("decomposed")

    def h(it, a, k):
        a = dict(zip(["operations", "decomposition_rules"], a), **k)
        v.same(a["operations"], ops, "the circuit's operations")
        v.same(a["decomposition_rules"], rules, "the given rules")
        return out
    v.contract(DM + "decompose_operations", h)
    w = v.int("width", 0)
    r = v.call(ZM + "decompose_zquantum_circuit", v.opaque("circuit", Iface("circuit", attrs={"operations": lambda it, s: ops, "n_qubits": lambda it, s: w})), rules)
    v.prove(len(made) == 1, "one circuit")
    v.same(made[0]["operations"], out, "operations")
    v.prove(made[0].get("n_qubits") is not None and v.it.eq(made[0]["n_qubits"], w), "width")
    v.same(r, v.opaque("decomposed circuit"), "result")


def u3(v, k):
    """U3(theta, phi, lambda), controlled by k qubits (0: not), on symbolic qubits"""
    t = [v.gen(x) for x in ("theta", "phi", "lambda")]
    g = v.call(v.fn(BG + "U3"), *t)
    if k:
        g = v.method(g, "controlled", k)
    q = [v.int(f"q{i}", 0) for i in range(k + 1)]
    distinct = [q[i] != q[j] for i in range(k + 1) for j in range(i)]
    for d in distinct:
        v.assume(d)
    return t, g, q, v.call(g, *q)


def lift(m, k):
    """matrix controlled by k qubits"""
    n = 2 ** k * 2
    return [[m[i - n + 2][j - n + 2] if i >= n - 2 and j >= n - 2 else (Poly.const(1) if i == j else Poly.const(0)) for j in range(n)] for i in range(n)]


def make(k):
    @P.obligation(f"U3 with {k} controls becomes rotations on the same qubits, with the same unitary up to exp(-i(phi+lambda)/2) on the target" if k else "U3 becomes rotations on the same qubit with the same unitary up to one global phase",
                  targets=[ZM + "U3GateToRotation.production", ZM + "U3GateToRotation.predicate"], bound=f"{k} controls; all angles and qubits" if k else None)
    def ob(v):
        t, g, q, op = u3(v, k)
        rule = v.call(ZM + "U3GateToRotation")
        v.prove(to_z3_bool(v.it.truth(v.method(rule, "predicate", op))), "claimed")
        r = v.it.iterate(v.method(rule, "production", op)).concrete()
        n = 2 ** (k + 1)
        u = eye(n)
        for o in r:
            v.same(v.attr(o, "qubit_indices"), tuple(q), "the same qubits")
            u = mm(rows(v, v.attr(v.attr(o, "gate"), "matrix")), u)
            v.prove(z3.Not(to_z3_bool(v.it.truth(v.method(rule, "predicate", o)))), "what is produced is not claimed again")
        phase = exp(IM * (t[1] + t[2]) * Poly.const(Fraction(-1, 2)))
        base = rows(v, v.attr(v.call(v.fn(BG + "U3"), *t), "matrix"))
        v.mat_eq(u, lift(scale(phase, base), k), "unitary")
        v.mat_eq(rows(v, v.attr(g, "matrix")), lift(base, k), "unitary of the original")
    return ob


for _k in range(4):
    make(_k)


@P.obligation("the rule claims U3 and controlled U3 only", targets=[ZM + "U3GateToRotation.predicate"], bound="every built-in gate, alone, daggered, and with 1 or 2 controls")
def _(v):
    rule = v.call(ZM + "U3GateToRotation")
    for name, (npar, _s) in gate_table().items():
        g = v.fn(BG + name)
        if npar:
            g = v.call(g, *[v.gen(f"t{i}") for i in range(npar)])
        for how, h in (("", g), ("dagger", v.attr(g, "dagger")), ("controlled", v.method(g, "controlled", 1)), ("controlled twice", v.method(g, "controlled", 2))):
            k = v.attr(h, "num_qubits")
            op = v.call(h, *range(k))
            want = name == "U3" and how != "dagger"
            got = v.it.truth(v.method(rule, "predicate", op))
            v.prove(got if want else not got if isinstance(got, bool) else z3.Not(got), f"{name} {how}")
