"""C08: circuit generators and layouts; any number of qubits, layers and groups unless a bound is stated."""
from pyvc.contract import Property
from .spec import *

P = Property("C08", trusted=["json writes and reads JSON data unchanged (pyvc/files.py)"])
CM = C + "circuits._circuit:"
GM = C + "circuits._gates:"
GEN = C + "circuits._generators:"
LM = C + "circuits.layouts:"
BG = C + "circuits._builtin_gates:"

OPI = Iface("operation")


def circuits(v):
    """contract of circuit addition (proved in C05): the operations of the left, then the operation on the right"""
    cls = v.fn(CM + "Circuit")

    def new(s):
        return v.it.new_obj(cls, {"_operations": v.list(s), "_n_qubits": v.opaque("some width")})

    def add(it, a, k):
        if not (isinstance(a[1], SU) and a[1].iface is OPI):
            raise Unsupported("sum of a circuit and something else")
        return new(Seq(it.as_seq(it.getattr(a[0], "operations")).segs + (Unit(a[1]),)))
    v.contract(CM + "Circuit.__add__", add)
    v.contract(CM + "Circuit", lambda it, a, k: new(it.as_seq(dict(zip(["operations", "n_qubits"], a), **k).get("operations", ()))))
    return new


def ops(v, c_):
    return v.it.as_seq(v.attr(c_, "operations"))


ON = z3.Function("gate_on", U, z3.IntSort(), U)
MK = z3.Function("gate_with", z3.RealSort(), z3.RealSort(), U)


def gate(v):
    return v.opaque("gate", Iface("gate", call=lambda it, g, a, k: SU(ON(g.term, a[0] if is_z3(a[0]) else z3.IntVal(a[0])), OPI)))


def factory(v):
    G = Iface("made gate", call=lambda it, g, a, k: SU(ON(g.term, a[0] if is_z3(a[0]) else z3.IntVal(a[0])), OPI))
    return v.opaque("factory", Iface("factory", call=lambda it, f, a, k: SU(MK(to_z3_real(a[0]), to_z3_real(a[1])), G) if len(a) == 2 else it._unsup("number of parameters")))


def distinct(v, n, q):
    if isinstance(n, int):
        if n > 1:
            v.it.axioms.append(z3.Distinct(*[q(i) for i in range(n)]))
    else:
        i, j = z3.Ints("di dj")
        v.it.axioms.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), q(i) != q(j)), patterns=[z3.MultiPattern(q(i), q(j))]))


@P.obligation("a layer on distinct qubits: the old operations, then one gate per qubit in the listed order", targets=[GEN + "apply_gate_to_qubits"])
def _(v):
    new = circuits(v)
    n = v.int("n", 0)
    q = v.int_fn("qubit", 0)
    distinct(v, n, q)
    qs = v.list(v.seq("qubits", n, lambda i: q(i)))
    old = v.seq("old", v.int("m", 0), lambda i: SU(z3.Function("old", z3.IntSort(), U)(i), OPI))
    c_ = new(old)
    r = v.call(GEN + "apply_gate_to_qubits", c_, qs, gate(v))
    g = gate(v)
    v.same(ops(v, r), old + v.seq("layer", n, lambda i: SU(ON(g.term, q(i)), OPI)), "operations")
    v.same(ops(v, c_), old, "the circuit is left alone")
    a, b = v.real_fn("first"), v.real_fn("second")
    params = v.list(v.seq("parameters", n, lambda i: (a(i), b(i))))
    r = v.call(GEN + "apply_gate_to_qubits", c_, qs, factory(v), params)
    v.same(ops(v, r), old + v.seq("layer", n, lambda i: SU(ON(MK(a(i), b(i)), q(i)), OPI)), "operations with parameters")
    v.same(ops(v, c_), old, "the circuit is left alone (parameters)")


@P.obligation("listed twice, a qubit gets one gate, at its first place, with the parameters of that place", targets=[GEN + "apply_gate_to_qubits"], bound="4 lists of up to 6 indices")
def _(v):
    new = circuits(v)
    old = v.seq("old", v.int("m", 0), lambda i: SU(z3.Function("old", z3.IntSort(), U)(i), OPI))
    g = gate(v)
    for qs in ([3, 1, 3], [0, 0, 0], [5, 2, 2, 5, 9, 1], [100, 3, 64, 3, 100]):
        uniq = list(dict.fromkeys(qs))
        r = v.call(GEN + "apply_gate_to_qubits", new(old), v.list(qs), g)
        v.same(ops(v, r), old + Seq.of([SU(ON(g.term, z3.IntVal(q)), OPI) for q in uniq]), f"{qs}")
        ps = [(z3.Real(f"a{i}"), z3.Real(f"b{i}")) for i in range(len(uniq))]
        r = v.call(GEN + "apply_gate_to_qubits", new(old), v.list(qs), factory(v), v.list(ps))
        v.same(ops(v, r), old + Seq.of([SU(ON(MK(*p), z3.IntVal(q)), OPI) for q, p in zip(uniq, ps)]), f"{qs} with parameters")


@P.obligation("a layer of gates: one gate on each qubit 0 .. n-1 in order, with its parameters", targets=[GEN + "create_layer_of_gates"])
def _(v):
    circuits(v)
    n = v.int("n", 0)
    g = gate(v)
    v.same(ops(v, v.call(GEN + "create_layer_of_gates", n, g)), v.seq("layer", n, lambda i: SU(ON(g.term, i), OPI)), "operations")
    a, b = v.real_fn("first"), v.real_fn("second")
    params = v.list(v.seq("parameters", n, lambda i: (a(i), b(i))))
    v.same(ops(v, v.call(GEN + "create_layer_of_gates", n, factory(v), params)), v.seq("layer", n, lambda i: SU(ON(MK(a(i), b(i)), i), OPI)), "operations with parameters")


@P.obligation("an ancilla register: the old operations, then an identity on each of the next qubits", targets=[GEN + "add_ancilla_register"])
def _(v):
    cls = v.fn(CM + "Circuit")
    w, k = v.int("width", 1), v.int("ancillas", 0)
    old = v.opaque_seq("old", v.int("m", 0))

    def add(it, a, kw):
        q = it.getattr(a[1], "qubit_indices")
        wide = it.builtins["max"].fn(it, [it.getattr(a[0], "n_qubits"), it.binop("+", it.getitem(q, 0), 1)], {})
        return it.new_obj(cls, {"_operations": v.list(it.as_seq(it.getattr(a[0], "operations")) + Seq.of([a[1]])), "_n_qubits": wide})
    v.contract(CM + "Circuit.__add__", add)
    c_ = v.it.new_obj(cls, {"_operations": v.list(old), "_n_qubits": w})
    r = v.call(GEN + "add_ancilla_register", c_, k)
    ident = v.fn(BG + "I")
    v.same(ops(v, r), old + v.seq("ancillas", k, lambda i: v.call(ident, w + i)), "operations")
    v.same(ops(v, c_), old, "the circuit is left alone")
    v.prove(v.it.eq(v.attr(c_, "n_qubits"), w), "the circuit's width is left alone")


@P.obligation("an ancilla register widens the circuit by exactly its size", targets=[GEN + "add_ancilla_register", CM + "Circuit.__add__", CM + "Circuit.__init__"], bound="0 to 3 ancillas; any circuit width")
def _(v):
    w = v.int("width", 1)
    for k in range(4):
        c_ = v.call(CM + "Circuit", v.list([]), w)
        r = v.call(GEN + "add_ancilla_register", c_, k)
        v.prove(v.it.eq(v.attr(r, "n_qubits"), w + k), f"{k} ancillas")
        v.prove(v.it.eq(v.attr(c_, "n_qubits"), w), f"{k} ancillas: the circuit is left alone")


@P.obligation("nearest neighbours: the even layer, the odd layer, and their concatenation as connectivity", targets=[LM + "build_circuit_layers_and_connectivity", LM + "_build_circuit_layers_and_connectivity_nearest_neighbors"])
def _(v):
    n = v.int("n", 1)
    con, lay = v.call(LM + "build_circuit_layers_and_connectivity", n)
    ls = v.it.as_seq(v.attr(lay, "layers")).concrete()
    v.prove(len(ls) == 2, "two layers")
    z = lambda x: x if is_z3(x) else z3.IntVal(x)
    half = lambda x: z3.If(x > 0, x / 2, 0) if is_z3(x) else max(x, 0) // 2
    even = v.seq("even", half(n), lambda i: (2 * i, 2 * i + 1))
    odd = v.seq("odd", half(n - 1), lambda i: (2 * i + 1, 2 * i + 2))
    v.same(v.it.as_seq(ls[0]), even, "even layer: 2i, 2i+1 (disjoint)")
    v.same(v.it.as_seq(ls[1]), odd, "odd layer: 2i+1, 2i+2 (disjoint)")
    v.same(v.it.as_seq(v.attr(con, "connectivity")), even + odd, "every adjacent pair once")
    x = v.opaque("y")
    v.raises(ValueError, lambda: v.call(LM + "build_circuit_layers_and_connectivity", n, x, "some-other-type"), "unknown layer types are rejected")


@P.obligation("layers, connectivity and orderings survive dictionaries and files", targets=[LM + f for f in ("CircuitLayers.to_dict", "CircuitLayers.from_dict", "CircuitConnectivity.to_dict", "CircuitConnectivity.from_dict", "save_circuit_layers", "load_circuit_layers", "save_circuit_connectivity", "load_circuit_connectivity", "save_circuit_ordering", "load_circuit_ordering")])
def _(v):
    it = v.it
    n = v.int("n_layers", 0)
    g, s = v.int_fn("groups", 0), z3.Function("size", z3.IntSort(), z3.IntSort(), z3.IntSort())
    q = z3.Function("qubit", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    i, j = z3.Ints("li lj")
    it.axioms.append(z3.ForAll([i, j], s(i, j) >= 0, patterns=[s(i, j)]))
    layers = lambda: v.list(v.seq("layers", n, lambda i: v.list(v.seq("layer", g(i), lambda j: v.seq("group", s(i, j), lambda k: q(i, j, k))))))
    L = v.call(LM + "CircuitLayers", layers())
    ok = lambda r, why: v.same(v.attr(r, "layers"), layers(), why)
    ok(v.call(v.attr(v.fn(LM + "CircuitLayers"), "from_dict"), v.method(L, "to_dict")), "layers: dictionary")
    v.call(LM + "save_circuit_layers", L, "l.json")
    ok(v.call(LM + "load_circuit_layers", "l.json"), "layers: file")
    ok(v.call(LM + "load_circuit_layers", v.call(it.builtins["open"], "l.json", "r")), "layers: file object")
    ok(L, "layers: argument")
    m = v.int("n_pairs", 0)
    s2, q2 = v.int_fn("psize", 0), z3.Function("pqubit", z3.IntSort(), z3.IntSort(), z3.IntSort())
    pairs = lambda: v.list(v.seq("pairs", m, lambda i: v.seq("pair", s2(i), lambda k: q2(i, k))))
    K = v.call(LM + "CircuitConnectivity", pairs())
    ok = lambda r, why: v.same(v.attr(r, "connectivity"), pairs(), why)
    ok(v.call(v.attr(v.fn(LM + "CircuitConnectivity"), "from_dict"), v.method(K, "to_dict")), "connectivity: dictionary")
    v.call(LM + "save_circuit_connectivity", K, "k.json")
    ok(v.call(LM + "load_circuit_connectivity", "k.json"), "connectivity: file")
    ok(v.call(LM + "load_circuit_connectivity", v.call(it.builtins["open"], "k.json", "r")), "connectivity: file object")
    ok(K, "connectivity: argument")
    o = v.seq("ordering", m, lambda i: s2(i))
    v.call(LM + "save_circuit_ordering", v.list(o), "o.json")
    v.same(v.call(LM + "load_circuit_ordering", "o.json"), v.list(o), "ordering: file")
    v.same(v.call(LM + "load_circuit_ordering", v.call(it.builtins["open"], "o.json", "r")), v.list(o), "ordering: file object")
