"""C07: circuits survive serialization.

The text of an expression is a leaf contract (str and sympify, evaluated on the real code by the bounded layer): reading
the text of an expression with at least its own symbols declared gives the expression.  Everything built on top of it -
gates under wrappers, operations, custom definitions, circuits, sets, files - is executed."""
from itertools import product as cart
from pyvc.contract import Property
from .spec import *
from . import C05

P = Property("C07", trusted=["str of an expression, read back with its symbols' names declared, is the expression (sympy's printer and parser; bounded layer)",
                             "sympy.Symbol(name) is the symbol of that name; json writes and reads JSON data unchanged (pyvc/files.py)"])
SD = C + "circuits._serde:"
GM = C + "circuits._gates:"
CM = C + "circuits._circuit:"
BG = "zquantum.core.circuits._builtin_gates"

SYMBOL = lambda n: Iface("symbol", ops={"str": lambda it, s: n})


class Leaves:
    """expressions known by name, with their symbols, and the contract of their texts"""
    def __init__(self, v):
        self.v, self.table = v, {}
        v.contract(SD + "serialize_expr", self.write)
        v.contract(SD + "deserialize_expr", self.read)
        v.contract(C + "circuits._operations:get_free_symbols", self.symbols)

    def new(self, name, *symbols):
        x = self.v.opaque("expression " + name, Iface("expression", classes=("Expr",)))
        self.table[x.term.sexpr()] = (f"<{name}>", symbols, x)
        return x

    def known(self, x):
        if not isinstance(x, SU) or x.term.sexpr() not in self.table:
            raise Unsupported("text of another expression")
        return self.table[x.term.sexpr()]

    def write(self, it, a, k):
        x = a[0] if a else k["expr"]
        if isinstance(x, Poly):
            g = list(x.gens())
            if len(g) == 1 and x == Poly.gen(g[0]):
                return g[0]
        return self.known(x)[0]

    def read(self, it, a, k):
        d = dict(zip(["expr_str", "symbol_names"], a), **k)
        names = it.as_seq(d["symbol_names"]).concrete()
        for text, symbols, x in self.table.values():
            if text == d["expr_str"]:
                return x if set(symbols) <= set(names) else self.v.opaque(f"{text} misread")
        if isinstance(d["expr_str"], str) and d["expr_str"] in names:
            return Poly.gen(d["expr_str"])
        raise Unsupported("reading another text")

    def symbols(self, it, a, k):
        out = []
        for x in it.as_seq(a[0] if a else k["parameters"]).concrete():
            for s in self.known(x)[1]:
                if s not in out:
                    out.append(s)
        return it.new_list([self.v.opaque("symbol " + s, SYMBOL(s)) for s in sorted(out)])


def definition(v, L, name, params=("u", "w"), tag=""):
    m = [L.new(f"{name}{tag}{i}", *params[:i % 3]) for i in range(4)]
    return v.call(GM + "CustomGateDefinition", name, v.it.new_arr(m, (2, 2), "sympy"), tuple(Poly.gen(p) for p in params)), m


def built_in(v, name, params):
    g = v.it.module_attr(BG, name)
    return v.it.call(g, list(params), {}) if params else g


def wrap(v, g, chain, tag=""):
    for i, w in enumerate(chain):
        g = v.it.new_obj(v.fn(GM + "Dagger"), {"wrapped_gate": g}) if w == "D" else v.it.new_obj(v.fn(GM + "ControlledGate"), {"wrapped_gate": g, "num_control_qubits": v.int(f"controls{tag}{i}", 1)})
    return g


def same_value(v, a, b, why):
    if isinstance(a, Poly) or isinstance(b, Poly):
        v.prove(isinstance(a, Poly) and isinstance(b, Poly) and a == b, why)
    else:
        v.same(a, b, why)


def same_definition(v, a, b, why):
    v.prove(isinstance(a, VObj) and a.cls is b.cls, why + ": a definition")
    v.prove(v.attr(a, "gate_name") == v.attr(b, "gate_name"), why + ": name")
    p, q = (v.it.as_seq(v.attr(x, "params_ordering")).concrete() for x in (a, b))
    v.prove(len(p) == len(q), why + ": number of parameters")
    for x, y in zip(p, q):
        same_value(v, x, y, why + ": parameters in order")
    m, n = v.attr(a, "matrix"), v.attr(b, "matrix")
    if not isinstance(m, VArr):
        raise Unsupported("matrix")
    v.prove(m.shape == n.shape, why + ": shape")
    for x, y in zip(v.it.arr_vals(m), v.it.arr_vals(n)):
        same_value(v, x, y, why + ": matrix")


def same_gate(v, a, b, why):
    it = v.it
    v.prove(isinstance(a, VObj) and a.cls is b.cls, why + ": kind of gate")
    if "wrapped_gate" in it.heap[b.ref]:
        if "num_control_qubits" in it.heap[b.ref]:
            v.prove(it.eq(v.attr(a, "num_control_qubits"), v.attr(b, "num_control_qubits")), why + ": controls")
        same_gate(v, v.attr(a, "wrapped_gate"), v.attr(b, "wrapped_gate"), why)
        return
    for n in ("name", "num_qubits", "is_hermitian"):
        v.prove(it.eq(v.attr(a, n), v.attr(b, n)), f"{why}: {n}")
    p, q = (it.as_seq(v.attr(x, "params")).concrete() for x in (a, b))
    v.prove(len(p) == len(q), why + ": number of parameters")
    for x, y in zip(p, q):
        same_value(v, x, y, why + ": parameters in order")
    f, g = v.attr(a, "matrix_factory"), v.attr(b, "matrix_factory")
    if isinstance(g, VObj):
        v.prove(isinstance(f, VObj) and f.cls is g.cls, why + ": custom")
        same_definition(v, v.attr(f, "gate_definition"), v.attr(g, "gate_definition"), why)
    else:
        v.prove(f is g, why + ": the same matrix")


def same_circuit(v, r, ops, n, why):
    it = v.it
    v.prove(isinstance(r, VObj) and r.cls is v.fn(CM + "Circuit"), why + ": a circuit")
    v.prove(it.eq(v.attr(r, "n_qubits"), n), why + ": width")
    got = it.as_seq(v.attr(r, "operations")).concrete()
    if got is None:
        raise Unsupported("operations")
    v.prove(len(got) == len(ops), why + ": number of operations")
    for a, (g, qs) in zip(got, ops):
        v.prove(isinstance(a, VObj) and a.cls is v.fn(GM + "GateOperation"), why + ": gate operation")
        v.prove(isinstance(v.attr(a, "qubit_indices"), tuple), why + ": qubits are a tuple")
        v.same(it.as_seq(v.attr(a, "qubit_indices")), Seq.of(list(qs)), why + ": qubits in order")
        same_gate(v, v.attr(a, "gate"), g, why)


def circuit(v, ops, n):
    return v.call(CM + "Circuit", v.list([v.it.new_obj(v.fn(GM + "GateOperation"), {"gate": g, "qubit_indices": tuple(q)}) for g, q in ops]), n)


def through_json(v, d):
    m = v.it.models
    return m["json.loads"](v.it, [m["json.dumps"](v.it, [d], {})], {})


def check(v, ops, why="read back"):
    n = v.int("n", 0)
    v.assume(z3.And(*[n > q for _, qs in ops for q in qs]))
    c_ = circuit(v, ops, n)
    d = v.call(SD + "to_dict", c_)
    same_circuit(v, v.call(SD + "circuit_from_dict", through_json(v, d)), ops, n, why + " through JSON")
    same_circuit(v, v.call(SD + "circuit_from_dict", d), ops, n, why)
    same_circuit(v, c_, ops, n, "the circuit itself")
    return d


CHAINS = [()] + [(a,) for a in "DC"] + list(cart("DC", repeat=2))
BASES = ("X", "RX", "U3", "custom", "custom without parameters", "custom named like a built-in gate", "custom named like a wrapper")


def base(v, L, kind, tag=""):
    if kind == "X":
        return built_in(v, "X", ())
    if kind == "RX":
        return built_in(v, "RX", [L.new("p" + tag, "b", "a")])
    if kind == "U3":
        return built_in(v, "U3", [L.new("p" + tag, "a"), L.new("q" + tag), L.new("r" + tag, "c", "a")])
    if kind == "custom":
        d, _ = definition(v, L, "my_gate" + tag)
        return v.it.call(d, [L.new("p" + tag, "a", "u"), L.new("q" + tag)], {})
    d, _ = definition(v, L, {"custom without parameters": "other" + tag, "custom named like a built-in gate": "T", "custom named like a wrapper": "Dagger"}[kind], ())
    return v.it.call(d, [], {})


for _b in BASES:
    def _mk(b):
        @P.obligation(f"one gate under every wrapper chain survives: {b}", targets=[SD + x for x in ("to_dict", "_circuit_to_dict", "_gate_operation_to_dict", "_basic_gate_to_dict", "_controlled_gate_to_dict", "_dagger_gate_to_dict", "_custom_gate_def_to_dict", "circuit_from_dict", "_gate_operation_from_dict", "_gate_from_dict", "_builtin_gate_from_dict", "_special_gate_from_dict", "_custom_gate_instance_from_dict", "custom_gate_def_from_dict", "_matrix_to_json", "_matrix_from_json")] + [CM + "Circuit.collect_custom_gate_definitions", BG + ":builtin_gate_by_name"],
                      bound="up to 2 wrappers; any qubits, widths, numbers of controls and parameter expressions")
        def _(v):
            L = Leaves(v)
            ch = v.choose(CHAINS, "wrappers")
            qs = [v.int(f"q{i}", 0) for i in range(2)]
            d = check(v, [(wrap(v, base(v, L, b), ch), qs)])
            defs = v.it.as_seq(v.it.getitem(d, "custom_gate_definitions")).concrete() if "custom_gate_definitions" in [k for k, _ in v.it.heap[d.ref]] else []
            v.prove(len(defs) == (1 if b.startswith("custom") else 0), "the definition is carried")
    _mk(_b)


@P.obligation("circuits of several gates: every custom definition used is carried once, in order of names; operations come back in order", targets=[SD + "to_dict", SD + "circuit_from_dict", CM + "Circuit.collect_custom_gate_definitions"],
              bound="3 gates, custom gates bare or wrapped; definitions shared or different")
def _(v):
    it = v.it
    L = Leaves(v)
    f, _ = definition(v, L, "f")
    g, _ = definition(v, L, "g", ())
    gates = {"f": lambda: it.call(f, [L.new("p", "a"), L.new("q")], {}), "f again": lambda: it.call(f, [L.new("r"), L.new("s", "b")], {}), "g": lambda: it.call(g, [], {}), "H": lambda: built_in(v, "H", ())}
    names = v.choose((("g", "f", "f again"), ("f", "g", "g"), ("f again", "H", "f"), ("H", "g", "f"), ("g", "g", "H"), ("H", "H", "H"), ()), "gates")
    chain = v.choose(((), ("D",), ("C", "D")), "wrapper of the first")
    v.contract(GM + "_are_matrices_equal", lambda it, a, k: _same_matrix(it, a))
    ops = [(wrap(v, gates[n](), chain if i == 0 else (), str(i)), [v.int(f"q{i}", 0)]) for i, n in enumerate(names)]
    d = check(v, ops)
    used = sorted({n[0] for n in names} & {"f", "g"})
    fields = dict(it.heap[d.ref])
    defs = it.as_seq(fields["custom_gate_definitions"]).concrete() if "custom_gate_definitions" in fields else []
    v.prove([v.it.getitem(x, "gate_name") for x in defs] == used, "definitions")


def _same_matrix(it, a):
    m, n = a
    if not isinstance(m, VArr) or not isinstance(n, VArr):
        raise Unsupported("matrices")
    x, y = it.arr_vals(m), it.arr_vals(n)
    return all(isinstance(p, SU) and isinstance(q, SU) and p.term.eq(q.term) for p, q in zip(x, y))


@P.obligation("two definitions under one name are rejected", targets=[CM + "Circuit.collect_custom_gate_definitions", SD + "to_dict", GM + "CustomGateDefinition.__eq__"], bound="2 to 3 gates, custom gates bare or wrapped")
def _(v):
    it = v.it
    L = Leaves(v)
    v.contract(GM + "_are_matrices_equal", lambda it, a, k: _same_matrix(it, a))
    f, _ = definition(v, L, "f")
    how = v.choose(("matrix", "parameters", "built-in gate"), "difference")
    if how == "matrix":
        h, _ = definition(v, L, "f", tag="other")
        other = it.call(h, [L.new("r"), L.new("s")], {})
    elif how == "parameters":
        h = v.call(GM + "CustomGateDefinition", "f", v.attr(f, "matrix"), (Poly.gen("w"), Poly.gen("u")))
        other = it.call(h, [L.new("r"), L.new("s")], {})
    else:
        f, _ = definition(v, L, "S", ())
        other = built_in(v, "S", ())
    one = it.call(f, [L.new("p"), L.new("q")] if how != "built-in gate" else [], {})
    chains = v.choose(list(cart([(), ("D",), ("C", "D")], repeat=2)), "wrappers")
    gates = [wrap(v, one, chains[0], "a"), wrap(v, other, chains[1], "b")]
    if v.choose((0, 1), "order"):
        gates.reverse()
    if v.choose((0, 1), "between"):
        gates.insert(1, built_in(v, "H", ()))
    c_ = circuit(v, [(g, [v.int(f"q{i}", 0)]) for i, g in enumerate(gates)], None)
    v.raises(ValueError, lambda: v.call(SD + "to_dict", c_), "rejected")


TD = z3.Function("operation_dict", U, U)
RB = z3.Function("operation_of_dict", U, U)
OPN = Iface("operation", attrs={"qubit_indices": C05.qseq}, classes=("GateOperation",))


@P.obligation("circuits of any length: width, operations in order, the definitions handed to every operation", targets=[SD + "_circuit_to_dict", SD + "circuit_from_dict"])
def _(v):
    it = v.it
    L = Leaves(v)
    C05.setup(v)
    n, k = v.int("n", 1), v.int("k", 1)
    f = z3.Function("operation", z3.IntSort(), U)
    ops = v.seq("operations", k, lambda i: SU(f(i), OPN))
    o = it.new_obj(v.fn(CM + "Circuit"), {"_operations": v.list(ops), "_n_qubits": n})
    d0 = v.choose((0, 1), "definitions")
    mine = [definition(v, L, "f")[0]][:d0]
    v.contract(CM + "Circuit.collect_custom_gate_definitions", lambda it, a, k: it.new_list(list(mine)))
    v.contract(SD + "_gate_operation_to_dict", lambda it, a, k: SU(TD(a[0].term), Iface("dict of an operation")))
    seen = []

    def back(it, a, k):
        x = dict(zip(["dict_", "custom_gate_defs"], a), **k)
        ds = it.as_seq(x["custom_gate_defs"]).concrete()
        seen.append(ds)
        return SU(RB(x["dict_"].term), OPN)
    v.contract(SD + "_gate_operation_from_dict", back)
    d = v.call(SD + "_circuit_to_dict", o)
    r = v.call(SD + "circuit_from_dict", d)
    v.prove(it.eq(v.attr(r, "n_qubits"), n), "width")
    v.same(it.as_seq(v.attr(r, "operations")), v.seq("expected", k, lambda i: SU(RB(TD(f(i))), OPN)), "operations in order, each from its dictionary")
    for ds in seen:
        v.prove(ds is not None and len(ds) == d0, "definitions")
        for a, b in zip(ds, mine):
            same_definition(v, a, b, "definitions")


@P.obligation("lists of circuits, files and open files; schemas are told apart", targets=[SD + x for x in ("_circuitset_to_dict", "circuitset_from_dict", "save_circuit", "load_circuit", "save_circuitset", "load_circuitset")], bound="0 to 2 circuits of up to 2 gates; one name may have different definitions in different circuits")
def _(v):
    it = v.it
    L = Leaves(v)
    v.contract(C + "serialization:ensure_open", lambda it, a, k: a[0] if isinstance(a[0], SU) and hasattr(a[0].iface, "file") else it.builtins["open"].fn(it, a, k))
    k = v.choose((0, 1, 2), "circuits")
    all_ops = [[(wrap(v, it.call(definition(v, L, "f", ("u",), str(i))[0], [L.new(f"p{i}", "a")], {}), v.choose(((), ("D",)), f"wrapper{i}"), str(i)), [v.int(f"q{i}", 0)])] + ([(built_in(v, "X", ()), [v.int("x", 0)])] if i else []) for i in range(k)]
    ns = [v.int(f"n{i}", 0) for i in range(k)]
    for ops, n in zip(all_ops, ns):
        v.assume(z3.And(*[n > q for _, qs in ops for q in qs]))
    cs = [circuit(v, ops, n) for ops, n in zip(all_ops, ns)]

    def same(rs, why):
        rs = it.as_seq(rs).concrete()
        v.prove(rs is not None and len(rs) == k, why + ": number of circuits")
        for r, ops, n in zip(rs, all_ops, ns):
            same_circuit(v, r, ops, n, why)
    d = v.call(SD + "to_dict", v.list(list(cs)))
    same(v.call(SD + "circuitset_from_dict", through_json(v, d)), "list")
    v.call(SD + "save_circuitset", v.list(list(cs)), "set.json")
    same(v.call(SD + "load_circuitset", "set.json"), "file")
    same(v.call(SD + "load_circuitset", it.call(it.builtins["open"], ["set.json", "r"], {})), "open file")
    v.raises(ValueError, lambda: v.call(SD + "circuit_from_dict", d), "a list is not a circuit")
    for i, (x, ops, n) in enumerate(zip(cs, all_ops, ns)):
        v.call(SD + "save_circuit", x, f"c{i}.json")
        same_circuit(v, v.call(SD + "load_circuit", f"c{i}.json"), ops, n, "saved circuit")
        v.raises(ValueError, lambda: v.call(SD + "circuitset_from_dict", v.call(SD + "to_dict", x)), "a circuit is not a list")
