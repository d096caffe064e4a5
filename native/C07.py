"""Bounded contracts for C07 (circuit serialization)."""
import copy, io, itertools, json, math, os, tempfile
import numpy as np, sympy
import ref, gen
from native_lib import clause
from zquantum.core import circuits as zc
from zquantum.core.circuits import _serde


def plain(t, x, where="$"):
    if type(x) is dict:
        for k, v in x.items():
            t.ok(type(k) is str, f"{where}: key {k!r} is a string")
            plain(t, v, where + "." + k)
    elif type(x) is list:
        for i, v in enumerate(x):
            plain(t, v, f"{where}[{i}]")
    else:
        t.ok(x is None or type(x) in (str, int, float, bool), f"{where}: {type(x).__name__} is not a JSON type")


def custom_name(o):
    t = o.g.text
    return t.split(".")[0].split("(")[0] if t.startswith("custom_") else None


def structure(g):
    if isinstance(g, zc._gates.ControlledGate):
        return ("C", g.num_control_qubits, structure(g.wrapped_gate))
    if isinstance(g, zc._gates.Dagger):
        return ("D", structure(g.wrapped_gate))
    return (type(g).__name__, g.name, g.num_qubits, g.is_hermitian, type(g.matrix_factory).__name__, len(g.params))


def same_circuit(t, got, c, mo, e, what, matrices=True):
    t.ok(type(got) is zc.Circuit, f"{what}: is a circuit")
    t.eq(got.n_qubits, c.n_qubits, f"{what}: width")
    t.eq(len(got.operations), len(c.operations), f"{what}: number of operations")
    t.eq(got, c, f"{what}: equal circuit")
    t.eq(list(got.free_symbols), list(c.free_symbols), f"{what}: free symbols")
    for i, (a, b) in enumerate(zip(got.operations, c.operations)):
        t.ok(isinstance(a, zc.GateOperation), f"{what}: operation {i} type")
        t.eq(a.qubit_indices, b.qubit_indices, f"{what}: qubits of operation {i}")
        t.eq(structure(a.gate), structure(b.gate), f"{what}: gate structure of operation {i}")
        for p, q in zip(a.params, b.params):
            t.ok(abs(gen.val(sympy.sympify(p), e) - gen.val(sympy.sympify(q), e)) < 1e-12, f"{what}: parameter {p} of operation {i}, expected {q}")
        if matrices and mo:
            t.close(gen.evalm(a.gate.matrix, e), mo[i].g.matrix(e), f"{what}: matrix of operation {i}", 1e-9)


def rand(t, **kw):
    n = t.rng.randint(1, 5)
    mo = gen.ops(t.rng, n, t.rng.randint(0, 4), **kw)
    w = t.rng.choice([None, n, n + 3])
    ops = [o.op for o in mo]
    return (zc.Circuit(ops, n_qubits=w) if w else zc.Circuit(ops)), mo


@clause("dictionary and JSON round trip of circuits", budget=60)
def _(t):
    for _ in range(t.n(70)):
        c, mo = rand(t)
        e = gen.env(t.rng)
        before = (c.n_qubits, list(c.operations), list(map(str, c.operations)))
        with t.case(f"{gen.text(mo)} width {c.n_qubits}", trivial=not mo):
            d = zc.to_dict(c)
            plain(t, d)
            t.eq((c.n_qubits, list(c.operations), list(map(str, c.operations))), before, "serializing leaves the circuit unchanged")
            used = sorted({custom_name(o) for o in mo} - {None})
            t.eq([x["gate_name"] for x in d.get("custom_gate_definitions", [])], used, "custom gate definitions carried")
            frozen = copy.deepcopy(d)
            same_circuit(t, zc.circuit_from_dict(d), c, mo, e, "from dict")
            t.eq(d, frozen, "reading leaves the dictionary unchanged")
            same_circuit(t, zc.circuit_from_dict(json.loads(json.dumps(d))), c, mo, e, "from JSON", matrices=False)
            t.eq(zc.to_dict(zc.circuit_from_dict(json.loads(json.dumps(d)))), zc.to_dict(zc.circuit_from_dict(d)), "second serialization")
            t.eq(sorted(x.gate_name for x in c.collect_custom_gate_definitions()), used, "collected definitions")


@clause("every gate under every wrapper chain survives", budget=60)
def _(t):
    steps = {"D": lambda g: g.dagger, "C1": lambda g: g.controlled(1), "C2": lambda g: g.controlled(2)}
    seqs = [s for l in range(4) for s in itertools.product(steps, repeat=l)]
    defs = gen.custom_defs()
    a, b, c_ = gen.SYMS[:3]
    for d, k, _f in defs + [(n, k, None) for n, (k, q, f) in sorted(ref.GATES.items())]:
        ps = t.rng.choice([[a + 2 * b, b, c_ / 3], [0.3, -a * b, 1], [c_, 2.5, a - c_]])[:k]
        g0 = (d(*ps) if k else d()) if not isinstance(d, str) else (zc.builtin_gate_by_name(d)(*ps) if k else zc.builtin_gate_by_name(d))
        for s in seqs:
            g = g0
            for w in s:
                g = steps[w](g)
            with t.case(f"{g0} {'.'.join(s)}"):
                qs = t.rng.sample(range(g.num_qubits + 2), g.num_qubits)
                c = zc.Circuit([g(*qs)])
                r = zc.circuit_from_dict(json.loads(json.dumps(zc.to_dict(c))))
                t.eq(r, c, "equal circuit")
                t.eq(structure(r.operations[0].gate), structure(g), "gate structure")
                t.eq(r.operations[0].qubit_indices, tuple(qs), "qubits")
                t.eq(list(r.free_symbols), list(c.free_symbols), "free symbols")


@clause("lists of circuits, files and file objects", budget=40)
def _(t):
    d = tempfile.mkdtemp(prefix="vp_c07_", dir=os.getcwd())
    for i in range(t.n(14)):
        cs, e = [rand(t) for _ in range(t.rng.randint(0, 4))], gen.env(t.rng)
        cl = [c for c, _ in cs]
        with t.case(f"{[gen.text(m) for _, m in cs]}", trivial=not cs):
            dd = zc.to_dict(list(cl))
            plain(t, dd)
            outs = [zc.circuitset_from_dict(dd)]
            p = os.path.join(d, f"s{i}.json")
            zc.save_circuitset(cl, p)
            outs.append(zc.load_circuitset(p))
            b = io.StringIO()
            zc.save_circuitset(cl, b)
            b.seek(0)
            outs.append(zc.load_circuitset(b))
            for o in outs:
                t.ok(isinstance(o, list), "a list")
                t.eq(len(o), len(cl), "number of circuits")
                for got, (c, mo) in zip(o, cs):
                    same_circuit(t, got, c, mo, e, "circuit of the set", matrices=False)
            for j, (c, mo) in enumerate(cs):
                p = os.path.join(d, f"c{i}_{j}.json")
                zc.save_circuit(c, p)
                same_circuit(t, zc.load_circuit(p), c, mo, e, "saved circuit", matrices=False)
                b = io.StringIO()
                zc.save_circuit(c, b)
                b.seek(0)
                same_circuit(t, zc.load_circuit(b), c, mo, e, "circuit written to a file object", matrices=False)
    with t.case("the schemas are told apart"):
        x = zc.Circuit([zc.X(0)])
        t.raises(ValueError, lambda: zc.circuit_from_dict(zc.to_dict([x])), "a circuit set is not a circuit")
        t.raises(ValueError, lambda: zc.circuitset_from_dict(zc.to_dict(x)), "a circuit is not a circuit set")


@clause("two definitions under one name are rejected", budget=25)
def _(t):
    a, b = gen.SYMS[:2]
    def df(name, m, ps):
        return zc.CustomGateDefinition(name, sympy.Matrix(m), ps)
    e = sympy.exp(sympy.I * a)
    base = df("G", [[1, 0], [0, e]], (a,))
    variants = {
        "another entry": df("G", [[1, 0], [0, sympy.exp(-sympy.I * a)]], (a,)),
        "another first entry": df("G", [[-1, 0], [0, e]], (a,)),
        "another last entry": df("G", [[1, 0], [0, e * sympy.I]], (a,)),
        "another off-diagonal entry": df("G", [[0, 1], [e, 0]], (a,)),
        "another size": df("G", sympy.diag(1, 1, 1, e).tolist(), (a,)),
        "another parameter": df("G", [[1, 0], [0, sympy.exp(sympy.I * b)]], (b,)),
        "more parameters": df("G", [[1, 0], [0, e]], (a, b)),
        "no parameters": df("G", [[1, 0], [0, 1]], ()),
        "slightly different": df("G", [[1, 0], [0, e * sympy.exp(0.001 * sympy.I)]], (a,)),
    }
    wraps = {"": lambda g: g, "dagger": lambda g: g.dagger, "controlled": lambda g: g.controlled(1), "dagger of controlled": lambda g: g.controlled(2).dagger.controlled(1)}

    def op(d, w):
        g = wraps[w](d(*[0.25] * len(d.params_ordering)))
        return g(*range(g.num_qubits))
    for vn, v in variants.items():
        for w1, w2 in itertools.product(wraps, repeat=2):
            for mid in ([], [zc.X(0), zc.CNOT(0, 1)]):
                with t.case(f"{vn}; {w1 or 'plain'} then {w2 or 'plain'}, {len(mid)} gates between"):
                    for first, second in ((base, v), (v, base)):
                        c = zc.Circuit([op(first, w1)] + mid + [op(second, w2)])
                        t.raises(ValueError, lambda: zc.to_dict(c), "conflicting definitions")
                        t.raises(ValueError, lambda: list(c.collect_custom_gate_definitions()), "conflicting definitions")
    for vn, v in variants.items():
        for w in wraps:
            with t.case(f"different circuits may use one name: {vn} {w}"):
                cs = [zc.Circuit([op(base, w)]), zc.Circuit([zc.H(0)]), zc.Circuit([op(v, w)]), zc.Circuit([op(v, ""), op(v, w)]), zc.Circuit([op(base, "")])]
                back = zc.circuitset_from_dict(json.loads(json.dumps(zc.to_dict(cs))))
                t.eq(back, cs, "circuits of a set keep their own definitions")
                for c, b in zip(cs, back):
                    for x, y in zip(c.operations, b.operations):
                        t.eq(y.gate.matrix, x.gate.matrix, "matrix")
                for c in cs + cs[::-1]:
                    t.eq(zc.circuit_from_dict(zc.to_dict(c)), c, "one after the other")
    other = df("F", [[0, 1], [1, 0]], ())
    with t.case("the same definition used twice is carried once, sorted by name"):
        c = zc.Circuit([op(base, "controlled"), op(other, "dagger"), op(base, ""), op(df("G", [[1, 0], [0, e]], (a,)), "dagger")])
        t.eq([d["gate_name"] for d in zc.to_dict(c)["custom_gate_definitions"]], ["F", "G"], "definitions")
        t.eq(zc.circuit_from_dict(zc.to_dict(c)), c, "round trip")
    for n in ("T", "U3", "CNOT", "RX", "Control", "Dagger", "Callable", "_gates", "make_parametric_gate_prototype"):
        d = df(n, [[1, 0], [0, e]], (a,))
        for w1, w2 in itertools.product(wraps, repeat=2):
            with t.case(f"custom gate named {n}: {w1 or 'plain'} and {w2 or 'plain'}"):
                c = zc.Circuit([op(d, w1), zc.H.controlled(1).dagger(0, 1), zc.RY(a).dagger(2), op(d, w2), op(other, w1)])
                r = zc.circuit_from_dict(json.loads(json.dumps(zc.to_dict(c))))
                t.eq(r, c, "round trip")
                for x, y in zip(c.operations, r.operations):
                    t.eq(y.gate.matrix, x.gate.matrix, "matrix")
        if n in ("T", "U3", "CNOT", "RX"):
            g = getattr(zc, n)
            for w1, w2 in itertools.product(wraps, repeat=2):
                with t.case(f"custom gate named {n} and the built-in {n}: {w1 or 'plain'} and {w2 or 'plain'}"):
                    b = wraps[w2]({"U3": lambda: g(.1, .2, .3), "RX": lambda: g(.1)}.get(n, lambda: g)())
                    for l in ([op(d, w1), b(*range(b.num_qubits))], [b(*range(b.num_qubits)), zc.X(0), op(d, w1)]):
                        t.raises(ValueError, lambda: zc.to_dict(zc.Circuit(l)), "conflicting definitions")
    with t.case("missing definition is rejected on reading"):
        d = zc.to_dict(zc.Circuit([op(base, "")]))
        del d["custom_gate_definitions"]
        t.raises(ValueError, lambda: zc.circuit_from_dict(d), "missing definition")


NAMES = ["beta", "gamma", "I", "S", "N", "O", "Q", "E", "zeta", "pi", "theta", "Theta", "x", "x_1", "theta_10", "a1", "p[0]", "p[12]", "long name_0".replace(" ", "_"),
         "re", "im", "sin", "gamma[3]", "lambda[2]", "is", "RX", "C", "lambda", "psi", "alpha_beta", "_a", "Symbol"]


@clause("symbols of any name come back as those symbols", budget=30)
def _(t):
    cu = gen.custom_defs()[0][0]
    for n in NAMES:
        s = sympy.Symbol(n)
        others = [sympy.Symbol(x) for x in ("y", "w[1]", "gamma") if x != n and not (x.startswith(n + "[") or n.startswith(x + "["))]
        for form in ("s", "2*s", "s+y", "y*s/3-1"):
            y = t.rng.choice(others)
            ex = {"s": s, "2*s": 2 * s, "s+y": s + y, "y*s/3-1": y * s / 3 - 1}[form]
            for nm, g in (("RX", zc.RX(ex)), ("U3", zc.U3(0.1, ex, y)), ("custom", cu(y, ex)), ("controlled custom", cu(ex, 1).controlled(1)), ("dagger", zc.RZ(ex).dagger)):
                with t.case(f"{nm} of {ex}"):
                    c = zc.Circuit([g(*range(g.num_qubits))])
                    r = zc.circuit_from_dict(json.loads(json.dumps(zc.to_dict(c))))
                    t.eq(list(r.free_symbols), list(c.free_symbols), "free symbols")
                    t.eq(r, c, "equal circuit")
    for n1, n2 in (("beta", "gamma"), ("I", "S"), ("q[0]", "q[1]"), ("u", "v")):
        with t.case(f"definition with parameters {n1}, {n2}"):
            p, q = sympy.Symbol(n1), sympy.Symbol(n2)
            d = zc.CustomGateDefinition("G2", sympy.Matrix([[p, q], [-q, p]]), (q, p))
            r = _serde.custom_gate_def_from_dict(json.loads(json.dumps(zc.to_dict(d))))
            t.eq(r, d, "definition")
            t.eq(r.params_ordering, d.params_ordering, "parameter ordering")
            c = zc.Circuit([d(0.3, p)(0), d(q, p + q).dagger(1), d(sympy.Symbol("z"), 2)(0)])
            t.eq(zc.circuit_from_dict(zc.to_dict(c)), c, "circuit of it")


@clause("numbers keep their value", budget=20)
def _(t):
    vals = [0, 1, -1, 7, 0.1, -2.5, 1e-9, 1e12, math.pi, 1 / 3, np.float64(0.1), np.float32(0.5), np.int64(3), sympy.pi / 7, sympy.Rational(2, 7), sympy.sqrt(2), sympy.E]
    vals += [t.rng.uniform(-10, 10) for _ in range(t.n(20))]
    for v in vals:
        for g in (zc.RX(v), zc.U3(0.5, v, -1).dagger, gen.custom_defs()[2][0](v, 0.5).controlled(2)):
            with t.case(f"{g} {type(v).__name__}"):
                c = zc.Circuit([g(*range(g.num_qubits))])
                r = zc.circuit_from_dict(json.loads(json.dumps(zc.to_dict(c))))
                t.eq(r, c, "equal circuit")
                for a, b in zip(r.operations[0].params, g.params):
                    t.ok(abs(float(a) - float(b)) <= 1e-13 * max(1, abs(float(b))), f"parameter {b!r} came back as {a!r}")
    with t.case("qubit indices and widths given as numpy integers"):
        c = zc.Circuit([zc.CNOT(*np.array([2, 0])), zc.X.controlled(np.int64(2))(*np.arange(3))])
        d = zc.to_dict(c)
        plain(t, d)
        t.eq(zc.circuit_from_dict(json.loads(json.dumps(d))), c, "round trip")
    for z in (2 + 3j, -1j, 0.25 - 0.5j):
        with t.case(f"complex parameter {z}"):
            d = gen.custom_defs()[-1][0]
            g = zc.CustomGateDefinition("cx", sympy.Matrix([[1, gen.SYMS[0]], [0, 1]]), (gen.SYMS[0],))(z)
            c = zc.Circuit([g(0)])
            t.eq(zc.circuit_from_dict(json.loads(json.dumps(zc.to_dict(c)))), c, "round trip")
