"""Bounded contracts for C08 (circuit generators, ancilla registers, layouts and their files)."""
import io, itertools, json, os, tempfile, warnings
import numpy as np, sympy
import ref, gen
from native_lib import clause
from zquantum.core import circuits as zc
from zquantum.core.circuits import layouts as L
from zquantum.core.circuits import create_layer_of_gates, apply_gate_to_qubits, add_ancilla_register

PAR = [(zc.RX, 1), (zc.RY, 1), (zc.RZ, 1), (zc.RH, 1), (zc.PHASE, 1), (zc.U3, 3)]
NON = [zc.X, zc.H, zc.T, zc.S, zc.I]


def start(t):
    n = t.rng.randint(1, 4)
    mo = gen.ops(t.rng, n, t.rng.randint(0, 4))
    w = t.rng.choice([None, n + 1, n + 4])
    ops = [o.op for o in mo]
    return zc.Circuit(ops, n_qubits=w) if w else zc.Circuit(ops)


def pars(t, n, k):
    kind = t.rng.choice(["np", "list", "sym", "tuple"])
    p = [[t.rng.uniform(-4, 4) for _ in range(k)] for _ in range(n)]
    if kind == "np":
        return np.array(p).reshape(n, k)
    if kind == "sym":
        return [[t.rng.choice([t.rng.choice(gen.SYMS), t.rng.choice(gen.SYMS) * 2 + 1]) for _ in range(k)] for _ in range(n)]
    return [tuple(x) for x in p] if kind == "tuple" else p


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


@clause("a layer of gates: one gate per qubit, in order, with its own parameters", budget=20)
def _(t):
    for n in list(range(0, 12)) * t.n(1, 6):
        for g, k in t.rng.sample(PAR, 3):
            ps = pars(t, n, k)
            with t.case(f"{n} x {g(*[0] * k).name} {ps}"[:600], trivial=n == 0):
                keep = repr(ps)
                c = create_layer_of_gates(n, g, ps)
                t.eq(c, zc.Circuit([g(*ps[i])(i) for i in range(n)]), "layer")
                t.eq([o.qubit_indices for o in c.operations], [(i,) for i in range(n)], "qubits")
                t.ok(all(tuple(o.params) == tuple(ps[i]) for i, o in enumerate(c.operations)), "parameters of each gate")
                t.eq(c.n_qubits, n, "width")
                t.eq(repr(ps), keep, "parameters are not modified")
        for g in t.rng.sample(NON, 2):
            with t.case(f"{n} x {g}", trivial=n == 0):
                c = create_layer_of_gates(n, g)
                t.eq(list(c.operations), [g(i) for i in range(n)], "layer")
                t.eq(c.n_qubits, n, "width")


@clause("applying a gate to chosen qubits of an existing circuit", budget=30)
def _(t):
    for _ in range(t.n(150)):
        c = start(t)
        before, w, same = list(c.operations), c.n_qubits, c.operations
        k = t.rng.randint(0, 6)
        qs = t.rng.sample(range(9), k)
        dup = [q for q in qs]
        if qs and t.rng.random() < .5:
            for _d in range(t.rng.randint(1, 3)):
                q = t.rng.choice(qs)
                i = dup.index(q)
                dup.insert(t.rng.randint(i + 1, len(dup)), q)
        src = t.rng.choice([list, tuple])(dup)
        if qs == sorted(qs) and dup == list(range(len(dup))):
            src = t.rng.choice([src, range(len(dup))])
        withp = t.rng.random() < .6
        g, kk = t.rng.choice(PAR)
        ps = pars(t, k, kk)
        h = t.rng.choice(NON + [zc.T.dagger])
        with t.case(f"{len(before)} operations on {w}; qubits {list(src)}; {'params ' + repr(ps)[:200] if withp else h}", trivial=not qs):
            r = quiet(lambda: apply_gate_to_qubits(c, src, g, ps) if withp else apply_gate_to_qubits(c, src, h))
            new = [g(*ps[i])(q) for i, q in enumerate(qs)] if withp else [h(q) for q in qs]
            t.eq(list(r.operations), before + new, "existing operations followed by one gate per distinct qubit")
            t.eq(r.n_qubits, max([w] + [q + 1 for q in qs]), "width")
            t.ok(c.operations is same and list(c.operations) == before and c.n_qubits == w, "the circuit passed in is not altered")
            t.eq(list(src), dup, "the qubits passed in are not altered")
            if len(dup) != len(qs):
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    apply_gate_to_qubits(c, src, h)
                t.ok(len(ws) >= 1, "duplicates are announced by a warning")
            elif withp and qs:
                t.raises(AssertionError, lambda: apply_gate_to_qubits(c, src, g, list(ps) + [ps[0]]), "too many parameter rows")
                t.raises(AssertionError, lambda: apply_gate_to_qubits(c, src, g, list(ps)[:-1]), "too few parameter rows")


@clause("ancilla register: exactly the requested number of new qubits", budget=20)
def _(t):
    for _ in range(t.n(60)):
        c = start(t)
        before, w = list(c.operations), c.n_qubits
        for k in (0, 1, 2, t.rng.randint(3, 8)):
            with t.case(f"{[str(o) for o in before]} width {w} + {k} ancillas"[:700], trivial=k == 0):
                r = add_ancilla_register(c, k)
                t.eq(r.n_qubits, w + k, "width")
                t.eq(list(r.operations), before + [zc.I(w + i) for i in range(k)], "operations")
                t.ok(list(c.operations) == before and c.n_qubits == w, "the circuit passed in is not altered")


@clause("nearest-neighbour layout", budget=15)
def _(t):
    for n in list(range(0, 41)) + [100, 101]:
        for args in ((n,), (n, 3), (n, None, "nearest-neighbor")):
            with t.case(f"{args}", trivial=n < 2):
                conn, lay = L.build_circuit_layers_and_connectivity(*args)
                pairs = sorted(tuple(sorted(p)) for p in conn.connectivity)
                t.eq(pairs, [(i, i + 1) for i in range(n - 1)], "every adjacent pair exactly once")
                t.eq(sorted(tuple(sorted(p)) for l in lay.layers for p in l), pairs, "layers hold every pair once")
                for l in lay.layers:
                    qs = [q for p in l for q in p]
                    t.eq(len(qs), len(set(qs)), "qubits of a layer are disjoint")
                t.ok(all(isinstance(p, tuple) and len(p) == 2 for p in conn.connectivity), "pairs are tuples")
    with t.case("unknown layer type"):
        t.raises(ValueError, lambda: L.build_circuit_layers_and_connectivity(3, 3, "no-such-type"), "unknown layer type is rejected")


@clause("two-dimensional layout", budget=15)
def _(t):
    for x, y in itertools.product(range(1, t.n(9, 16)), range(1, t.n(9, 16))):
        with t.case(f"{x} x {y}", trivial=y == 1):
            conn, lay = L.build_circuit_layers_and_connectivity(x, y, "sycamore")
            cs = [tuple(p) for p in conn.connectivity]
            t.eq(len(set(map(frozenset, cs))), len(cs), "connections are distinct")
            t.ok(all(0 <= q < x * y for p in cs for q in p), "qubits of the grid")
            for a, b in cs:
                (ya, xa), (yb, xb) = divmod(a, x), divmod(b, x)
                t.ok(abs(ya - yb) == 1 and ya % 2 == 1 and xb - xa in (0, 1), f"connection {(a, b)} joins neighbours in adjacent rows")
            want = {(yy * x + xx, y2 * x + xx + d) for yy in range(1, y, 2) for y2 in (yy - 1, yy + 1) if 0 <= y2 < y for xx in range(x) for d in (0, 1) if xx + d < x}
            t.eq(set(cs), want, "all diagonal neighbours of the odd rows")
            t.eq(len(lay.layers), 8, "eight layers")
            for i, l in enumerate(lay.layers):
                qs = [q for p in l for q in p]
                t.eq(len(qs), len(set(qs)), f"qubits of layer {i} are disjoint: {l}")
                t.ok(all(tuple(p) in set(cs) for p in l), f"layer {i} is drawn from the connectivity")
            for half in (lay.layers[0:2] + lay.layers[4:6], lay.layers[2:4] + lay.layers[6:8]):
                t.eq(sorted(p for l in half for p in l), sorted(cs), "each family of four layers uses every connection once")


@clause("layers, connectivity and orderings survive saving and loading", budget=15)
def _(t):
    d = tempfile.mkdtemp(prefix="vp_c08_", dir=os.getcwd())
    for i in range(t.n(40)):
        layers = [[tuple(t.rng.sample(range(30), t.rng.choice([1, 2, 2, 3, 4]))) for _ in range(t.rng.randint(0, 4))] for _ in range(t.rng.randint(0, 4))]
        conn = [p for l in layers for p in l]
        order = t.rng.sample(range(12), t.rng.randint(0, 12))
        keep = (repr(layers), repr(conn), repr(order))
        with t.case(f"{layers} {order}"[:600], trivial=not conn):
            def trip(save, load, x):
                p = os.path.join(d, "f.json")
                save(x, p)
                a = load(p)
                with open(p) as f:
                    b = load(f)
                return a, b
            for r in trip(L.save_circuit_layers, L.load_circuit_layers, L.CircuitLayers(layers)) + (L.CircuitLayers.from_dict(L.CircuitLayers(layers).to_dict()),
                                                                                                L.CircuitLayers.from_dict(json.loads(json.dumps(L.CircuitLayers(layers).to_dict())))):
                t.eq(r.layers, layers, "layers")
            for r in trip(L.save_circuit_connectivity, L.load_circuit_connectivity, L.CircuitConnectivity(conn)) + (L.CircuitConnectivity.from_dict(json.loads(json.dumps(L.CircuitConnectivity(conn).to_dict()))),):
                t.eq(r.connectivity, conn, "connectivity")
            for r in trip(L.save_circuit_ordering, L.load_circuit_ordering, order):
                t.eq(r, order, "ordering")
            t.eq((repr(layers), repr(conn), repr(order)), keep, "arguments are not modified")
    for args in ((5,), (4, 3, "sycamore"), (3, 4, "sycamore")):
        with t.case(f"built layout {args}"):
            c, l = L.build_circuit_layers_and_connectivity(*args)
            p = os.path.join(d, "g.json")
            L.save_circuit_layers(l, p)
            t.eq(L.load_circuit_layers(p).layers, l.layers, "layers")
            L.save_circuit_connectivity(c, p)
            t.eq(L.load_circuit_connectivity(p).connectivity, c.connectivity, "connectivity")
