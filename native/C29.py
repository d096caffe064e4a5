"""Bounded contracts for C29 (artifacts and graphs)."""
import itertools, json, random
import networkx as nx, numpy as np
from scipy.optimize import OptimizeResult
from native_lib import clause, Violation
from zquantum.core import graph as g
from zquantum.core.distribution import MeasurementOutcomeDistribution as MOD
from zquantum.core.history.recorder import HistoryEntry, HistoryEntryWithArtifacts, recorder
from zquantum.core.serialization import OrquestraDecoder, OrquestraEncoder, load_optimization_results, save_optimization_results
from zquantum.core.utils import ValueEstimate


def same(a, b, path="object"):
    """None if b is a decoded image of a (tuples become lists), else where they differ"""
    if isinstance(a, OptimizeResult):
        if not isinstance(b, OptimizeResult):
            return f"{path}: {type(b).__name__} instead of OptimizeResult"
        return same(dict(a), dict(b), path)
    if isinstance(a, ValueEstimate):
        return None if isinstance(b, ValueEstimate) and float(a) == float(b) and a.precision == b.precision else f"{path}: {b!r} ± {getattr(b, 'precision', 'nothing')!r} instead of {a!r} ± {a.precision!r}"
    if isinstance(a, np.ndarray):
        ok = isinstance(b, (np.ndarray, np.generic)) and np.shape(b) == a.shape and np.array_equal(np.asarray(b), a)
        return None if ok else f"{path}: {b!r} instead of {a!r}"
    if isinstance(a, (HistoryEntry, HistoryEntryWithArtifacts)):
        if type(a) is not type(b):
            return f"{path}: {type(b).__name__} instead of {type(a).__name__}"
        for f in a._fields:
            r = same(getattr(a, f), getattr(b, f), f"{path}.{f}")
            if r:
                return r
        return None
    if isinstance(a, MOD):
        ok = isinstance(b, MOD) and b.distribution_dict == a.distribution_dict and all(isinstance(k, tuple) for k in b.distribution_dict)
        return None if ok else f"{path}: {b!r} instead of {a!r}"
    if isinstance(a, dict):
        if type(b) is not dict or set(a) != set(b):
            return f"{path}: {b!r} instead of {a!r}"
        for k in a:
            r = same(a[k], b[k], f"{path}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return f"{path}: {b!r} instead of {a!r}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    return None if type(a) is type(b) and a == b else f"{path}: {b!r} instead of {a!r}"


def rand_array(t, ndim=None):
    shape = tuple(t.rng.randint(1, 3) for _ in range(t.rng.randint(1, 3) if ndim is None else ndim))
    a = t.np_rng.normal(size=shape)
    k = t.rng.choice("rcizm")
    if k == "c":
        a = a + 1j * t.np_rng.normal(size=shape)
    elif k == "i":
        a = t.np_rng.randint(-5, 5, size=shape)
    elif k == "z":
        a = a.astype(complex)
    elif k == "m":
        a = 1j * a
    return a


def rand_mod(t):
    n = t.rng.randint(1, 4)
    base = t.rng.choice([2, 2, 3, 12])
    keys = list({tuple(t.rng.randrange(base) for _ in range(n)) for _ in range(t.rng.randint(1, 6))})
    p = t.np_rng.random_sample(len(keys)) + 0.01
    p = (p / p.sum()).tolist()
    return MOD(dict(zip(keys, p)), normalize=t.rng.random() < 0.8)


def rand_est(t):
    return ValueEstimate(t.rng.gauss(0, 1), t.rng.choice([None, 0.0, t.rng.random()]))


def rand_entry(t, depth):
    n, v = t.rng.randint(0, 9), t.rng.choice([rand_est(t), t.rng.random(), rand_array(t)])
    p = rand_array(t)
    if t.rng.random() < 0.5:
        return HistoryEntry(n, p, v)
    return HistoryEntryWithArtifacts(n, p, v, {t.rng.choice(["bits", "energy", "a1"]): rand_obj(t, depth - 1) for _ in range(t.rng.randint(0, 3))})


def rand_result(t, depth):
    kw = dict(opt_value=t.rng.choice([rand_est(t), 1.5]), opt_params=rand_array(t, 1), nit=t.rng.randint(0, 5), fev=None)
    kw["history"] = [rand_entry(t, depth - 1) for _ in range(t.rng.randint(0, 3))]
    if t.rng.random() < 0.5:
        kw["gradient_history"] = [rand_entry(t, depth - 1) for _ in range(t.rng.randint(0, 2))]
    if t.rng.random() < 0.3:
        kw["extra"] = rand_obj(t, depth - 1)
    return OptimizeResult(**kw)


def rand_obj(t, depth):
    leaf = [lambda: rand_array(t), lambda: rand_est(t), lambda: rand_mod(t), lambda: t.rng.choice([None, True, 3, -0.25, "text", ""]),
            lambda: tuple(t.rng.randint(0, 1) for _ in range(t.rng.randint(1, 5))), lambda: "".join(t.rng.choice("01") for _ in range(4))]
    if depth <= 0 or t.rng.random() < 0.35:
        return t.rng.choice(leaf)()
    return t.rng.choice([
        lambda: [rand_obj(t, depth - 1) for _ in range(t.rng.randint(0, 4))],
        lambda: tuple(rand_obj(t, depth - 1) for _ in range(t.rng.randint(0, 3))),
        lambda: {t.rng.choice(["x", "energy", "k_1", "a b", "counts"]): rand_obj(t, depth - 1) for _ in range(t.rng.randint(0, 4))},
        lambda: rand_entry(t, depth),
        lambda: rand_result(t, depth)])()


def roundtrip(o):
    return json.loads(json.dumps(o, cls=OrquestraEncoder), cls=OrquestraDecoder)


@clause("encoding and decoding give equal objects", budget=40)
def _(t):
    fixed = [{"x": 1.0}, {}, {"x": {}}, [], {"a": [1, 2]}, {"value": 1.0}, {"call_number": 3}, {"k": ValueEstimate(2.0)}, {"k": ValueEstimate(2.0, 0.5)}, OptimizeResult(), OptimizeResult(opt_value=1.0),
             HistoryEntryWithArtifacts(0, np.ones(1), 1.0, {"energy": 2.0}), HistoryEntryWithArtifacts(0, np.ones(1), 1.0, {}), {"values": [HistoryEntry(1, np.ones(2), 1.0)]},
             np.array([[1j]]), MOD({"00": 0.5, "11": 0.5}), MOD({(10, 2): 0.5, (1, 12): 0.5}), MOD({(7,): 1.0}), {"d": MOD({(7,): 1.0})}]
    for o in fixed:
        with t.case(f"fixed {o!r}"):
            r = same(o, roundtrip(o))
            t.ok(r is None, r)
    for _ in range(t.n(500)):
        o = rand_obj(t, t.rng.randint(0, 4))
        with t.case(f"{o!r}"[:1500], trivial=o is None or isinstance(o, str)):
            before = f"{o!r}"
            text = json.dumps(o, cls=OrquestraEncoder)
            r = same(o, json.loads(text, cls=OrquestraDecoder))
            t.ok(r is None, r)
            t.eq(f"{o!r}", before, "the object was changed")
            with open("o.json", "w") as f:
                json.dump(o, f, cls=OrquestraEncoder)
            with open("o.json") as f:
                r = same(o, json.load(f, cls=OrquestraDecoder))
            t.ok(r is None, f"through a file: {r}")


@clause("optimization results survive files", budget=30)
def _(t):
    for _ in range(t.n(250)):
        o = rand_result(t, 3)
        with t.case(f"{o!r}"[:1500]):
            keys = set(o)
            save_optimization_results(o, "r.json")
            t.eq(set(o), keys, "fields of the saved object")
            got = load_optimization_results("r.json")
            r = same(o, got)
            t.ok(r is None, r)
            save_optimization_results(got, "r2.json")
            r = same(o, load_optimization_results("r2.json"))
            t.ok(r is None, f"saved again: {r}")
    for _ in range(t.n(40)):
        with t.case(f"recorded history {_}"):
            f = recorder(lambda x: ValueEstimate(float(np.sum(x ** 2)), 0.1))
            for _i in range(t.rng.randint(1, 4)):
                f(t.np_rng.normal(size=2))
            o = OptimizeResult(opt_value=f.history[-1].value, opt_params=np.ones(2), history=f.history)
            save_optimization_results(o, "r.json")
            r = same(o, load_optimization_results("r.json"))
            t.ok(r is None, r)


def rand_graph(t, weighted=True):
    n = t.rng.randint(0, 8)
    kind = t.rng.choice(["int", "str", "shifted", "shuffled"])
    nodes = {"int": list(range(n)), "str": [f"v{i}" for i in range(n)], "shifted": [3 * i + 1 for i in range(n)], "shuffled": t.rng.sample(range(20), n)}[kind]
    G = nx.Graph()
    G.add_nodes_from(nodes)
    for a, b in itertools.combinations_with_replacement(nodes, 2):
        if t.rng.random() < (0.1 if a == b else 0.5):
            e = (a, b) if t.rng.random() < 0.5 else (b, a)
            G.add_edge(*e, **({"weight": t.rng.choice([t.rng.gauss(0, 1), 1.0, 0.0, 3, -1e-9])} if weighted and t.rng.random() < 0.9 else {}))
    return G


def desc(G):
    return f"nodes {list(G.nodes)} edges {list(G.edges(data=True))}"


def content(G):
    return {n: dict(d) for n, d in G.nodes(data=True)}, {frozenset((a, b)): dict(d) for a, b, d in G.edges(data=True)}


@clause("graphs survive files")
def _(t):
    for _ in range(t.n(250)):
        G = rand_graph(t)
        with t.case(desc(G), trivial=not G.edges):
            before = content(G)
            g.save_graph(G, "g.json")
            H = g.load_graph("g.json")
            t.eq(content(H), before, "nodes, edges and weights")
            t.eq(list(H.nodes), list(G.nodes), "order of the nodes")
            t.eq(content(G), before, "the saved graph")
            with open("h.json", "w") as f:
                g.save_graph(G, f)
            with open("h.json") as f:
                t.eq(content(g.load_graph(f)), before, "through file objects")
            t.ok(g.compare_graphs(G, H), "the loaded graph compares unequal")


@clause("nodes are numbered in order")
def _(t):
    for _ in range(t.n(200)):
        G = rand_graph(t)
        with t.case(desc(G), trivial=not G.nodes):
            d = g.generate_graph_node_dict(G)
            t.eq(dict(d), {n: i for i, n in enumerate(G.nodes)}, "numbering")


@clause("comparison tells graphs apart")
def _(t):
    for _ in range(t.n(400)):
        G = rand_graph(t)
        H = G.copy()
        how = t.rng.choice(["copy", "node", "edge", "drop edge", "drop node", "rename", "move edge", "weights", "other"])
        differs = False
        if how == "node":
            H.add_node("extra")
            differs = True
        elif how == "rename" and len(H):
            H = nx.relabel_nodes(H, {t.rng.choice(list(H.nodes)): "renamed"})
            differs = True
        elif how == "drop node" and len(H):
            H.remove_node(t.rng.choice(list(H.nodes)))
            differs = True
        elif how == "drop edge" and H.edges:
            H.remove_edge(*t.rng.choice(list(H.edges)))
            differs = True
        elif how in ("edge", "move edge"):
            free = [(a, b) for a, b in itertools.combinations(H.nodes, 2) if not H.has_edge(a, b)]
            if free:
                if how == "move edge" and H.edges:
                    H.remove_edge(*t.rng.choice(list(H.edges)))
                H.add_edge(*t.rng.choice(free))
                differs = True
        elif how == "weights":
            continue
        elif how == "other":
            H = rand_graph(t)
            differs = set(G.nodes) != set(H.nodes) or {frozenset(e) for e in G.edges} != {frozenset(e) for e in H.edges}
            if not differs:
                continue
        if len(G.nodes) != len(H.nodes) or len(G.edges) != len(H.edges):
            continue    # separate clause below
        with t.case(f"{how}: {desc(G)} and {desc(H)}", trivial=not len(G)):
            t.eq(bool(g.compare_graphs(G, H)), not differs, "comparison")
            t.eq(bool(g.compare_graphs(H, G)), not differs, "comparison the other way")
            t.eq(bool(g.compare_graphs(G, G)), True, "comparison with itself")


@clause("comparison of graphs one of which extends the other", budget=20)
def _(t):
    A, B, E = nx.Graph(), nx.Graph(), nx.Graph()
    A.add_edges_from([(0, 1), (1, 2)])
    B.add_edges_from([(0, 1), (1, 2), (2, 3)])
    for key, x, y in (("path of 3 and path of 4", A, B), ("empty graph and path of 3", E, A)):
        with t.case(key):
            t.eq(bool(g.compare_graphs(x, y)), False, "comparison")


class Counter:
    """yields distinct weights and counts them"""
    def __init__(self):
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        return 0.5 + self.i


def shapes(t):
    r = t.rng
    n = r.randint(1, 9)
    p = r.choice([0.0, 0.3, 0.7, 1.0])
    yield ("erdos_renyi", (n, p), lambda *a, **k: g.generate_random_graph_erdos_renyi(n, p, *a, **k), None if 0 < p < 1 else (n, 0 if p == 0 else n * (n - 1) // 2), dict(type_graph="erdos_renyi", num_nodes=n, probability=p))
    d = r.randint(0, n - 1)
    if n * d % 2:
        d = max(0, d - 1)
    yield ("regular", (n, d), lambda *a, **k: g.generate_random_regular_graph(n, d, *a, **k), (n, n * d // 2), dict(type_graph="regular", num_nodes=n, degree=d))
    yield ("complete", (n,), None, (n, n * (n - 1) // 2), dict(type_graph="complete", num_nodes=n))
    c, s = r.randint(1, 4), r.randint(2, 5)
    yield ("caveman", (c, s), lambda *a, **k: g.generate_caveman_graph(c, s, *a, **k), (c * s, c * s * (s - 1) // 2), dict(type_graph="caveman", num_nodes=c * s, number_of_cliques=c, size_of_cliques=s))
    l = r.randint(1, 6)
    yield ("ladder", (l,), lambda *a, **k: g.generate_ladder_graph(l, *a, **k), (2 * l, 3 * l - 2), dict(type_graph="ladder", num_nodes=2 * l, length_of_ladder=l))
    b = r.randint(2, 6)
    yield ("barbell", (b,), lambda *a, **k: g.generate_barbell_graph(b, *a, **k), (2 * b, b * (b - 1) + 1), dict(type_graph="barbell", num_nodes=2 * b, number_of_vertices_complete_graph=b))


@clause("generated graphs have the requested shape and weights", budget=30)
def _(t):
    for _ in range(t.n(60)):
        for name, args, gen, size, specs in shapes(t):
            seed = t.rng.randint(0, 10 ** 6)
            with t.case(f"{name} {args} seed {seed}"):
                def shape(G):
                    if size is not None:
                        t.eq((G.number_of_nodes(), G.number_of_edges()), size, "number of nodes and edges")
                    else:
                        t.eq(G.number_of_nodes(), args[0], "number of nodes")
                    t.ok(not any(a == b for a, b in G.edges), "a self loop")
                    if name == "regular":
                        t.eq({x for _, x in G.degree}, {args[1]}, "degrees")
                    if name == "caveman":
                        t.eq(sorted(len(x) for x in nx.connected_components(G)), [args[1]] * args[0], "cliques")
                    if name in ("ladder", "barbell"):
                        t.ok(nx.connected_components(G) and len(list(nx.connected_components(G))) == 1, "not connected")
                        want = sorted([2] * 4 + [3] * (2 * args[0] - 4)) if name == "ladder" else sorted([args[0] - 1] * (2 * args[0] - 2) + [args[0]] * 2)
                        if not (name == "ladder" and args[0] < 2):
                            t.eq(sorted(x for _, x in G.degree), want, "degrees")
                def weights(G):
                    return [d["weight"] for _, _, d in G.edges(data=True)]
                if gen:
                    c = Counter()
                    G = gen(c, seed=seed)
                    shape(G)
                    t.eq(c.i, G.number_of_edges(), "number of weights drawn")
                    t.eq(sorted(weights(G)), [1.5 + i for i in range(G.number_of_edges())], "one drawn weight per edge")
                    G = gen()
                    shape(G)
                    t.ok(all(w == 1.0 for w in weights(G)), "default weights")
                    G = gen(g.constant_sampler(2.5), seed=seed)
                    shape(G)
                    t.ok(all(w == 2.5 for w in weights(G)), "constant weights")
                    G1, G2 = gen(g.uniform_sampler(-3, -1), seed=seed), gen(g.uniform_sampler(-3, -1), seed=seed)
                    shape(G1)
                    t.ok(content(G1) == content(G2), "the same seed gives another graph")
                    t.ok(all(-3 <= w <= -1 for w in weights(G1)), "uniform weights outside their range")
                    random.seed(seed)
                    ref = [random.uniform(-3, -1) for _ in range(G1.number_of_edges())]
                    t.ok(len(set(weights(G1))) == len(ref), "weights are not drawn per edge")
                    G = gen(g.choice_sampler([4, 5]), seed=seed)
                    t.ok(set(weights(G)) <= {4, 5}, "chosen weights")
                    N1, N2 = gen(g.normal_sampler(1, 2), seed=seed), gen(g.normal_sampler(1, 2), seed=seed)
                    t.ok(content(N1) == content(N2), "the same seed gives other normal weights")
                for extra in ({}, {"seed": seed}, {"random_weights": True}, {"random_weights": True, "seed": seed}, {"random_weights": False}):
                    sp = {**specs, **extra}
                    keep = dict(sp)
                    G = g.generate_graph_from_specs(sp)
                    t.eq(sp, keep, "the specification")
                    shape(G)
                    if extra.get("random_weights"):
                        t.ok(all(0 <= w <= 1 for w in weights(G)) and len(set(weights(G))) == len(weights(G)), "random weights")
                    else:
                        t.ok(all(w == 1.0 for w in weights(G)), "weights")
                    if "seed" in extra:
                        t.ok(content(G) == content(g.generate_graph_from_specs(sp)), "the same seed gives another graph")
    with t.case("unknown graph type"):
        t.raises(NotImplementedError, lambda: g.generate_graph_from_specs({"type_graph": "torus", "num_nodes": 3}), "unknown type")
    for lo, hi in ((0, 1), (-5, 5), (2, 2)):
        with t.case(f"samplers {lo} {hi}"):
            s = g.uniform_sampler(lo, hi)
            xs = [next(s) for _ in range(300)]
            t.ok(all(lo <= x <= hi for x in xs) and (lo == hi or (min(xs) < lo + (hi - lo) / 4 and max(xs) > hi - (hi - lo) / 4)), "uniform sampler")
            s = g.choice_sampler([lo, hi, "x"])
            t.eq({next(s) for _ in range(200)}, {lo, hi, "x"}, "choice sampler")
            s = g.normal_sampler(lo, 0.001)
            t.ok(all(abs(next(s) - lo) < 0.01 for _ in range(100)), "normal sampler")
