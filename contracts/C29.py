"""C29: graphs of any size and the encoding of artifacts, case by case over the artifact's kind (structural induction)."""
from pyvc.contract import Property
from .spec import *

P = Property("C29", trusted=["a sampler drawn from once in the body of a loop over the edges gives its i-th value in the i-th iteration",
                             "networkx graph generators and node-link conversion (library)", "json writes and reads JSON data unchanged (pyvc/files.py)"])
GM = C + "graph:"
SM = C + "serialization:"
NX = "networkx."


def graph(v, name="graph", **attrs):
    return v.opaque(name, Iface("graph", attrs=attrs, methods={"is_multigraph": lambda it, s, a, k: False}))


@P.obligation("node numbering: each node is mapped to its position", targets=[GM + "generate_graph_node_dict"])
def _(v):
    n = v.int("n", 0)
    nodes = v.opaque_seq("node", n)
    if isinstance(n, int) and n > 1:
        v.it.axioms.append(z3.Distinct(*[u.v.term for u in nodes.segs]))
    f = z3.Function("node", z3.IntSort(), U)
    v.it.distinct_hints.append(lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < n), f(i) != f(j)))
    r = v.call(GM + "generate_graph_node_dict", graph(v, nodes=lambda it, s: nodes))
    f = z3.Function("node", z3.IntSort(), U)
    v.same(v.it.iterate(v.method(r, "items")), v.seq("items", n, lambda i: (SU(f(i), OPAQUE), i)), "numbering")


@P.obligation("comparison accepts a graph with the same nodes and edges", targets=[GM + "compare_graphs"])
def _(v):
    n, m = v.int("n", 0), v.int("m", 0)
    a, b = v.opaque_seq("node", n), v.opaque_seq("edge", m)
    g1, g2 = (graph(v, x, nodes=lambda it, s: a, edges=lambda it, s: b) for x in ("g1", "g2"))
    v.prove(to_z3_bool(v.it.truth(v.call(GM + "compare_graphs", g1, g2))), "accepted")


@P.obligation("comparison of graphs of one size rejects a different node or edge", targets=[GM + "compare_graphs"])
def _(v):
    n, m = v.int("n", 1), v.int("m", 1)
    f = {x: z3.Function(x, z3.IntSort(), U) for x in ("node1", "node2", "edge1", "edge2")}
    gs = [graph(v, f"g{x}", nodes=lambda it, s, x=x: v.opaque_seq(f"node{x}", n), edges=lambda it, s, x=x: v.opaque_seq(f"edge{x}", m)) for x in "12"]
    k, l = v.int("k", 0), v.int("l", 0)
    v.assume(z3.Or(z3.And(k < n, f["node1"](k) != f["node2"](k)), z3.And(l < m, f["edge1"](l) != f["edge2"](l))))
    v.prove(z3.Not(to_z3_bool(v.it.truth(v.call(GM + "compare_graphs", *gs)))), "rejected")


@P.obligation("a graph survives its file (name or file object)", targets=[GM + "save_graph", GM + "load_graph"])
def _(v):
    v.contract(SM + "ensure_open", lambda it, a, k: it.builtins["open"].fn(it, a, k))
    g = graph(v)
    data = {"nodes": v.opaque("nodes"), "links": v.opaque("links"), "directed": False}
    v.it.models[NX + "readwrite.json_graph.node_link_data"] = lambda it, a, k: it.new_dict(list(data.items()))

    def back(it, a, k):
        for key, x in data.items():
            v.same(it.getitem(a[0], key), x, f"{key} of the graph")
        return g
    v.it.models[NX + "readwrite.json_graph.node_link_graph"] = back
    v.call(GM + "save_graph", g, "g.json")
    v.same(v.call(GM + "load_graph", "g.json"), g, "graph from file")


def generators(v, run):
    """every generator: run(name, library function, its arguments, arguments of the generator)"""
    i = lambda n: v.int(n, 1)
    p, d = v.real("p"), i("degree")
    n, k, s = i("n"), i("k"), i("size")
    run("generate_random_graph_erdos_renyi", "erdos_renyi_graph", dict(n=n, p=p), (n, p), True)
    run("generate_random_regular_graph", "random_regular_graph", dict(d=d, n=n), (n, d), True)
    run("generate_caveman_graph", "caveman_graph", dict(l=k, k=s), (k, s), False)
    run("generate_ladder_graph", "ladder_graph", dict(n=n), (n,), False)
    run("generate_barbell_graph", "barbell_graph", dict(m1=n, m2=0), (n,), False)


ORDER = {"erdos_renyi_graph": ["n", "p", "seed", "directed"], "random_regular_graph": ["d", "n", "seed"], "caveman_graph": ["l", "k"],
         "ladder_graph": ["n", "create_using"], "barbell_graph": ["m1", "m2", "create_using"]}


def watch(v, libname, log):
    """the library's generator is called with these arguments and gives a new graph"""
    def make(it, a, k):
        log.append(dict(zip(ORDER[libname], a), **k))
        return graph(v, f"made{len(log)}")
    v.it.models[NX + libname] = make


def weights(v, log):
    def w(it, a, k):
        log.append(dict(zip(["graph", "sampler", "seed"], a), **k))
        return None
    v.contract(GM + "_weight_graph_edges", w)


def agree(v, got, want, why):
    got = {k: x for k, x in got.items() if x is not None}
    want = {k: x for k, x in want.items() if x is not None}
    v.prove(set(got) == set(want), f"{why}: names of arguments")
    for k in want:
        if k in got:
            v.same(got[k], want[k], f"{why}: {k}")


@P.obligation("generators make the requested graph once, weight its edges with the given sampler and seed, and return it", targets=[GM + g for g in ("generate_random_graph_erdos_renyi", "generate_random_regular_graph", "generate_caveman_graph", "generate_ladder_graph", "generate_barbell_graph")])
def _(v):
    sampler, seed = v.opaque("sampler"), v.int("seed", 0)

    def run(name, lib, want, args, seeded):
        for sd in (None, seed):
            made, weighted = [], []
            watch(v, lib, made)
            weights(v, weighted)
            r = v.call(GM + name, *args, sampler, sd)
            v.prove(len(made) == 1 and len(weighted) == 1, f"{name}: one graph, weighted once")
            agree(v, made[0], dict(want, **({"seed": sd} if seeded else {})), name)
            agree(v, weighted[0], {"graph": r, "sampler": sampler, "seed": sd}, f"{name}: weights")
            v.same(r, graph(v, "made1"), f"{name}: result")
    generators(v, run)


@P.obligation("graphs from specifications: the named generator with the given arguments and seed; unknown types are rejected", targets=[GM + "generate_graph_from_specs"])
def _(v):
    uni, const = v.opaque("uniform"), v.opaque("constant")

    def uniform(it, a, k):
        v.prove([it.eq(x, y) for x, y in zip(a, (0, 1))] == [True, True], "weights between 0 and 1")
        return uni
    v.contract(GM + "uniform_sampler", uniform)

    def constant(it, a, k):
        v.prove(it.eq(a[0], 1), "unit weights")
        return const
    v.contract(GM + "constant_sampler", constant)
    n, x, y, seed = v.int("n", 1), v.int("x", 1), v.int("y", 1), v.int("seed", 0)
    p = v.real("p")
    cases = [("erdos_renyi", {"probability": p}, "erdos_renyi_graph", dict(n=n, p=p), True),
             ("complete", {}, "erdos_renyi_graph", dict(n=n, p=1), True),
             ("regular", {"degree": x}, "random_regular_graph", dict(n=n, d=x), True),
             ("caveman", {"number_of_cliques": x, "size_of_cliques": y}, "caveman_graph", dict(l=x, k=y), False),
             ("ladder", {"length_of_ladder": x}, "ladder_graph", dict(n=x), False),
             ("barbell", {"number_of_vertices_complete_graph": x}, "barbell_graph", dict(m1=x, m2=0), False)]
    for t, extra, lib, want, seeded in cases:
        for rw in (None, False, True):
            for sd in (None, seed):
                made, weighted = [], []
                watch(v, lib, made)
                weights(v, weighted)
                specs = {"type_graph": t, "num_nodes": n, **extra}
                if rw is not None:
                    specs["random_weights"] = rw
                if sd is not None:
                    specs["seed"] = sd
                r = v.call(GM + "generate_graph_from_specs", v.it.new_dict(list(specs.items())))
                v.prove(len(made) == 1 and len(weighted) == 1, f"{t}: one graph, weighted once")
                agree(v, made[0], dict(want, **({"seed": sd} if seeded else {})), t)
                agree(v, weighted[0], {"graph": r, "sampler": uni if rw else const, "seed": sd}, f"{t}: weights")
    v.raises(NotImplementedError, lambda: v.call(GM + "generate_graph_from_specs", v.it.new_dict([("type_graph", "star"), ("num_nodes", n)])), "an unknown type is rejected")


@P.obligation("weighting draws one weight per edge, in edge order, after seeding if asked; the constant sampler gives its value; multigraphs are rejected", targets=[GM + "_weight_graph_edges", GM + "constant_sampler"])
def _(v):
    m = v.int("m", 0)
    a, b = z3.Function("from", z3.IntSort(), U), z3.Function("to", z3.IntSort(), U)
    w = v.real_fn("weight")
    edges = v.seq("edges", m, lambda i: (SU(a(i), OPAQUE), SU(b(i), OPAQUE)))
    log = []

    def draw(it, s, x, k):
        log.append("draw")
        return w(it.index_vars[-1]) if it.index_vars else w(len([e for e in log if e == "draw"]) - 1)
    sampler = v.opaque("sampler", Iface("sampler", methods={"__next__": draw}))
    seed = v.int("seed", 0)
    v.it.models["random.seed"] = lambda it, a, k: log.append(("seed", a[0]))
    added = []
    for sd in (None, seed):
        del added[:], log[:]
        g = v.opaque("graph", Iface("graph", attrs={"edges": lambda it, s: edges}, methods={
            "is_multigraph": lambda it, s, a, k: False,
            "add_weighted_edges_from": lambda it, s, a, k: added.append(it.iterate(a[0])) if not k and len(a) == 1 else it._unsup("options of add_weighted_edges_from")}))
        v.call(GM + "_weight_graph_edges", g, sampler, sd)
        v.prove(len(added) == 1, "edges are added once")
        v.same(added[0], v.seq("want", m, lambda i: (SU(a(i), OPAQUE), SU(b(i), OPAQUE), w(i))), "one weight for each edge")
        seeds = [e for e in log if e != "draw"]
        v.prove(len(seeds) == (0 if sd is None else 1), "seeded if asked")
        if seeds:
            v.prove(log[0] == seeds[0] and v.it.valid(v.it.eq(seeds[0][1], seed)), "seeded before drawing")
    x = v.opaque("value")
    s = v.call(GM + "constant_sampler", x)
    for _ in range(2):
        v.same(v.call(v.it.builtins["next"], s), x, "constant")
    multi = v.opaque("multi", Iface("graph", attrs={"edges": lambda it, s: edges}, methods={"is_multigraph": lambda it, s, a, k: True, "add_weighted_edges_from": lambda it, s, a, k: None}))
    v.raises(ValueError, lambda: v.call(GM + "_weight_graph_edges", multi, sampler), "a multigraph is rejected")


def recursion(v, p):
    """preprocess of a part of the artifact is p of it (induction hypothesis)"""
    depth = []

    def h(it, a, k):
        if depth:
            return SU(p(it.embed(a[0])), OPAQUE)
        depth.append(1)
        return NotImplemented
    v.contract(SM + "preprocess", h)
    return depth


@P.obligation("flattening an artifact: lists, tuples, dictionaries and named tuples part by part, other values as their dictionaries or themselves; the artifact is left alone", targets=[SM + "preprocess"])
def _(v):
    it = v.it
    p = z3.Function("flat", U, U)
    depth = recursion(v, p)

    def run(x):
        del depth[:]
        return v.call(SM + "preprocess", x)
    f = z3.Function("part", z3.IntSort(), U)
    n = v.int("n", 0)
    parts = v.opaque_seq("part", n)
    want = v.seq("want", n, lambda i: SU(p(f(i)), OPAQUE))
    l = v.list(parts)
    v.same(it.as_seq(run(l)), want, "list")
    v.same(it.as_seq(l), parts, "the list is left alone")
    x, y = v.opaque("x"), v.opaque("y")
    px, py = SU(p(x.term), OPAQUE), SU(p(y.term), OPAQUE)
    r = run((x, y))
    v.prove(isinstance(r, VList), "a tuple becomes a list")
    v.same(it.as_seq(r), Seq.of([px, py]), "tuple")
    d = it.new_dict([("a", x), ("b", y)])
    v.same(run(d), it.new_dict([("a", px), ("b", py)]), "dictionary")
    v.same(d, it.new_dict([("a", x), ("b", y)]), "the dictionary is left alone")
    v.same(run(x), x, "any other value")
    k = v.int("k")
    v.same(run(k), k, "a number")
    v.same(run("text"), "text", "a string")


@P.obligation("flattening history entries: a dictionary of the fields", targets=[SM + "preprocess"])
def _(v):
    it = v.it
    p = z3.Function("flat", U, U)
    depth = []

    def h(it, a, k):
        if isinstance(a[0], SU):
            return SU(p(a[0].term), OPAQUE)
        if is_z3(a[0]) or is_num(a[0]):
            return a[0]
        return NotImplemented
    v.contract(SM + "preprocess", h)
    n, x, y, z = v.int("call", 0), v.opaque("params"), v.opaque("value"), v.opaque("artifacts")
    P_ = lambda q: SU(p(q.term), OPAQUE)
    RM = C + "history.recorder:"
    v.same(v.call(SM + "preprocess", v.call(RM + "HistoryEntry", n, x, y)), it.new_dict([("call_number", n), ("params", P_(x)), ("value", P_(y))]), "entry")
    v.same(v.call(SM + "preprocess", v.call(RM + "HistoryEntryWithArtifacts", n, x, y, z)), it.new_dict([("call_number", n), ("params", P_(x)), ("value", P_(y)), ("artifacts", P_(z))]), "entry with artifacts")


@P.obligation("decoding: history entries, arrays and named dictionaries come back as what they were", targets=[SM + "OrquestraDecoder.object_hook"], bound="arrays of 3 entries; dictionaries of 2 entries")
def _(v):
    it = v.it
    dec = it.new_obj(v.fn(SM + "OrquestraDecoder"), {})
    hook = lambda *items: v.method(dec, "object_hook", it.new_dict(list(items)))
    n, x, y, z = v.int("call", 0), v.opaque("params"), v.opaque("value"), v.opaque("artifacts")
    RM = C + "history.recorder:"
    v.same(hook(("call_number", n), ("params", x), ("value", y)), v.call(RM + "HistoryEntry", n, x, y), "entry")
    v.same(hook(("call_number", n), ("params", x), ("value", y), ("artifacts", z)), v.call(RM + "HistoryEntryWithArtifacts", n, x, y, z), "entry with artifacts")
    a, b = [z3.Real(f"a{i}") for i in range(3)], [z3.Real(f"b{i}") for i in range(3)]
    v.same(hook(("real", v.list(a))), it.new_arr(a, (3,)), "real array")
    v.same(hook(("real", v.list(a)), ("imag", v.list(b))), it.new_arr([SC(p, q) for p, q in zip(a, b)], (3,)), "complex array")
    t = it.new_dict([("name", "text"), ("x", x)])
    v.same(v.method(dec, "object_hook", t), it.new_dict([("name", "text"), ("x", x)]), "a dictionary of other things")
