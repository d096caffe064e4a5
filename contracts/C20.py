"""C20: grouping into co-measurable groups and the statistics of groups."""
from itertools import combinations, permutations, product as cart
from pyvc.contract import Property
from .spec import *
from . import C22

P = Property("C20", trusted=["adding two operators without a common term puts the terms of both, with their coefficients, into the sum (C16)"])
HM = C + "hamiltonian:"
EM = C + "estimation._estimation:"


@P.obligation("co-measurable exactly if no two factors, one of each term, act on the same qubit with different Paulis; terms of any length", targets=[HM + "is_comeasureable"])
def _(v):
    n, m = v.int("n", 0), v.int("m", 0)
    q, r = v.int_fn("qubit", 0), v.int_fn("other_qubit", 0)
    p, s = (z3.Function(x, z3.IntSort(), U) for x in ("pauli", "other_pauli"))
    a = v.seq("term", n, lambda i: (q(i), SU(p(i), OPAQUE)))
    b = v.seq("other", m, lambda i: (r(i), SU(s(i), OPAQUE)))
    got = to_z3_bool(v.it.truth(v.call(HM + "is_comeasureable", a, b)))
    i, j = z3.Ints("qi qj")
    clash = z3.Exists([i, j], z3.And(0 <= i, i < n, 0 <= j, j < m, q(i) == r(j), p(i) != s(j)))
    v.prove(got == z3.Not(clash), "co-measurable")


COM = z3.Function("co_measurable", U, U, z3.BoolSort())
ISID = z3.Function("is_identity_term", U, z3.BoolSort())
TERM = Iface("term", eq=lambda it, s, o: ISID(s.term) if isinstance(o, tuple) and not o else s.term == o.term, classes={"tuple"})
QOP = "zquantum.core.openfermion.ops.operators.qubit_operator:QubitOperator"


class Ops:
    """interface contract of qubit operators: a dictionary of terms; += adds terms that are not there yet"""

    def __init__(self, v):
        self.v, self.n, self.dicts = v, 0, {}
        v.it.contracts[QOP] = lambda it, a, k: self.new([(dict(zip(["term", "coefficient"], a), **k)["term"], dict(zip(["term", "coefficient"], a), **k).get("coefficient", 1.0))])

    def new(self, items):
        self.n += 1
        d = self.v.it.new_dict(items)
        s = self.v.opaque(f"operator{self.n}", Iface("operator", classes={"QubitOperator"}, attrs={"terms": lambda it, s: d}, ops={"+=": lambda it, a, b: self.add(a, b)}))
        self.dicts[f"operator{self.n}"] = d
        return s

    def items(self, s):
        return list(self.v.it.heap[self.dicts[str(s.term)].ref])

    def add(self, a, b):
        it = self.v.it
        d = self.dicts[str(a.term)]
        for t, c in self.items(b):
            if any(it.decide(to_z3_bool(it.eq(t, x))) for x, _ in self.items(a)):
                raise Unsupported("a term added twice")
            it.setitem(d, t, c)
        return a


def grouping(v, k, consts, sort):
    it = v.it
    o = Ops(v)
    ts = [v.opaque(f"term{i}", TERM) for i in range(k)]
    co = [v.real(f"coefficient{i}") for i in range(k)]
    for a, b in combinations(ts, 2):
        v.assume(a.term != b.term)
        v.assume(COM(a.term, b.term) == COM(b.term, a.term))
    for i, t in enumerate(ts):
        v.assume(COM(t.term, t.term))
        v.assume(ISID(t.term) == (i == consts))
        if i == consts:                     # the identity shares no qubit with any term
            for u in ts:
                v.assume(z3.And(COM(t.term, u.term), COM(u.term, t.term)))
    v.contract(HM + "is_comeasureable", lambda it, a, kw: COM(*[x.term for x in list(a) + [kw[n] for n in ("term_1", "term_2") if n in kw]]))
    op = o.new(list(zip(ts, co)))
    r = v.call(HM + "group_comeasureable_terms_greedy", op, **({"sort_terms": sort} if sort is not None else {}))
    groups = it.as_seq(r).concrete()
    v.prove(groups is not None, "a list of operators")
    found = []
    for g in groups:
        it_ = o.items(g)
        v.prove(len(it_) > 0, "no empty group")
        v.prove(all(t.term.eq(ts[consts].term) for t, _ in it_) or not any(t.term.eq(ts[consts].term) for t, _ in it_) if consts is not None else True, "the constant is a group of its own")
        for (a, _), (b, _) in combinations(it_, 2):
            v.prove(COM(a.term, b.term), "co-measurable within the group")
        found += it_
    v.prove(len(found) == k, "as many terms as the operator has")
    for t, c in zip(ts, co):
        mine = [x for u, x in found if u.term.eq(t.term)]
        v.prove(len(mine) == 1, "every term in exactly one group")
        v.prove(to_z3_bool(it.eq(mine[0], c)), "with its coefficient")
    v.prove(len(o.items(op)) == k and all(a.term.eq(t.term) for (a, _), t in zip(o.items(op), ts)), "terms of the argument")
    for (_, x), c in zip(o.items(op), co):
        v.prove(to_z3_bool(it.eq(x, c)), "coefficients of the argument")


for _k, _sorts in ((0, (None, True)), (1, (None, True)), (2, (None, True)), (3, (None, True, False)), (4, (None,))):
    for _s in _sorts:
        def _mk(k, sort):
            how = {None: "", True: ", largest first", False: ", explicitly unsorted"}[sort]

            @P.obligation(f"greedy grouping of {k} terms{how}: every term with its coefficient in exactly one group, groups co-measurable, the constant by itself, argument unchanged", targets=[HM + "group_comeasureable_terms_greedy"],
                          bound=f"{k} terms, any co-measurability relation and coefficients, the constant at any position or absent", budget=200)
            def _(v):
                for c_ in [None] + list(range(k)):
                    if c_ is not None and v.it.decide(v.bool(f"constant at {c_}")) or c_ is None and k == 0:
                        grouping(v, k, c_, sort)
                        return
                grouping(v, k, None, sort)
        _mk(_k, _s)


CM = C + "circuits._circuit:"
GM = C + "circuits._gates:"
BG = C + "circuits._builtin_gates:"


def context(v, shape, paulis):
    """terms with the given numbers of factors; qubits symbolic (distinct within a term), Paulis given"""
    from .C25 import circuits, ops
    it = v.it
    circuits(v)
    ts, co = [], []
    pl = iter(paulis)
    for i, w in enumerate(shape):
        q = [v.int(f"qubit{i}{j}", 0) for j in range(w)]
        for a, b in zip(q, q[1:]):
            v.assume(a < b)
        ts.append(tuple((a, next(pl)) for a in q))
        co.append(v.real(f"coefficient{i}"))
        v.assume(z3.Or(co[-1] > 1, co[-1] < -1))
    for i, j in combinations(range(len(shape)), 2):      # the terms of an operator are different
        if shape[i] == shape[j] and shape[i] and [p for _, p in ts[i]] == [p for _, p in ts[j]]:
            v.assume(z3.Or(*[a != b for (a, _), (b, _) in zip(ts[i], ts[j])]))
    clash = z3.Or(*[a == b for s, t in combinations(ts, 2) for a, p in s for b, r in t if p != r])
    d = it.new_dict(list(zip(ts, co)))
    op = v.opaque("group", Iface("operator", attrs={"terms": lambda it, s: d}, classes={"QubitOperator"}))
    run = lambda: v.call(EM + "get_context_selection_circuit_for_group", op)
    if it.decide(clash):
        v.raises(ValueError, run, "differing bases are rejected")
        return
    circ, z = run()
    got = list(it.heap[it.getattr(z, "terms").ref])
    v.prove(len(got) == len(ts), "one diagonal term per term")
    for t, c in zip(ts, co):
        hit = [x for u, x in got if len(u) == len(t) and it.decide(to_z3_bool(it.eq(u, tuple((q, "Z") for q, _ in t))))]
        v.prove(len(hit) == 1, "the term with Z in place of every Pauli")
        v.prove(to_z3_bool(it.eq(hit[0], c)), "same coefficient")
    v.prove(z.cls.name == "IsingOperator", "diagonal operator")
    gates = []
    for o in [g.v for g in ops(v, circ).segs]:
        qs = v.attr(o, "qubit_indices")
        if len(qs) != 1:
            raise Unsupported("basis change by a gate on several qubits")
        gates.append((qs[0], rows(v, v.attr(v.attr(o, "gate"), "matrix"))))
    for s in ts:
        for q, p in s:
            u = ID
            for a, g in gates:
                if it.decide(a == q):
                    u = mm(g, u)
            v.mat_eq(mm(mm(adj(u), PZ), u), PAULI[p], f"Z measured after the basis changes is {p}")
            v.mat_eq(mm(adj(u), u), ID, "basis changes are unitary")
    for a, _ in gates:
        v.prove(z3.Or(*[a == q for s in ts for q, _ in s]), "only on qubits of the group")


for _sh in ((), (0,), (1,), (2,), (1, 1), (0, 1), (2, 1), (1, 2), (1, 1, 1)):
    def _mk(shape):
        @P.obligation(f"measurement basis of a group whose terms have {shape} factors: Z for every Pauli, same coefficients, basis changes turn Z into each Pauli; clashing groups are rejected", targets=[EM + "get_context_selection_circuit_for_group"],
                      bound=f"{len(shape)} terms with {shape} factors, any Paulis, qubits and coefficients", budget=300)
        def _(v):
            for ps in cart("XYZ", repeat=sum(shape)):
                if v.it.decide(v.bool("paulis " + "".join(ps))):
                    context(v, shape, ps)
                    return
            v.it.assume(False)
    _mk(_sh)


def stat_groups(v, shape):
    """groups of terms of the given sizes; a negative size: the first term is the constant"""
    it = v.it
    gs, cs, ds = [], [], []
    for i, w in enumerate(shape):
        c = [v.real(f"c{i}{j}") for j in range(abs(w))]
        if w < 0:
            if v.it.decide(v.bool("constant is zero")):
                c[0] = z3.RealVal(0)
            else:
                v.assume(c[0] != 0)
        ts = [() if w < 0 and j == 0 else ((v.int(f"q{i}{j}", 0), "Z"),) for j in range(abs(w))]
        for a, b in combinations([t for t in ts if t], 2):
            v.assume(a[0][0] != b[0][0])
        d = it.new_dict(list(zip(ts, c)))
        o = it.new_obj(v.fn(QOP), {"terms": d})
        gs.append(o)
        cs.append([(x, not t) for t, x in zip(ts, c)])
        ds.append((d, list(zip(ts, c))))
    return gs, cs, ds


def stats(v, shape, mode):
    it = v.it
    gs, cs, ds = stat_groups(v, shape)
    total = sum(abs(w) for w in shape)
    if mode is None:
        want, arg = [sum([x * x for x, k in c if not k], z3.RealVal(0)) for c in cs], None
    else:
        vals = [v.real(f"value{j}") for j in range(total)]
        for x in vals:
            v.assume(z3.And(x >= -1, x <= 1))
        at = [sum(map(len, cs[:i])) for i in range(len(cs))]
        want = [sum([x * x * (1 - y * y) for (x, _), y in zip(c, vals[i:])], z3.RealVal(0)) for c, i in zip(cs, at)]
        im = [v.real(f"imaginary{j}") for j in range(total)]
        arr = it.new_arr([SC(x, y) for x, y in zip(vals, im)] if mode == "complex" else list(vals), (total,))
        arg = v.call(C + "measurement:ExpectationValues", arr)
    r = v.call(HM + "compute_group_variances", v.list(list(gs)), arg)
    got = it.as_seq(r).concrete()
    v.prove(got is not None and len(got) == len(shape), "one variance per group")
    for g, w in zip(got, want):
        v.prove(to_z3_real(g) == w, "variance of the group")
    roots = [v.real(f"root{i}") for i in range(len(shape))]
    for x, w in zip(roots, want):
        v.assume(z3.And(x >= 0, x * x == w))
    v.contract(HM + "compute_group_variances", lambda it, a, k: it.new_arr([x * x for x in roots], (len(roots),)))
    k2, nterms, frames = v.call(HM + "estimate_nmeas_for_frames", v.list(list(gs)), arg)
    s = sum(roots, z3.RealVal(0))
    v.prove(to_z3_bool(it.eq(nterms, total)), "number of terms")
    v.prove(to_z3_real(k2) == s * s, "total for unit precision")
    got = it.as_seq(frames).concrete()
    v.prove(got is not None and len(got) == len(shape), "one number of measurements per group")
    for g, x in zip(got, roots):
        v.prove(to_z3_real(g) == s * x, "measurements of the group")
    for g, (d, items) in zip(gs, ds):
        v.prove(it.getattr(g, "terms") is d or it.getattr(g, "terms").ref == d.ref, "the group keeps its terms")
        now = list(it.heap[d.ref])
        v.prove(len(now) == len(items), "terms of the group")
        for (t, x), (u, y) in zip(now, items):
            v.prove(z3.And(to_z3_bool(it.eq(t, u)), to_z3_bool(it.eq(x, y))), "terms of the group")


for _sh in ((1,), (-1,), (2,), (-2, 1), (1, -1, 1), (1, 2), (1, -2, 1), (3,)):
    for _m in (None, "real", "complex"):
        def _mk(shape, mode):
            how = {None: "without expectation values (the constant left out)", "real": "from expectation values", "complex": "from complex expectation values"}[mode]

            @P.obligation(f"variances and numbers of measurements of groups of {tuple(abs(w) for w in shape)} terms{' with a constant' if min(shape) < 0 else ''}, {how}", targets=[HM + "compute_group_variances", HM + "estimate_nmeas_for_frames"],
                          bound=f"{len(shape)} groups of {tuple(abs(w) for w in shape)} terms, any coefficients and values in [-1, 1]")
            def _(v):
                stats(v, shape, mode)
        _mk(_sh, _m)


@P.obligation("expectation values of another number or outside [-1, 1] are rejected", targets=[HM + "compute_group_variances"], bound="2 groups of 2 and 1 terms")
def _(v):
    gs, cs, ds = stat_groups(v, (2, 1))
    for n in (0, 1, 2, 4, 5):
        v.raises(ValueError, lambda: v.call(HM + "compute_group_variances", v.list(list(gs)), v.call(C + "measurement:ExpectationValues", v.it.new_arr([v.real(f"x{i}") for i in range(n)], (n,)))), f"{n} values for 3 terms")
    xs = [v.real(f"x{i}") for i in range(3)]
    v.assume(z3.Or(*[z3.Or(x > 1, x < -1) for x in xs]))
    v.raises(ValueError, lambda: v.call(HM + "compute_group_variances", v.list(list(gs)), v.call(C + "measurement:ExpectationValues", v.it.new_arr(list(xs), (3,)))), "out of range")


@P.obligation("unknown decomposition methods are rejected", targets=[HM + "get_decomposition_function"])
def _(v):
    name = v.opaque("method")
    for known in ("greedy", "greedy-sorted"):
        v.assume(name.term != v.it.embed(known))
    v.raises(ValueError, lambda: v.call(HM + "get_decomposition_function", name), "rejected")


@P.obligation("the named decompositions are greedy grouping without and with sorting", targets=[HM + "get_decomposition_function"])
def _(v):
    seen = []

    def group(it, a, k):
        d = dict(zip(["qubit_operator", "sort_terms"], a), **k)
        seen.append((d["qubit_operator"], d.get("sort_terms", False)))
        return res
    v.contract(HM + "group_comeasureable_terms_greedy", group)
    for name, sort in (("greedy", False), ("greedy-sorted", True)):
        op, res = v.opaque("operator"), v.opaque("groups")
        r = v.call(v.call(HM + "get_decomposition_function", name), op)
        v.same(r, res, f"{name}: the groups")
        v.prove(len(seen) == 1 and seen[0][0].term.eq(op.term) and v.it.decide(to_z3_bool(v.it.truth(seen[0][1]))) == sort, f"{name}: sorting")
        seen.clear()


P.obligations += [o for o in C22.P.obligations if {EM + "group_individually", EM + "group_greedily", EM + "perform_context_selection"} & set(o.targets)]
