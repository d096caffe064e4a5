"""C22: estimation tasks and their results: any number of tasks, any number of terms per operator."""
from pyvc.contract import Property
from .spec import *

P = Property("C22", trusted=["the measured expectation values of one operator and one set of measurements are those of C13 (callee contract)",
                             "a backend's run_circuitset_and_measure returns one result per circuit in order (C30)"])
EM = C + "estimation._estimation:"
IM_ = C + "interfaces.estimation:"

OPER = z3.Function("operator_of", U, U)
CIRCF = z3.Function("circuit_of", U, U)
SHOTS = z3.Function("shots_of", U, z3.IntSort())
NT = z3.Function("n_terms", U, z3.IntSort())
TERM = z3.Function("term_operator", U, z3.IntSort(), U)
BIND = z3.Function("bound", U, U, U)
CIRC = Iface("circuit", methods={"bind": lambda it, s, a, k: SU(BIND(s.term, it.embed(a[0])), CIRC)})
CIRC.ops = {"+": lambda it, a, b: SU(it.mk("circuit_sum", [a, b]), CIRC)}


def terms(it, s, *_):
    j = z3.Int(it.fresh_name("tj"))
    return Seq([Comp(NT(s.term), j, [(True, (Unit(SU(TERM(s.term, j), OPI)),))])])


def term_list(it, s, a, k):
    return it.new_list(terms(it, s))


CONST = z3.Function("is_constant", U, z3.BoolSort())       # the single term is the identity
HAS = z3.Function("has_constant_term", U, z3.BoolSort())
COEF = z3.Function("constant_coefficient", U, z3.RealSort())


def _has(it, s, x):
    if isinstance(x, tuple) and not x:
        return HAS(s.term)
    raise Unsupported("membership of another term")


def _coef(it, s, x):
    if isinstance(x, tuple) and not x:
        return COEF(s.term)
    raise Unsupported("coefficient of another term")


KEYS = Iface("term keys", contains=_has, length=lambda it, s: NT(s.term))
DICT = Iface("terms", contains=_has, getitem=_coef, length=lambda it, s: NT(s.term), methods={"keys": lambda it, s, a, k: SU(s.term, KEYS)})
OPI = Iface("operator", methods={"get_operators": term_list}, attrs={"terms": lambda it, s: SU(s.term, DICT)})
TASK = Iface("task", attrs={"operator": lambda it, s: SU(OPER(s.term), OPI), "circuit": lambda it, s: SU(CIRCF(s.term), CIRC),
                            "number_of_shots": lambda it, s: SHOTS(s.term)}, classes=("EstimationTask",))


def tasks(v):
    n = v.int("n_tasks", 0)
    f = z3.Function("task", z3.IntSort(), U)
    o = z3.Const("o!", U)
    v.it.axioms.append(z3.ForAll([o], NT(o) >= 0, patterns=[NT(o)]))
    v.it.axioms.append(z3.ForAll([o], SHOTS(o) >= 0, patterns=[SHOTS(o)]))
    return n, f, v.seq("tasks", n, lambda i: SU(f(i), TASK))


def mk(v, op, c_, n):
    return v.call(IM_ + "EstimationTask", op, c_, n)


def want(v, n, f, g):
    """sequence of tasks built from (task term) -> (operator, circuit, shots)"""
    i = z3.Int(v.it.fresh_name("w"))
    t = f(i)
    return Seq([Comp(n, i, [(True, (Unit(v.it.freeze(mk(v, *g(t, i)), 0)),))])])


@P.obligation("uniform allocation: the same operator and circuit, the given number of shots, in order", targets=[EM + "allocate_shots_uniformly"])
def _(v):
    n, f, s = tasks(v)
    k = v.int("k", 1)
    r = v.call(EM + "allocate_shots_uniformly", v.list(s), k)
    v.same(v.it.as_seq(r), want(v, n, f, lambda t, i: (SU(OPER(t), OPI), SU(CIRCF(t), CIRC), k)), "tasks")


@P.obligation("uniform allocation rejects non-positive numbers of shots", targets=[EM + "allocate_shots_uniformly"])
def _(v):
    n, f, s = tasks(v)
    k = v.int("k", None, 0)
    v.raises(ValueError, lambda: v.call(EM + "allocate_shots_uniformly", v.list(s), k), "rejected")


@P.obligation("individual grouping: one task per term, terms of a task together and in order, circuit and shots kept", targets=[EM + "group_individually"])
def _(v):
    n, f, s = tasks(v)
    r = v.call(EM + "group_individually", v.list(s))
    i, j = z3.Ints("gi gj")
    t = f(i)
    inner = Comp(NT(OPER(t)), j, [(True, (Unit(v.it.freeze(mk(v, SU(TERM(OPER(t), j), OPI), SU(CIRCF(t), CIRC), SHOTS(t)), 0)),))])
    v.same(v.it.as_seq(r), Seq([Comp(n, i, [(True, (inner,))])]), "tasks")


NG = z3.Function("n_groups", U, z3.IntSort())
GROUP = z3.Function("group", U, z3.IntSort(), U)


@P.obligation("greedy grouping: one task per group of each task, in order, circuit and shots kept", targets=[EM + "group_greedily"])
def _(v):
    n, f, s = tasks(v)
    o = z3.Const("og!", U)
    v.it.axioms.append(z3.ForAll([o], NG(o) >= 0, patterns=[NG(o)]))
    v.it.builtins["print"] = Builtin("print", lambda it, a, k: None)

    def groups(it, a, k):
        d = dict(zip(["op", "sort"], a), **k)
        j = z3.Int(it.fresh_name("grp"))
        t = it.embed(d["op"] if "op" in d else d["qubit_operator"])
        return it.new_list(Seq([Comp(NG(t), j, [(True, (Unit(SU(GROUP(t, j), OPI)),))])]))
    v.contract(C + "hamiltonian:group_comeasureable_terms_greedy", groups)
    r = v.call(EM + "group_greedily", v.list(s), v.it.decide(v.bool("sort_terms")))
    i, j = z3.Ints("gi gj")
    t = f(i)
    inner = Comp(NG(OPER(t)), j, [(True, (Unit(v.it.freeze(mk(v, SU(GROUP(OPER(t), j), OPI), SU(CIRCF(t), CIRC), SHOTS(t)), 0)),))])
    v.same(v.it.as_seq(r), Seq([Comp(n, i, [(True, (inner,))])]), "tasks")


SEL = z3.Function("selection_circuit", U, U)
FRAME = z3.Function("frame_operator", U, U)


@P.obligation("context selection: the frame operator measured after the task's circuit and then the selection circuit", targets=[EM + "perform_context_selection"])
def _(v):
    n, f, s = tasks(v)
    v.contract(EM + "get_context_selection_circuit_for_group", lambda it, a, k: (SU(SEL(it.embed(a[0])), CIRC), SU(FRAME(it.embed(a[0])), OPI)))
    r = v.call(EM + "perform_context_selection", v.list(s))

    def g(t, i):
        c_ = v.it.mk("circuit_sum", [SU(CIRCF(t), CIRC), SU(SEL(OPER(t)), CIRC)])
        return SU(FRAME(OPER(t)), OPI), SU(c_, CIRC), SHOTS(t)
    v.same(v.it.as_seq(r), want(v, n, f, g), "tasks")


@P.obligation("evaluating circuits: task i bound with map i; operator and shots kept", targets=[EM + "evaluate_estimation_circuits"])
def _(v):
    n, f, s = tasks(v)
    m = z3.Function("symbols_map", z3.IntSort(), U)
    maps = v.seq("maps", n, lambda i: SU(m(i), OPAQUE))
    v.assume(n != 1)
    r = v.call(EM + "evaluate_estimation_circuits", v.list(s), v.list(maps))
    v.same(v.it.as_seq(r), want(v, n, f, lambda t, i: (SU(OPER(t), OPI), SU(BIND(CIRCF(t), m(i)), CIRC), SHOTS(t))), "tasks")


@P.obligation("evaluating circuits with a single map: used for every task", targets=[EM + "evaluate_estimation_circuits"])
def _(v):
    n, f, s = tasks(v)
    m = v.opaque("map")
    r = v.call(EM + "evaluate_estimation_circuits", v.list(s), v.list([m]))
    v.same(v.it.as_seq(r), want(v, n, f, lambda t, i: (SU(OPER(t), OPI), SU(BIND(CIRCF(t), m.term), CIRC), SHOTS(t))), "tasks, map in a list")
    d = v.it.new_dict([(v.opaque("symbol"), v.real("value"))])
    r = v.call(EM + "evaluate_estimation_circuits", v.list(s), d)
    v.same(v.it.as_seq(r), want(v, n, f, lambda t, i: (SU(OPER(t), OPI), SU(BIND(CIRCF(t), v.it.embed(d)), CIRC), SHOTS(t))), "tasks, one map")


def unmeasured(t):
    return z3.Or(z3.And(NT(OPER(t)) == 1, HAS(OPER(t))), SHOTS(t) == 0)


@P.obligation("splitting: constants and zero-shot tasks are not measured, all others are, with their positions in order", targets=[EM + "split_estimation_tasks_to_measure"])
def _(v):
    n, f, s = tasks(v)
    a, b, ia, ib = v.it.as_seq(v.call(EM + "split_estimation_tasks_to_measure", v.list(s))).concrete()

    def sel(g, e):
        i = z3.Int(v.it.fresh_name("s"))
        return Seq([Comp(n, i, [(g(f(i)), (Unit(e(i)),))])])
    no = lambda t: z3.Not(unmeasured(t))
    v.same(v.it.as_seq(a), sel(no, lambda i: SU(f(i), TASK)), "tasks to measure")
    v.same(v.it.as_seq(b), sel(unmeasured, lambda i: SU(f(i), TASK)), "tasks not to measure")
    v.same(v.it.as_seq(ia), sel(no, lambda i: i), "positions to measure")
    v.same(v.it.as_seq(ib), sel(unmeasured, lambda i: i), "positions not to measure")


@P.obligation("tasks that are not measured: the constant's coefficient, 0 for others", targets=[EM + "evaluate_non_measured_estimation_tasks"])
def _(v):
    n, f, s = tasks(v)
    j = z3.Int("uj")
    v.assume(z3.ForAll([j], unmeasured(f(j)), patterns=[f(j)]))
    v.assume(z3.ForAll([j], NT(OPER(f(j))) >= 1, patterns=[f(j)]))
    EV = z3.Function("expectation_values", z3.RealSort(), U)

    def mkev(it, a, k):
        val = it.arr_vals(a[0])
        if len(val) != 1:
            raise Unsupported("several values")
        return SU(EV(to_z3_real(val[0])), OPAQUE)
    v.contract(C + "measurement:ExpectationValues", mkev)
    r = v.call(EM + "evaluate_non_measured_estimation_tasks", v.list(s))
    i = z3.Int("wi")
    o = OPER(f(i))
    c_ = z3.If(z3.And(NT(o) == 1, HAS(o)), COEF(o), z3.RealVal(0))
    v.same(v.it.as_seq(r), Seq([Comp(n, i, [(True, (Unit(SU(EV(c_), OPAQUE)),))])]), "values")


@P.obligation("exact values: one per task, in order, of its circuit and operator", targets=[EM + "calculate_exact_expectation_values"])
def _(v):
    n, f, s = tasks(v)
    EX = z3.Function("exact_values", U, U, U)
    b = v.opaque("backend", Iface("simulator", methods={"get_exact_expectation_values": lambda it, s, a, k: SU(EX(it.embed(a[0]), it.embed(a[1])), OPAQUE)}))
    r = v.call(EM + "calculate_exact_expectation_values", b, v.list(s))
    v.same(v.it.as_seq(r), v.seq("want", n, lambda i: SU(EX(CIRCF(f(i)), OPER(f(i))), OPAQUE)), "values")


def averaging(v, which):
    """callers of split (contract above): positions to measure and not to measure are increasing and together all positions"""
    n = v.int("n_tasks", 0)
    f = z3.Function("task", z3.IntSort(), U)
    s = v.seq("tasks", n, lambda i: SU(f(i), TASK))
    I = z3.IntSort()
    m, k = v.int("n_measured", 0), v.int("n_unmeasured", 0)
    pm, pn = z3.Function("position_measured", I, I), z3.Function("position_unmeasured", I, I)
    rm, rn = z3.Function("rank_measured", I, I), z3.Function("rank_unmeasured", I, I)
    kind = z3.Function("is_measured", I, z3.BoolSort())
    j = z3.Int("rj")
    v.assume(m + k == n)
    q = v.int("position_of_interest", 0)
    if which == "none measured":
        v.assume(z3.And(m == 0, q < k))
    elif which == "measured":
        v.assume(z3.And(m >= 1, q < m))
    else:
        v.assume(z3.And(m >= 1, q < k))
    v.it.axioms += [
        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(pm(j) >= 0, pm(j) < n, rm(pm(j)) == j, kind(pm(j)))), patterns=[pm(j)]),
        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.And(pn(j) >= 0, pn(j) < n, rn(pn(j)) == j, z3.Not(kind(pn(j))))), patterns=[pn(j)])]
    v.contract(EM + "split_estimation_tasks_to_measure", lambda it, a, kw: (
        v.list(v.seq("tm", m, lambda i: SU(f(pm(i)), TASK))), v.list(v.seq("tn", k, lambda i: SU(f(pn(i)), TASK))),
        v.list(v.seq("im", m, lambda i: pm(i))), v.list(v.seq("in", k, lambda i: pn(i)))))
    CV = z3.Function("constant_value", U, U)
    v.contract(EM + "evaluate_non_measured_estimation_tasks", lambda it, a, kw: it.new_list(it.map_seq(it.as_seq(a[0]), lambda t: SU(CV(it.embed(t)), OPAQUE))))
    RUN = z3.Function("measured", U, I, U)
    VAL = z3.Function("expectation_values_of", U, U, U)
    ISING = z3.Function("as_ising", U, U)
    REAL = z3.Function("real_part_of_values", U, U)
    MEAS = Iface("measurements", methods={"get_expectation_values": lambda it, s_, a, kw: SU(VAL(s_.term, it.embed(a[0])), OPAQUE)})
    v.contract(C + "openfermion.zapata_utils._utils:change_operator_type", lambda it, a, kw: SU(ISING(it.embed(a[0])), OPAQUE))
    v.contract(C + "measurement:expectation_values_to_real", lambda it, a, kw: SU(REAL(it.embed(a[0])), OPAQUE))
    runs = []

    def run(it, s_, a, kw):
        cs, ns = it.as_seq(a[0]), it.as_seq(a[1])
        runs.append(1)
        i = z3.Int(it.fresh_name("ri"))
        it.index_vars.append(i)
        try:
            if not it.valid(it.eq(it.seq_len(cs), it.seq_len(ns))):
                raise Unsupported("numbers of circuits and shots")
            from pyvc.lib import zip_map
            return it.new_list(zip_map(it, [cs, ns], lambda c_, q: SU(RUN(it.embed(c_), q), MEAS)))
        finally:
            it.index_vars.pop()
    b = v.opaque("backend", Iface("backend", methods={"run_circuitset_and_measure": run}))
    r = v.it.as_seq(v.call(EM + "estimate_expectation_values_by_averaging", b, v.list(s)))
    v.prove(v.it.seq_len(r) == n, "one result per task")
    if which != "measured":
        v.prove(v.it.embed(v.it.seq_get(r, pn(q))) == CV(f(pn(q))), "constant and zero-shot tasks at their positions")
    else:
        t = f(pm(q))
        v.prove(v.it.embed(v.it.seq_get(r, pm(q))) == REAL(VAL(RUN(CIRCF(t), SHOTS(t)), ISING(OPER(t)))), "measured tasks at their positions")
    v.prove(len(runs) <= 1, "the backend is asked once")


for _w, _t in (("measured", "a measured task's result is at its position: values of its operator in the measurements of its circuit with its shots"),
               ("unmeasured", "a constant or zero-shot task's result is at its position"),
               ("none measured", "with nothing to measure the backend is not needed and every constant is at its position")):
    def _mk(_w=_w):
        @P.obligation("estimation by averaging: " + _t, targets=[EM + "estimate_expectation_values_by_averaging"], budget=120, timeout_ms=2000)
        def _(v):
            averaging(v, _w)
    _mk()
