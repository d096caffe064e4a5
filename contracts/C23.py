"""C23: cost functions; any backend, estimation method, tasks, parameters and preprocessors (any number)."""
from pyvc.contract import Property
from pyvc.loops import fold
from .spec import *

P = Property("C23", trusted=["backends, estimation methods, preprocessors and task factories are functions of their arguments in one evaluation (the noise of C23 is drawn from numpy's generator, whose normal() is a function of seed, spread and size)",
                             "numpy.concatenate, numpy.sum, numpy.sqrt on exact reals"])
M_ = C + "cost_function:"
IM_ = C + "interfaces.estimation:"
MM = C + "measurement:"
PARS = Iface("parameters", methods={"copy": lambda it, s, a, k: s})
TASKS = Iface("tasks")
VALS = Iface("list of expectation values")
EV = Iface("expectation values")
VE = Iface("value estimate")
EST = z3.Function("estimated", U, U, U)
PRE = z3.Function("preprocessed", U, U, U)
TSK = z3.Function("tasks_for", U, U)
CAT, REAL, SUMV = [z3.Function(x, U, U) for x in ("concatenated", "real_parts", "summed")]
GRAD = z3.Function("gradient_of", U, U)


def estimator(calls):
    def est(it, s, a, k):
        d = dict(zip(["backend", "estimation_tasks"], a), **k)
        calls.append(1)
        return SU(EST(it.embed(d["backend"]), it.embed(d["estimation_tasks"])), VALS)
    return Iface("estimation method", call=est)


def summing(v):
    v.contract(MM + "concatenate_expectation_values", lambda it, a, k: SU(CAT(it.embed(a[0])), EV))
    v.contract(MM + "expectation_values_to_real", lambda it, a, k: SU(REAL(it.embed(a[0])), EV))
    v.contract(M_ + "sum_expectation_values", lambda it, a, k: SU(SUMV(it.embed(a[0])), VE))


def with_gradient(v):
    v.contract(C + "interfaces.functions:function_with_gradient", lambda it, a, k: (a[0], a[1]))
    return v.opaque("gradient factory", Iface("gradient factory", call=lambda it, s, a, k: ("gradient of", a[0])))


PREI = Iface("preprocessor", call=lambda it, s, a, k: SU(PRE(s.term, it.embed(a[0])), PARS))


@P.obligation("cost function: preprocessors once each in order, tasks of the resulting parameters, their values concatenated, real parts, summed; repeated calls independent",
              targets=[M_ + "create_cost_function"])
def _(v):
    n = v.int("n_preprocessors", 0)
    f = z3.Function("preprocessor", z3.IntSort(), U)
    pre = v.seq("preprocessors", n, lambda i: SU(f(i), PREI))
    calls = []
    summing(v)
    b, est = v.opaque("backend"), v.opaque("estimation method", estimator(calls))
    fac = v.opaque("factory", Iface("tasks factory", call=lambda it, s, a, k: SU(TSK(it.embed(a[0])), TASKS)))
    cost, grad = v.call(M_ + "create_cost_function", b, fac, est, v.list(pre), with_gradient(v))
    v.prove(grad[0] == "gradient of" and grad[1] is cost, "gradient of the cost function itself")
    k, acc = z3.Int("fk"), z3.Const("facc", U)
    for name in ("first", "second", "first"):
        x = v.opaque(name + " parameters", PARS)
        r = v.call(cost, x)
        if isinstance(n, int):
            p = x.term
            for i in range(n):
                p = PRE(f(z3.IntVal(i)), p)
        else:
            p = fold(v.it, n, k, acc, PRE(f(k), acc), x.term)
        v.prove(v.it.embed(r) == SUMV(REAL(CAT(EST(b.term, TSK(p))))), f"{name}: value")
    v.prove(len(calls) == 3, "one estimation per call")


@P.obligation("cost function without preprocessors", targets=[M_ + "create_cost_function"])
def _(v):
    summing(v)
    b, est = v.opaque("backend"), v.opaque("estimation method", estimator([]))
    fac = v.opaque("factory", Iface("tasks factory", call=lambda it, s, a, k: SU(TSK(it.embed(a[0])), TASKS)))
    cost, grad = v.call(M_ + "create_cost_function", b, fac, est, gradient_function=with_gradient(v))
    x = v.opaque("parameters", PARS)
    v.prove(v.it.embed(v.call(cost, x)) == SUMV(REAL(CAT(EST(b.term, TSK(x.term))))), "value")


@P.obligation("every evaluation applies every preprocessor, the task factory and the estimation method anew, also to an array object it has seen before", targets=[M_ + "create_cost_function"])
def _(v):
    n = v.int("n_preprocessors", 0)
    f = z3.Function("preprocessor", z3.IntSort(), U)
    now = [z3.Const("moment", U)]
    PRE_T, TSK_T, EST_T = z3.Function("preprocessed_at", U, U, U, U), z3.Function("tasks_at", U, U, U), z3.Function("estimated_at", U, U, U, U)
    pre = v.list(v.seq("preprocessors", n, lambda i: SU(f(i), Iface("preprocessor", call=lambda it, s, a, k: SU(PRE_T(s.term, it.embed(a[0]), now[0]), PARS)))))
    summing(v)

    def est(it, s, a, k):
        d = dict(zip(["backend", "estimation_tasks"], a), **k)
        return SU(EST_T(it.embed(d["backend"]), it.embed(d["estimation_tasks"]), now[0]), VALS)
    b, e = v.opaque("backend"), v.opaque("estimation method", Iface("estimation method", call=est))
    fac = v.opaque("factory", Iface("tasks factory", call=lambda it, s, a, k: SU(TSK_T(it.embed(a[0]), now[0]), TASKS)))
    cost, grad = v.call(M_ + "create_cost_function", b, fac, e, pre, with_gradient(v))
    x = v.opaque("parameters", PARS)
    k, acc = z3.Int("fk"), z3.Const("facc", U)
    for name in ("first", "second", "third"):
        now[0] = z3.Const(f"moment_{name}", U)
        r = v.call(cost, x)
        if isinstance(n, int):
            q = x.term
            for i in range(n):
                q = PRE_T(f(z3.IntVal(i)), q, now[0])
        else:
            q = fold(v.it, n, k, acc, PRE_T(f(k), acc, now[0]), x.term)
        v.prove(v.it.embed(r) == SUMV(REAL(CAT(EST_T(b.term, TSK_T(q, now[0]), now[0])))), f"{name}: value")


def arr(v, name):
    n = v.int("n_" + name, 0)
    x = z3.Function(name, z3.IntSort(), z3.RealSort())
    return n, x, SArr(v.it.alloc(v.seq(name, n, lambda i: x(i))))


@P.obligation("fixed parameters come first, then the given ones; neither array is modified", targets=[M_ + "fix_parameters", C + "interfaces.ansatz_utils:combine_ansatz_params"])
def _(v):
    (n, x, a), (m, y, b) = arr(v, "fixed"), arr(v, "free")
    pre = v.call(M_ + "fix_parameters", a)
    ka, kb = v.it.heap[a.ref], v.it.heap[b.ref]
    for _i in range(2):
        r = v.call(pre, b)
        v.same(v.it.as_seq(r), v.seq("w1", n, lambda i: x(i)) + v.seq("w2", m, lambda i: y(i)), "values")
        v.prove(getattr(r, "ref", None) not in (a.ref, b.ref), "a new array")
    v.same(v.it.heap[a.ref], ka, "fixed parameters unchanged")
    v.same(v.it.heap[b.ref], kb, "given parameters unchanged")


def noise(v):
    """contract of numpy's generator: the k-th draw from a seed is a function of (seed, k, mean, spread, size)"""
    DRAW = z3.Function("noise", U, z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())

    def rng(it, a, k):
        d = dict(zip(["seed"], a), **k)
        seed, draws = it.embed(d.get("seed")), [0]

        def normal(it, s, a, k):
            d = dict(zip(["loc", "scale", "size"], a), **k)
            q, draws[0] = draws[0], draws[0] + 1
            n = d["size"]
            return SArr(it.alloc(v.seq("noise", n, lambda i: DRAW(seed, q, to_z3_real(d.get("loc", 0)), to_z3_real(d.get("scale", 1)), n if is_z3(n) else z3.IntVal(n), i))))
        return SU(v.it.fresh("rng", U), Iface("generator", methods={"normal": normal}))
    v.it.models["numpy.random.default_rng"] = rng
    return lambda seed, q, sd, n: (lambda i: DRAW(seed.term, q, z3.RealVal(0), sd, n if is_z3(n) else z3.IntVal(n), i))


@P.obligation("normal noise: the generator is seeded once, every call adds one draw of mean 0 and the given spread per parameter; the given array is not modified", targets=[M_ + "add_normal_noise"])
def _(v):
    d = noise(v)
    n, x, a = arr(v, "parameters")
    sd, seed = v.real("precision"), v.opaque("seed")
    pre = v.call(M_ + "add_normal_noise", sd, seed)
    keep = v.it.heap[a.ref]
    for q in range(3):
        w = d(seed, q, sd, n)
        v.same(v.it.as_seq(v.call(pre, a)), v.seq("w", n, lambda i: x(i) + w(i)), f"draw {q}")
    v.same(v.it.heap[a.ref], keep, "given parameters unchanged")


@P.obligation("symbols map: i-th value to i-th symbol", targets=[C + "utils:create_symbols_map"])
def _(v):
    n, x, a = arr(v, "values")
    s = z3.Function("symbol", z3.IntSort(), U)
    i, pos = z3.Int("i!"), z3.Function("position_of", U, z3.IntSort())
    v.it.axioms.append(z3.ForAll([i], pos(s(i)) == i, patterns=[s(i)]))          # the symbols are pairwise different
    r = v.call(C + "utils:create_symbols_map", v.list(v.seq("symbols", n, lambda i: SU(s(i), OPAQUE))), a)
    c_ = v.it.heap[r.ref]
    v.same(c_ if isinstance(c_, Seq) else Seq.of(c_), v.seq("w", n, lambda i: (SU(s(i), OPAQUE), x(i))), "pairs")


@P.obligation("symbols map: different numbers of symbols and values are rejected", targets=[C + "utils:create_symbols_map"])
def _(v):
    n, x, a = arr(v, "values")
    m = v.int("n_symbols", 0)
    v.assume(m != n)
    s = z3.Function("symbol", z3.IntSort(), U)
    v.raises(ValueError, lambda: v.call(C + "utils:create_symbols_map", v.list(v.seq("symbols", m, lambda i: SU(s(i), OPAQUE))), a), "rejected")


TPRE = z3.Function("preprocessed_tasks", U, U, U)
SYMS = z3.Function("sorted_symbols", U, U, U)
MAP = z3.Function("symbols_map", U, U, U)
EVAL = z3.Function("evaluated", U, U, U)
NTASK = z3.Function("n_tasks", U, z3.IntSort())
TPREI = Iface("estimation preprocessor", call=lambda it, s, a, k: SU(TPRE(s.term, it.embed(a[0])), TLIST))


def _iter(it, s):
    j = z3.Int(it.fresh_name("tk"))
    return Seq([Comp(NTASK(s.term), j, [(True, (Unit(SU(z3.Function("task_at", U, z3.IntSort(), U)(s.term, j), OPAQUE)),))])])


TLIST = Iface("tasks", iter=_iter, length=lambda it, s: NTASK(s.term))


def evaluating(v):
    o = z3.Const("o!", U)
    v.it.axioms.append(z3.ForAll([o], NTASK(o) >= 0, patterns=[NTASK(o)]))
    v.contract(M_ + "_get_sorted_set_of_circuit_symbols", lambda it, a, k: SU(SYMS(it.embed(a[0]), it.embed(dict(zip(["t", "key"], a), **k)["key"])), OPAQUE))
    v.contract(C + "utils:create_symbols_map", lambda it, a, k: SU(MAP(it.embed(a[0]), it.embed(a[1])), OPAQUE))

    def ev(it, a, k):
        """contract of evaluate_estimation_circuits (C22): task i bound with map i, or with the one map given"""
        maps = a[1]
        if isinstance(maps, SU):
            m = maps.term
        else:
            s = it.as_seq(maps)
            if len(s.segs) != 1:
                raise Unsupported("several maps")
            g = s.segs[0]
            if isinstance(g, Unit):
                m = it.embed(g.v)
            else:
                if g.simple() is None or not it.valid(it.eq(g.n, it.seq_len(it.as_seq(a[0])))):
                    raise Unsupported("maps of an unknown form")
                from pyvc.loops import mentions
                m = it.embed(g.simple().v)
                if mentions(m, [g.idx]):
                    raise Unsupported("different maps")
        return SU(EVAL(it.embed(a[0]), m), TLIST)
    v.contract(C + "estimation._estimation:evaluate_estimation_circuits", ev)


def initial(v, op, circ):
    return v.it.embed(v.list([v.call(IM_ + "EstimationTask", op, circ, None)]))


def preprocessed(v, n, f, t0):
    if isinstance(n, int):
        for i in range(n):
            t0 = TPRE(f(z3.IntVal(i)), t0)
        return t0
    k, acc = z3.Int("tk"), z3.Const("tacc", U)
    return fold(v.it, n, k, acc, TPRE(f(k), acc), t0)


def tasks_world(v, some):
    evaluating(v)
    n = v.int("n_preprocessors", 1)
    f = z3.Function("task_preprocessor", z3.IntSort(), U)
    if not some:
        return 0, f, v.list([])
    return n, f, v.list(v.seq("task_preprocessors", n, lambda i: SU(f(i), TPREI)))


for _some in (False, True):
    def _mk(_some=_some):
        suffix = ", any number of estimation preprocessors in order" if _some else ", no estimation preprocessors"

        @P.obligation("tasks of a parametrized circuit: symbols sorted with the given key, i-th parameter to i-th symbol" + suffix, targets=[M_ + "expectation_value_estimation_tasks_factory"])
        def _(v):
            n, f, pre = tasks_world(v, _some)
            op, circ, key = v.opaque("operator"), v.opaque("circuit"), v.opaque("key")
            fac = v.call(M_ + "expectation_value_estimation_tasks_factory", op, circ, pre, key)
            t = preprocessed(v, n, f, initial(v, op, circ))
            for name in ("first", "second"):
                x = v.opaque(name, PARS)
                r = v.call(fac, x)
                v.prove(v.it.embed(r) == EVAL(t, MAP(SYMS(t, key.term), x.term)), f"{name}: tasks")

        @P.obligation("tasks of an ansatz by substitution: its parametrized circuit and its ordering" + suffix, targets=[M_ + "substitution_based_estimation_tasks_factory"])
        def _(v):
            n, f, pre = tasks_world(v, _some)
            op, circ, key = v.opaque("operator"), v.opaque("circuit"), v.opaque("key")
            ans = v.opaque("ansatz", Iface("ansatz", attrs={"parametrized_circuit": lambda it, s: circ, "symbols_sort_key": lambda it, s: key}))
            fac = v.call(M_ + "substitution_based_estimation_tasks_factory", op, ans, pre)
            t = preprocessed(v, n, f, initial(v, op, circ))
            x = v.opaque("x", PARS)
            v.prove(v.it.embed(v.call(fac, x)) == EVAL(t, MAP(SYMS(t, key.term), x.term)), "tasks")

        @P.obligation("tasks of an ansatz by building its circuit: the circuit for the given parameters" + suffix, targets=[M_ + "dynamic_circuit_estimation_tasks_factory"])
        def _(v):
            n, f, pre = tasks_world(v, _some)
            op = v.opaque("operator")
            GEN = z3.Function("generated", U, U)
            ans = v.opaque("ansatz", Iface("ansatz", methods={"_generate_circuit": lambda it, s, a, k: SU(GEN(it.embed(a[0])), OPAQUE)}))
            fac = v.call(M_ + "dynamic_circuit_estimation_tasks_factory", op, ans, pre)
            for name in ("first", "second"):
                x = v.opaque(name, PARS)
                t = preprocessed(v, n, f, initial(v, op, SU(GEN(x.term), OPAQUE)))
                v.prove(v.it.embed(v.call(fac, x)) == t, f"{name}: tasks")
    _mk()


def ansatz_cost(v, fixed, noisy):
    v.it.models["warnings.warn"] = lambda it, a, k: None
    evaluating(v)
    summing(v)
    d = noise(v)
    op, circ, key, b = v.opaque("operator"), v.opaque("circuit"), v.opaque("key"), v.opaque("backend")
    ans = v.opaque("ansatz", Iface("ansatz", attrs={"parametrized_circuit": lambda it, s: circ, "symbols_sort_key": lambda it, s: key}))
    n = v.int("n_preprocessors", 1)
    f = z3.Function("task_preprocessor", z3.IntSort(), U)
    pre = v.list(v.seq("task_preprocessors", n, lambda i: SU(f(i), TPREI)))
    (p, x, a), (q, y, fx) = arr(v, "parameters"), arr(v, "fixed")
    sd, seed = v.real("precision"), v.opaque("seed")
    o = v.call(M_ + "AnsatzBasedCostFunction", op, ans, b, v.opaque("estimation method", estimator([])), pre, fx if fixed else None, sd if noisy else None, seed if noisy else None)
    t = preprocessed(v, n, f, initial(v, op, circ))
    ka, kf = v.it.heap[a.ref], v.it.heap[fx.ref]
    for which in ("first call", "second call"):
        r = v.call(o, a)
        if not noisy:
            w = (v.seq("wf", q, lambda i: y(i)) if fixed else Seq()) + v.seq("wp", p, lambda i: x(i))
        elif fixed:
            z = d(seed, 0, sd, q + p)
            w = v.seq("wf", q, lambda i: y(i) + z(i)) + v.seq("wp", p, lambda i: x(i) + z(q + i))
        else:
            z = d(seed, 0, sd, p)
            w = v.seq("wp", p, lambda i: x(i) + z(i))
        full = v.it.embed(SArr(v.it.alloc(w)))
        v.prove(v.it.embed(r) == SUMV(REAL(CAT(EST(b.term, EVAL(t, MAP(SYMS(t, key.term), full)))))), f"{which}: value")
    v.same(v.it.heap[a.ref], ka, "caller's parameters unchanged")
    v.same(v.it.heap[fx.ref], kf, "fixed parameters unchanged")


for _f in (False, True):
    for _z in (False, True):
        def _mk(_f=_f, _z=_z):
            @P.obligation(f"ansatz based cost function, {'with' if _f else 'without'} fixed parameters, {'with' if _z else 'without'} noise", targets=[M_ + "AnsatzBasedCostFunction.__init__", M_ + "AnsatzBasedCostFunction.__call__"])
            def _(v):
                ansatz_cost(v, _f, _z)
        _mk()


@P.obligation("sum of expectation values: sum of the values; precision = root of the summed covariances of all frames, none without covariances", targets=[M_ + "sum_expectation_values"])
def _(v):
    n, x, vals = arr(v, "values")
    m = v.int("n_frames", 0)
    CS = z3.Function("covariance_sum", U, z3.RealSort())
    F = z3.Function("frame", z3.IntSort(), U)
    FR = Iface("covariance")
    plain = v.it.models["numpy.sum"]

    def npsum(it, a, k):
        if isinstance(a[0], SU):
            if a[0].iface is not FR:
                raise Unsupported("sum of an opaque value")
            return CS(a[0].term)
        return plain(it, a, k)
    v.it.models["numpy.sum"] = npsum
    v.contract(C + "utils:ValueEstimate", lambda it, a, k: tuple(dict(zip(["value", "precision"], a), **k).get(w) for w in ("value", "precision")))
    from pyvc.loops import big_sum
    from pyvc.lib import sqrt_real
    j = z3.Int("sj")
    total = big_sum(v.it, n, j, x(j))
    for cov in (None, "frames"):
        ev = v.opaque("values" + str(cov), Iface("expectation values", attrs={
            "values": lambda it, s: vals, "estimator_covariances": lambda it, s: None if cov is None else v.list(v.seq("frames", m, lambda i: SU(F(i), FR)))}))
        val, prec = v.call(M_ + "sum_expectation_values", ev)
        v.prove(v.it.eq(val, total), "value")
        if cov is None:
            v.prove(prec is None, "no precision")
        elif prec is None:
            v.prove(v.it.eq(m, 0), "precision left out only without frames")
        else:
            var = to_z3_real(big_sum(v.it, m, j, CS(F(j))))
            v.assume(var >= 0)
            v.prove(v.it.and_([v.it.eq(v.it.binop("*", prec, prec), var), v.it.cmp(">=", prec, 0)]), "precision")


@P.obligation("ground state cost function: sum of all values of all tasks, fixed parameters first, then noise; caller's array unchanged", targets=[M_ + "get_ground_state_cost_function"])
def _(v):
    v.it.models["warnings.warn"] = lambda it, a, k: None
    evaluating(v)
    d = noise(v)
    from pyvc.loops import big_sum
    fixed, noisy = v.it.decide(v.bool("fixed")), v.it.decide(v.bool("noisy"))
    op, circ, key, b = v.opaque("operator"), v.opaque("circuit"), v.opaque("key"), v.opaque("backend")
    n = v.int("n_preprocessors", 1)
    f = z3.Function("task_preprocessor", z3.IntSort(), U)
    pre = v.list(v.seq("task_preprocessors", n, lambda i: SU(f(i), TPREI)))
    (p, x, a), (q, y, fx) = arr(v, "parameters"), arr(v, "fixed")
    sd, seed = v.real("precision"), v.opaque("seed")
    m = z3.Function("n_results", U, z3.IntSort())
    NV, VAL = z3.Function("n_values", U, z3.IntSort(), z3.IntSort()), z3.Function("value", U, z3.IntSort(), z3.IntSort(), z3.RealSort())
    o, oi = z3.Const("or!", U), z3.Int("oi!")
    v.it.axioms.append(z3.ForAll([o], m(o) >= 0, patterns=[m(o)]))
    v.it.axioms.append(z3.ForAll([o, oi], NV(o, oi) >= 0, patterns=[NV(o, oi)]))

    def results(it, s, a, k):
        t = EST(it.embed(a[0]), it.embed(a[1]))

        def one(i):
            vals = it.freeze(SArr(it.alloc(v.seq("values", NV(t, i), lambda j: VAL(t, i, j)))), 0)
            return SU(z3.Function("values_of_task", U, z3.IntSort(), U)(t, i), Iface("expectation values", attrs={
                "values": lambda it, s: SArr(it.alloc(v.seq("values", NV(t, s.term.arg(1)), lambda j: VAL(t, s.term.arg(1), j))))}))
        return it.new_list(v.seq("results", m(t), one))
    cost, grad = v.call(M_ + "get_ground_state_cost_function", op, circ, b, v.opaque("estimation method", Iface("estimation method", call=results)), pre,
                        fx if fixed else None, sd if noisy else None, seed if noisy else None, with_gradient(v), key)
    t = preprocessed(v, n, f, initial(v, op, circ))
    ka, kf = v.it.heap[a.ref], v.it.heap[fx.ref]
    v.contract(C + "utils:ValueEstimate", lambda it, a, k: ("estimate", a[0], a[1] if len(a) > 1 else k.get("precision")))
    for which in ("first call", "second call"):
        r = v.call(cost, a)
        if not noisy:
            w = (v.seq("wf", q, lambda i: y(i)) if fixed else Seq()) + v.seq("wp", p, lambda i: x(i))
        elif fixed:
            z = d(seed, 0, sd, q + p)
            w = v.seq("wf", q, lambda i: y(i) + z(i)) + v.seq("wp", p, lambda i: x(i) + z(q + i))
        else:
            z = d(seed, 0, sd, p)
            w = v.seq("wp", p, lambda i: x(i) + z(i))
        full = v.it.embed(SArr(v.it.alloc(w)))
        e_ = EST(b.term, EVAL(t, MAP(SYMS(t, key.term), full)))
        i, j = z3.Ints("ri rj")
        v.it.index_vars.append(i)
        inner = big_sum(v.it, NV(e_, i), j, VAL(e_, i, j))
        v.it.index_vars.pop()
        v.prove(v.it.eq(r[1], big_sum(v.it, m(e_), i, inner)), f"{which}: value")
        v.prove(r[0] == "estimate" and r[2] is None, "a value estimate without precision")
    v.same(v.it.heap[a.ref], ka, "caller's parameters unchanged")
    v.same(v.it.heap[fx.ref], kf, "fixed parameters unchanged")
