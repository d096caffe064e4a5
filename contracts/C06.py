"""C06: simulation applies operations in order, however the circuit is split."""
from pyvc.contract import Property
from pyvc.loops import Act
from .spec import *
from .C05 import CM, GM

P = Property("C06", trusted=["itertools.groupby splits a sequence into consecutive maximal runs of equal key, in order (library contract)",
                             "an operation's apply is its action on the state (C01) and does not modify its argument"])
BM = C + "interfaces.backend:"
SM = C + "symbolic_simulator:"
PRED = z3.Function("predicate", U, z3.BoolSort())
BND = z3.Function("boundary", z3.IntSort(), z3.IntSort())
KEY = z3.Function("run_key", z3.IntSort(), z3.BoolSort())
OPF = z3.Function("op", z3.IntSort(), U)

STATE = Iface("state")


def apply(it, s, a, k):
    st = a[0]
    if not isinstance(st, Act):
        raise Unsupported("apply on an unexpected state")
    return Act(st.tag, st.base, st.seq + Seq.of([s]))


OP = Iface("operation", methods={"apply": apply}, maybe=("GateOperation", "MultiPhaseOperation"))


def ops(v):
    n = v.int("n_ops", 0)
    return v.seq("ops", n, lambda i: SU(OPF(i), OP)), n


def run_slice(j):
    """operations boundary(j) .. boundary(j+1)-1"""
    i = z3.Int("run_i")
    return Seq([Comp(BND(j + 1) - BND(j), i, [(True, (Unit(SU(OPF(BND(j) + i), OP)),))])])


def groupby(v, n, m):
    """library contract of itertools.groupby on the operations with an opaque predicate"""
    j, i = z3.Ints("gj gi")
    v.it.axioms += [BND(0) == 0, BND(m) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), BND(j) < BND(j + 1)), patterns=[BND(j + 1)])]
    calls = []

    def g(it, a, k):
        f = a[1] if len(a) > 1 else k.get("key")
        # the key function is the predicate itself
        o = z3.Const("some_op", U)
        r = it.truth(it.call(f, [SU(o, OP)], {}))
        if not it.valid(to_z3_bool(r) == PRED(o)):
            raise Unsupported("groupby with another key")
        s = it.as_seq(a[0])
        from pyvc.prove import same_value
        if same_value(it, s, ops0[0]) is not True:
            raise Unsupported("groupby of another sequence")
        jj = z3.Int("run_j")
        return it.new_iter(Seq([Comp(m, jj, [(True, (Unit((KEY(jj), run_slice(jj))),))])]))
    ops0 = [None]
    v.it.models["itertools.groupby"] = g
    return ops0


@P.obligation("split_circuit yields the runs of the predicate in order, each on the full width", targets=[CM + "split_circuit"])
def _(v):
    s, n = ops(v)
    m, w = v.int("n_runs", 0), v.int("w", 1)
    ref = groupby(v, n, m)
    ref[0] = s
    c_ = v.call(CM + "Circuit", v.list(s), w)
    pred = v.opaque("pred", Iface("predicate", call=lambda it, f, a, k: PRED(it.embed(a[0]))))
    out = v.it.iterate(v.call(CM + "split_circuit", c_, pred))
    j = v.int("j", 0)
    v.assume(j < m)
    v.prove(v.it.seq_len(out) == m, "one part per run")
    part = v.it.seq_get(out, j)
    v.prove(to_z3_bool(v.it.truth(part[0])) == KEY(j), "flag of the part is the predicate value of the run")
    v.prove(v.attr(part[1], "n_qubits") == w, "full width")
    v.same(v.it.as_seq(v.attr(part[1], "operations")), run_slice(j), "operations of the part are exactly the run")
    v.same(v.it.as_seq(v.attr(c_, "operations")), s, "the circuit is not modified")


def simulator(v, cls, native, chunks=None):
    obj = v.it.new_obj(v.fn(cls), {})
    return obj


NOPS = z3.Function("n_run_ops", z3.IntSort(), z3.IntSort())
ROP = z3.Function("run_op", z3.IntSort(), z3.IntSort(), U)
SUPP = z3.Function("natively_supported", z3.IntSort(), z3.BoolSort())


def part_iface():
    def operations(it, s):
        j = s.term.arg(0)
        i = z3.Int("ri")
        return Seq([Comp(NOPS(j), i, [(True, (Unit(SU(ROP(j, i), OP)),))])])
    return Iface("circuit", attrs={"operations": operations})


PART = part_iface()
SUB = z3.Function("part", z3.IntSort(), U)


def world(v, sim):
    """contract of split_circuit: m parts; contract of the native simulation: applies the part's operations in order"""
    m = v.int("n_parts", 0)
    j = z3.Int("pj")
    v.it.axioms.append(z3.ForAll([j], NOPS(j) >= 1, patterns=[NOPS(j)]))
    parts = Seq([Comp(m, j, [(True, (Unit((SUPP(j), SU(SUB(j), PART))),))])])

    def split(it, a, k):
        return it.new_iter(parts)
    v.contract(CM + "split_circuit", split)
    i = z3.Int("pi")
    every = Seq([Comp(m, j, [(True, (Comp(NOPS(j), i, [(True, (Unit(SU(ROP(j, i), OP)),))]),))])])
    return m, every


def native_contract(v, qual):
    def h(it, a, k):
        args = list(a) + list(k.values())
        part, st = args[1], args[2]
        if not isinstance(st, Act):
            raise Unsupported("state")
        return Act(st.tag, st.base, st.seq + it.as_seq(it.getattr(part, "operations")))
    v.contract(qual, h)


@P.obligation("get_wavefunction applies every operation in order to the given initial state; counters go up by one per native run",
              targets=[BM + "QuantumSimulator.get_wavefunction"])
def _(v):
    m, every = world(v, None)
    native_contract(v, BM + "QuantumSimulator._get_wavefunction_from_native_circuit")
    c0, j0 = v.int("circuits_before"), v.int("jobs_before")
    sim = v.it.new_obj(v.fn(BM + "QuantumSimulator"), {"number_of_circuits_run": c0, "number_of_jobs_run": j0})
    v.contract(C + "wavefunction:Wavefunction", lambda it, a, k: ("wf", a[0]))
    init = Act("state", v.opaque("psi"), Seq())
    r = v.method(sim, "get_wavefunction", v.opaque("circuit", Iface("circuit", attrs={"n_qubits": lambda it, s: z3.Int("w")})), init)
    v.prove(isinstance(r, tuple) and r[0] == "wf", "returns the wavefunction of the final state")
    v.same(r[1], Act("state", v.opaque("psi"), every), "all operations of all parts applied in order to the initial state")
    from pyvc.loops import big_sum
    j = z3.Int("sj")
    runs = big_sum(v.it, m, j, z3.If(SUPP(j), z3.IntVal(1), z3.IntVal(0)))
    v.prove(v.attr(sim, "number_of_circuits_run") == c0 + runs, "one circuit per native run")
    v.prove(v.attr(sim, "number_of_jobs_run") == j0 + runs, "one job per native run")


@P.obligation("the default initial state is |0...0>", targets=[BM + "QuantumSimulator.get_wavefunction"], bound="1 to 4 qubits")
def _(v):
    v.contract(CM + "split_circuit", lambda it, a, k: it.new_iter(Seq()))
    v.contract(C + "wavefunction:Wavefunction", lambda it, a, k: ("wf", a[0]))
    for n in range(1, 5):
        sim = v.it.new_obj(v.fn(BM + "QuantumSimulator"), {"number_of_circuits_run": 0, "number_of_jobs_run": 0})
        r = v.method(sim, "get_wavefunction", v.opaque("circuit", Iface("circuit", attrs={"n_qubits": lambda it, s: n})))
        got = v.it.arr_vals(r[1])
        v.prove([v.it.eq(x, 1 if i == 0 else 0) for i, x in enumerate(got)] == [True] * 2 ** n, f"|0...0> on {n} qubits")


@P.obligation("get_wavefunction splits the circuit it is given by native support", targets=[BM + "QuantumSimulator.get_wavefunction", BM + "QuantumSimulator.is_natively_supported"])
def _(v):
    seen = []
    v.contract(CM + "split_circuit", lambda it, a, k: (seen.append((list(a) + list(k.values()))), it.new_iter(Seq()))[1])
    v.contract(C + "wavefunction:Wavefunction", lambda it, a, k: ("wf", a[0]))
    c_ = v.opaque("circuit", Iface("circuit", attrs={"n_qubits": lambda it, s: z3.Int("w")}))
    sim = v.it.new_obj(v.fn(BM + "QuantumSimulator"), {"number_of_circuits_run": 0, "number_of_jobs_run": 0})
    v.method(sim, "get_wavefunction", c_, Act("state", v.opaque("psi"), Seq()))
    if len(seen) != 1:
        raise Unsupported("the circuit is not split once by split_circuit")
    v.same(seen[0][0], c_, "the given circuit is split")
    o = v.opaque("an_op", OP)
    v.prove(to_z3_bool(v.it.truth(v.it.call(seen[0][1], [o], {}))) == to_z3_bool(v.it.truth(v.method(sim, "is_natively_supported", o))), "by native support")
    g = v.it.isinstance(o, v.fn(GM + "GateOperation"))
    v.prove(to_z3_bool(v.it.truth(v.method(sim, "is_natively_supported", o))) == g, "gate operations are what is natively supported by default")


@P.obligation("the symbolic simulator applies the operations in order, any number", targets=[SM + "SymbolicSimulator._get_wavefunction_from_native_circuit"])
def _(v):
    s, n = ops(v)
    sim = v.it.new_obj(v.fn(SM + "SymbolicSimulator"), {})
    c_ = v.opaque("circuit", Iface("circuit", attrs={"operations": lambda it, x: s}))
    psi = v.opaque("psi")
    r = v.method(sim, "_get_wavefunction_from_native_circuit", c_, Act("state", psi, Seq()))
    v.same(r, Act("state", psi, s), "operations applied in order")
    v.prove(v.it.truth(v.method(sim, "is_natively_supported", v.opaque("o", OP))), "supports every operation")


def multiphase(n):
    @P.obligation(f"multi-phase operation multiplies amplitude i by exp(i theta_i) ({n} amplitudes)",
                  targets=[C + "circuits._wavefunction_operations:MultiPhaseOperation.apply"], bound=f"{n} amplitudes, all phases and amplitudes")
    def _(v):
        WM = C + "circuits._wavefunction_operations:"
        v.it.models["numpy.exp"] = lambda it, a, k: it.new_arr([exp(it.to_poly(x)) for x in it.arr_vals(a[0])], a[0].shape)
        th = [v.gen(f"t{i}") for i in range(n)]
        psi = [v.gen(f"a{i}") + v.gen(f"b{i}") * IM for i in range(n)]
        op = v.call(WM + "MultiPhaseOperation", tuple(th))
        arr = v.it.new_arr(list(psi), (n,))
        r = v.method(op, "apply", arr)
        for i in range(n):
            v.poly_eq(v.it.arr_vals(r)[i], exp(c(th[i]) * IM) * psi[i], f"amplitude {i}")
            v.poly_eq(v.it.arr_vals(arr)[i], psi[i], f"input amplitude {i} is unchanged")


for _n in (1, 2, 4, 8):
    multiphase(_n)


@P.obligation("multi-phase operation rejects states of another length", targets=[C + "circuits._wavefunction_operations:MultiPhaseOperation.apply"])
def _(v):
    WM = C + "circuits._wavefunction_operations:"
    n, m = v.int("n_params", 0), v.int("n_amplitudes", 0)
    v.assume(n != m)
    op = v.call(WM + "MultiPhaseOperation", v.opaque_seq("theta", n))
    psi = v.opaque_seq("psi", m)
    v.raises(ValueError, lambda: v.method(op, "apply", v.list(psi)), "length mismatch")


BINDC = z3.Function("bound_circuit", U, U, U)
WFOF = z3.Function("wavefunction_of", U, U)
SYMN = z3.Function("number_of_free_symbols", U, z3.IntSort())
SMP = z3.Function("sample", U, U, z3.IntSort(), U)
CIRCUIT = Iface("circuit", methods={"bind": lambda it, s, a, k: SU(BINDC(s.term, it.embed(a[0] if a else k["symbols_map"])), CIRCUIT)},
                attrs={"free_symbols": lambda it, s: Seq([Comp(SYMN(WFOF(s.term)), z3.Int("csym"), [(True, (Unit(SU(z3.Const("csymbol", U), OPAQUE)),))])])})
WFI = Iface("wavefunction", attrs={"free_symbols": lambda it, s: Seq([Comp(SYMN(s.term), z3.Int("wsym"), [(True, (Unit(SU(z3.Const("wsymbol", U), OPAQUE)),))])])})


@P.obligation("samples are drawn from the state of the circuit, bound with the given symbols, with the simulator's seed; a state with symbols left is rejected",
              targets=[SM + "SymbolicSimulator.run_circuit_and_measure"])
def _(v):
    for bound in (False, True):
        seed, c_, mp, n = v.opaque("seed"), v.opaque("circuit", CIRCUIT), v.opaque("symbol_map"), v.int("n_samples", 1)
        sim = v.it.new_obj(v.fn(SM + "SymbolicSimulator"), {"number_of_circuits_run": 0, "number_of_jobs_run": 0, "_seed": seed})
        drawn, made = [], []
        v.contract(BM + "QuantumSimulator.get_wavefunction", lambda it, a, k: SU(WFOF(it.embed(a[1] if len(a) > 1 else k["circuit"])), WFI))

        def sample(it, a, k):
            d = dict(zip(["wavefunction", "n_samples", "seed"], a), **k)
            drawn.append(d)
            return it.new_list(Seq([Comp(d["n_samples"], z3.Int("smp"), [(True, (Unit(SU(SMP(it.embed(d["wavefunction"]), it.embed(d["seed"]), z3.Int("smp")), OPAQUE)),))])]))
        v.contract(C + "measurement:sample_from_wavefunction", sample)
        v.contract(C + "measurement:Measurements.__init__", lambda it, a, k: made.append(it.as_seq(a[1] if len(a) > 1 else k["bitstrings"])))
        run = lambda: v.call(v.attr(sim, "run_circuit_and_measure"), c_, n, *([mp] if bound else []))
        state = WFOF(BINDC(c_.term, mp.term) if bound else c_.term)
        v.assume(SYMN(state) >= 0)
        if v.it.decide(SYMN(state) > 0):
            v.raises(ValueError, run, "symbols left")
            v.prove(len(drawn) == 0, "nothing is drawn")
            continue
        r = run()
        if len(drawn) != 1 or len(made) != 1:
            raise Unsupported("samples are drawn in another way")
        v.prove(v.it.embed(drawn[0]["wavefunction"]) == state, "the state that is sampled")
        v.prove(v.it.eq(drawn[0]["n_samples"], n), "as many samples as asked")
        v.prove(v.it.embed(drawn[0].get("seed")) == seed.term, "with the simulator's seed")
        v.prove(r.cls.name == "Measurements", "measurements")
        j = v.int("j", 0)
        v.assume(j < n)
        v.prove(v.it.seq_len(made[0]) == n, "every sample")
        v.prove(v.it.embed(v.it.seq_get(made[0], j)) == SMP(state, seed.term, j), "the samples, in order")


EVT = z3.Function("expectation_of_term", U, U, U)
REAL = z3.Function("real_values", U, U)


@P.obligation("exact expectation values: of every term of the operator in the state of the circuit, in order, made real", targets=[BM + "QuantumSimulator.get_exact_expectation_values"],
              bound="operators of 0 to 4 terms, any terms")
def _(v):
    for k in range(5):
        for ising in (False, True):
            c_ = v.opaque("circuit", CIRCUIT)
            ts = [v.opaque(f"term{i}") for i in range(k)]
            conv = lambda t: SU(z3.Function("as_qubit_operator", U, U)(t.term), OPAQUE) if ising else t
            sim = v.it.new_obj(v.fn(BM + "QuantumSimulator"), {"number_of_circuits_run": 0, "number_of_jobs_run": 0})
            v.contract(BM + "QuantumSimulator.get_wavefunction", lambda it, a, kw: SU(WFOF(it.embed(a[1] if len(a) > 1 else kw["circuit"])), WFI))
            op = SU(z3.Const("operator", U), Iface("operator", iter=lambda it, s: Seq.of(ts), classes=("IsingOperator",) if ising else ()))
            quop = SU(z3.Const("converted", U), Iface("operator", iter=lambda it, s: Seq.of([conv(t) for t in ts])))
            into = []

            def change(it, a, kw):
                into.append(a[1] if len(a) > 1 else kw.get("new_operator_type"))
                return quop
            v.contract(C + "openfermion.zapata_utils._utils:change_operator_type", change)
            v.contract(C + "openfermion.zapata_utils._utils:get_expectation_value", lambda it, a, kw: SU(EVT(it.embed(a[0]), it.embed(a[1])), OPAQUE))
            made = []
            v.contract(C + "measurement:ExpectationValues.__init__", lambda it, a, kw: made.append((a[0], a[1] if len(a) > 1 else kw["values"])))
            reals = []
            v.contract(C + "measurement:expectation_values_to_real", lambda it, a, kw: reals.append(a[0]) or SU(z3.Const("real_result", U), OPAQUE))
            r = v.call(v.attr(sim, "get_exact_expectation_values"), c_, op)
            if len(made) != 1 or len(reals) != 1:
                raise Unsupported("values are collected in another way")
            got = v.it.arr_vals(made[0][1]) if hasattr(made[0][1], "shape") else v.it.as_seq(made[0][1]).concrete()
            v.prove(len(got) == k, f"{k} values")
            for i in range(k):
                v.prove(v.it.embed(got[i]) == EVT(conv(ts[i]).term, WFOF(c_.term)), f"value {i} of {k}")
            v.prove(reals[0] is made[0][0] or v.it.eq(reals[0], made[0][0]), "made real")
            v.prove(v.it.embed(r) == z3.Const("real_result", U), "and returned")
            if ising:
                v.prove(len(into) == 1 and getattr(into[0], "name", None) == "QubitOperator", "Ising operators are read as qubit operators")


@P.obligation("the exact distribution of a circuit is made from the probabilities of its state", targets=[BM + "QuantumSimulator.get_measurement_outcome_distribution", BM + "QuantumSimulator.get_bitstring_distribution"])
def _(v):
    PR, DI, DD = (z3.Function(x, U, U) for x in ("probabilities", "distribution", "dictionary"))
    c_ = v.opaque("circuit", CIRCUIT)
    sim = v.it.new_obj(v.fn(BM + "QuantumSimulator"), {"number_of_circuits_run": 0, "number_of_jobs_run": 0})
    wfi = Iface("wavefunction", methods={"get_probabilities": lambda it, s, a, k: SU(PR(s.term), OPAQUE)})
    dist = Iface("distribution", attrs={"distribution_dict": lambda it, s: SU(DD(s.term), OPAQUE)})
    v.contract(BM + "QuantumSimulator.get_wavefunction", lambda it, a, k: SU(WFOF(it.embed(a[1] if len(a) > 1 else k["circuit"])), wfi))
    v.contract(C + "distribution._measurement_outcome_distribution:create_bitstring_distribution_from_probability_distribution", lambda it, a, k: SU(DI(it.embed(a[0])), dist))
    want = DI(PR(WFOF(c_.term)))
    v.prove(v.it.embed(v.call(v.attr(sim, "get_measurement_outcome_distribution"), c_)) == want, "distribution")
    made = []
    v.contract(C + "distribution._measurement_outcome_distribution:MeasurementOutcomeDistribution.__init__", lambda it, a, k: made.append(a[1] if len(a) > 1 else k.get("distribution_dict")))
    v.call(v.attr(sim, "get_bitstring_distribution"), c_)
    if len(made) != 1:
        raise Unsupported("made in another way")
    v.prove(v.it.embed(made[0]) == DD(want), "bitstring distribution")
