"""C30: counters of backends, derived calls, tracking wrapper; any number of circuits, any batch size."""
from pyvc.contract import Property
from .spec import *

P = Property("C30", trusted=["numpy.ceil of an exact quotient (machine division of the number of circuits by the batch size read as exact)",
                             "a subclass of QuantumBackend calls the base class's run method once per run (documented protocol)",
                             "open/json.dumps write the given text (file system)"])
BM = C + "interfaces.backend:"
TM = C + "trackers:"
MOM = C + "measurement:"

RUN = z3.Function("measured", U, z3.IntSort(), U)
CIRC = Iface("circuit", attrs={"operations": lambda it, s: SU(z3.Function("operations_of", U, U)(s.term), OPSI)})
OPSI = Iface("operations", length=lambda it, s: LENOPS(s.term))
LENOPS = z3.Function("n_operations", U, z3.IntSort())
DIST = z3.Function("distribution_of", U, U)
DDICT = z3.Function("distribution_dict_of", U, U)
MEAS = Iface("measurements", methods={"get_distribution": lambda it, s, a, k: SU(DIST(s.term), DISTI)})
DISTI = Iface("distribution", attrs={"distribution_dict": lambda it, s: SU(DDICT(s.term), OPAQUE)})


def backend(v, cls="QuantumBackend", **attrs):
    c0, j0 = v.int("circuits_before", 0), v.int("jobs_before", 0)
    o = v.it.new_obj(v.fn(BM + cls), {"number_of_circuits_run": c0, "number_of_jobs_run": j0, **attrs})
    return o, c0, j0


def counts(v, o, c, j, why):
    v.prove(v.attr(o, "number_of_circuits_run") == c, "circuits counted: " + why)
    v.prove(v.attr(o, "number_of_jobs_run") == j, "jobs counted: " + why)


@P.obligation("a new backend has counted nothing", targets=[BM + "QuantumBackend.__init__"])
def _(v):
    o = v.it.new_obj(v.fn(BM + "QuantumBackend"), {})
    v.call(v.attr(o, "__init__"))
    counts(v, o, 0, 0, "initially")


@P.obligation("a run is counted once, as one circuit and one job", targets=[BM + "QuantumBackend.run_circuit_and_measure"])
def _(v):
    o, c0, j0 = backend(v)
    n = v.int("n_samples", 1)
    v.call(v.attr(o, "run_circuit_and_measure"), v.opaque("circuit", CIRC), n)
    counts(v, o, c0 + 1, j0 + 1, "one run")


@P.obligation("a non-positive number of samples is rejected and not counted", targets=[BM + "QuantumBackend.run_circuit_and_measure"])
def _(v):
    o, c0, j0 = backend(v)
    n = v.int("n_samples", None, 0)
    v.raises(ValueError, lambda: v.call(v.attr(o, "run_circuit_and_measure"), v.opaque("circuit", CIRC), n), "rejected")
    counts(v, o, c0, j0, "rejected run")


def run_contract(v):
    """contract of run_circuit_and_measure for callers: counts one circuit and one job, result of this circuit and number of samples"""
    def h(it, a, k):
        names = ["self", "circuit", "n_samples"]
        d = dict(zip(names, a), **k)
        o = d["self"]
        it.setattr(o, "number_of_circuits_run", it.binop("+", it.getattr(o, "number_of_circuits_run"), 1))
        it.setattr(o, "number_of_jobs_run", it.binop("+", it.getattr(o, "number_of_jobs_run"), 1))
        n = d["n_samples"]
        return SU(RUN(it.embed(d["circuit"]), n if is_z3(n) else z3.IntVal(n)), MEAS)
    v.contract(BM + "QuantumBackend.run_circuit_and_measure", h)


def circuits(v):
    n = v.int("n_circuits", 0)
    f, s = z3.Function("circuit", z3.IntSort(), U), v.int_fn("n_samples_of", 1)
    return n, f, s, v.seq("circuits", n, lambda i: SU(f(i), CIRC)), v.seq("samples", n, lambda i: s(i))


@P.obligation("a set of circuits: one result per circuit, in order, with its number of samples, each counted once", targets=[BM + "QuantumBackend.run_circuitset_and_measure"])
def _(v):
    run_contract(v)
    o, c0, j0 = backend(v)
    n, f, s, cs, ns = circuits(v)
    r = v.call(v.attr(o, "run_circuitset_and_measure"), v.list(cs), v.list(ns))
    v.same(v.it.as_seq(r), v.seq("want", n, lambda i: SU(RUN(f(i), s(i)), MEAS)), "results")
    counts(v, o, c0 + n, j0 + n, "one per circuit")


@P.obligation("batched sets: every circuit counted once, one job per started batch", targets=[BM + "QuantumBackend.run_circuitset_and_measure"])
def _(v):
    b = v.int("batch_size", 1)
    o, c0, j0 = backend(v, supports_batching=True, batch_size=b)
    n, f, s, cs, ns = circuits(v)
    v.call(v.attr(o, "run_circuitset_and_measure"), v.list(cs), v.list(ns))
    v.prove(v.attr(o, "number_of_circuits_run") == c0 + n, "circuits counted")
    j = v.attr(o, "number_of_jobs_run") - j0
    v.prove(z3.And(j * b >= n, z3.Implies(n > 0, (j - 1) * b < n), z3.Implies(n == 0, j == 0)), "number of jobs is the number of started batches")


@P.obligation("distributions come from one counted run with the requested samples", targets=[BM + "QuantumBackend.get_measurement_outcome_distribution", BM + "QuantumBackend.get_bitstring_distribution"])
def _(v):
    run_contract(v)
    o, c0, j0 = backend(v)
    c_, n = v.opaque("circuit", CIRC), v.int("n", 1)
    d = v.call(v.attr(o, "get_measurement_outcome_distribution"), c_, n)
    v.prove(v.it.embed(d) == DIST(RUN(c_.term, n)), "distribution of the measurements")
    counts(v, o, c0 + 1, j0 + 1, "one run")


@P.obligation("a simulator asked for a sampled distribution makes one counted run", targets=[BM + "QuantumSimulator.get_measurement_outcome_distribution"])
def _(v):
    run_contract(v)
    o, c0, j0 = backend(v, "QuantumSimulator")
    c_, n = v.opaque("circuit", CIRC), v.int("n", 1)
    d = v.call(v.attr(o, "get_measurement_outcome_distribution"), c_, n)
    v.prove(v.it.embed(d) == DIST(RUN(c_.term, n)), "distribution of the measurements")
    counts(v, o, c0 + 1, j0 + 1, "one run")


# ---- tracking wrapper
COUNTS = z3.Function("counts_of", U, U)
NB = z3.Function("n_bitstrings", U, z3.IntSort())
BITS = Iface("bitstrings", length=lambda it, s: NB(s.term))
TMEAS = Iface("measurements", methods={"get_counts": lambda it, s, a, k: SU(COUNTS(s.term), OPAQUE)},
              attrs={"bitstrings": lambda it, s: SU(z3.Function("bitstrings_of", U, U)(s.term), BITS)})
ASK = z3.Function("inner_answer", U, U, U)
CDICT = z3.Function("circuit_dict", U, U)
INNER = z3.Const("inner", U)


def answer(it, name, circuit, n):
    return it.mk("inner_" + name, [circuit, n])


MI = z3.Function("measurement_of_set", U, z3.IntSort(), U)


def SETR(it, t, n):
    i = z3.Int(it.fresh_name("mi"))
    return it.new_list(Seq([Comp(n, i, [(True, (Unit(SU(MI(t, i), TMEAS)),))])]))


def tracker(v, record=False):
    """wrapped backend that answers with a function of the forwarded arguments; saving is observed through the list of rows"""
    calls, saved = [], []

    def fwd(name):
        def h(it, s, a, k):
            calls.append((name, list(a), dict(k)))
            names = ["circuits" if "set" in name else "circuit", "n_samples"]
            t = answer(it, name, *[dict(zip(names, a), **k)[x] for x in names])
            if "set" in name:
                n = it.seq_len(it.as_seq(a[0]))
                return SETR(it, t, n)
            return SU(t, TMEAS)
        return h
    inner = SU(INNER, Iface("backend", methods={m: fwd(m) for m in ("run_circuit_and_measure", "run_circuitset_and_measure", "get_bitstring_distribution", "get_measurement_outcome_distribution")}))
    o = v.it.new_obj(v.fn(TM + "MeasurementTrackingBackend"), {"inner_backend": inner, "record_bitstrings": record, "type": "Device", "raw_data": v.list([]), "raw_data_file_name": "f"})
    v.contract(C + "circuits._serde:to_dict", lambda it, a, k: SU(CDICT(it.embed(a[0])), OPAQUE))

    def save(it, a, k):
        saved.append(it.as_seq(it.getattr(a[0], "raw_data")))
        it.setattr(a[0], "raw_data", it.new_list([]))
    v.contract(TM + "MeasurementTrackingBackend.save_raw_data", save)
    return o, inner, calls, saved


def row(v, saved, why):
    if len(saved) != 1 or saved[0].concrete() is None or len(saved[0].concrete()) != 1:
        raise Unsupported("rows are kept in another way")
    rows = saved[0].concrete()
    return lambda k: v.it.getitem(rows[0], k)


@P.obligation("a tracked run returns what the wrapped backend returns and saves its row", targets=[TM + "MeasurementTrackingBackend.run_circuit_and_measure", TM + "MeasurementTrackingBackend.record_raw_measurement_data"])
def _(v):
    o, inner, calls, saved = tracker(v)
    c_, n = v.opaque("circuit", CIRC), v.int("n", 1)
    r = v.call(v.attr(o, "run_circuit_and_measure"), c_, n)
    want = answer(v.it, "run_circuit_and_measure", c_, n)
    v.prove(v.it.embed(r) == want, "the wrapped backend's answer to the same arguments")
    v.prove(len(calls) == 1, "one call to the wrapped backend")
    g = row(v, saved, "run")
    v.prove(v.it.embed(g("circuit")) == CDICT(c_.term), "circuit of the row")
    v.prove(v.it.embed(g("counts")) == COUNTS(want), "counts of the row")
    v.prove(g("number_of_gates") == LENOPS(z3.Function("operations_of", U, U)(c_.term)), "number of gates")
    v.prove(g("number_of_shots") == NB(z3.Function("bitstrings_of", U, U)(want)), "number of shots")
    v.same(g("device"), "Device", "device")
    v.prove(v.it.length(v.attr(o, "raw_data")) == 0, "nothing left over for the next file")


for _m in ("get_bitstring_distribution", "get_measurement_outcome_distribution"):
    def _mk(_m=_m):
        @P.obligation(f"tracked {_m} returns what the wrapped backend returns and saves its row", targets=[TM + "MeasurementTrackingBackend." + _m])
        def _(v):
            o, inner, calls, saved = tracker(v)
            c_, n = v.opaque("circuit", CIRC), v.int("n", 1)
            r = v.call(v.attr(o, _m), c_, n)
            want = answer(v.it, _m, c_, n)
            v.prove(v.it.embed(r) == want, "the wrapped backend's answer to the same arguments")
            v.prove(len(calls) == 1, "one call to the wrapped backend")
            g = row(v, saved, _m)
            v.prove(v.it.embed(g("circuit")) == CDICT(c_.term), "circuit of the row")
            v.prove(g("number_of_shots") == n, "number of shots")
            v.prove(g("number_of_gates") == LENOPS(z3.Function("operations_of", U, U)(c_.term)), "number of gates")
    _mk()


@P.obligation("a tracked set of circuits returns the wrapped backend's results and saves one row per circuit, in order", targets=[TM + "MeasurementTrackingBackend.run_circuitset_and_measure", TM + "MeasurementTrackingBackend.record_raw_measurement_data"])
def _(v):
    o, inner, calls, saved = tracker(v)
    n, f, s, cs, ns = circuits(v)
    lc, ln = v.list(cs), v.list(ns)
    t = answer(v.it, "run_circuitset_and_measure", lc, ln)
    r = v.call(v.attr(o, "run_circuitset_and_measure"), lc, ln)
    v.same(v.it.as_seq(r), v.seq("want", n, lambda i: SU(MI(t, i), TMEAS)), "the wrapped backend's answer to the same arguments")
    if len(saved) != 1:
        raise Unsupported("rows are kept in another way")
    v.prove(v.it.seq_len(saved[0]) == n, "one row per circuit")
    j = v.int("j", 0)
    v.assume(j < n)
    rw = v.it.thaw(v.it.seq_get(saved[0], j))
    g = lambda k: v.it.getitem(rw, k)
    v.prove(v.it.embed(g("circuit")) == CDICT(f(j)), "circuit of the j-th row")
    v.prove(v.it.embed(g("counts")) == COUNTS(MI(t, j)), "counts of the j-th row")
    v.prove(g("number_of_shots") == NB(z3.Function("bitstrings_of", U, U)(MI(t, j))), "number of shots of the j-th row")
    v.prove(g("number_of_gates") == LENOPS(z3.Function("operations_of", U, U)(f(j))), "number of gates of the j-th row")
    v.prove(v.it.length(v.attr(o, "raw_data")) == 0, "nothing left over for the next file")


@P.obligation("a simulator counts each native part of a circuit once", targets=[BM + "QuantumSimulator.get_wavefunction"])
def _(v):
    from . import C06
    from pyvc.loops import big_sum
    o, c0, j0 = backend(v, "QuantumSimulator")
    m, every = C06.world(v, o)
    C06.native_contract(v, BM + "QuantumSimulator._get_wavefunction_from_native_circuit")
    v.contract(C + "wavefunction:Wavefunction.__init__", lambda it, a, k: None)
    v.call(v.attr(o, "get_wavefunction"), v.opaque("circuit", C06.PART), C06.Act("apply", v.opaque("start", C06.STATE), Seq()))
    j = z3.Int("pj")
    want = big_sum(v.it, m, j, z3.If(C06.SUPP(j), z3.IntVal(1), z3.IntVal(0)))
    counts(v, o, c0 + want, j0 + want, "native parts")


@P.obligation("the symbolic simulator rejects a non-positive number of samples before simulating", targets=[C + "symbolic_simulator:SymbolicSimulator.run_circuit_and_measure"])
def _(v):
    o, c0, j0 = backend(v)
    o = v.it.new_obj(v.fn(C + "symbolic_simulator:SymbolicSimulator"), {"number_of_circuits_run": c0, "number_of_jobs_run": j0, "_seed": None})
    n = v.int("n_samples", None, 0)
    v.contract(BM + "QuantumSimulator.get_wavefunction", lambda it, a, k: it.setattr(a[0], "number_of_circuits_run", it.binop("+", it.getattr(a[0], "number_of_circuits_run"), 1)))
    v.raises(ValueError, lambda: v.call(v.attr(o, "run_circuit_and_measure"), v.opaque("circuit", CIRC), n), "rejected")
    counts(v, o, c0, j0, "rejected run")
