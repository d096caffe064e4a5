"""Bounded contracts for C30 (backend counting and tracking)."""
import collections, json, math
import numpy as np
from native_lib import clause
from zquantum.core.bitstring_distribution import BitstringDistribution
from zquantum.core.circuits import CNOT, RX, RZ, H, X, Z, T, Circuit, MultiPhaseOperation, circuit_from_dict
from zquantum.core.distribution import MeasurementOutcomeDistribution as MOD
from zquantum.core.interfaces.backend import QuantumBackend, QuantumSimulator
from zquantum.core.interfaces.mock_objects import MockQuantumBackend
from zquantum.core.measurement import Measurements
from zquantum.core.openfermion import QubitOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.trackers import MeasurementTrackingBackend


class Scripted(QuantumBackend):
    """records what it is asked and answers with a fixed scheme"""
    def __init__(self, *a):
        super().__init__()
        self.asked = []

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        self.asked.append(("one", circuit, n_samples))
        return answer(circuit, n_samples, len(self.asked))


class Batching(QuantumBackend):
    supports_batching = True

    def __init__(self, size):
        self.batch_size = size
        super().__init__()
        self.asked = []

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        self.asked.append(("one", circuit, n_samples))
        return answer(circuit, n_samples, len(self.asked))

    def run_circuitset_and_measure(self, circuits, n_samples):
        super().run_circuitset_and_measure(circuits, n_samples)
        out = []
        for c, n in zip(circuits, n_samples):
            self.asked.append(("set", c, n))
            out.append(answer(c, n, len(self.asked)))
        return out


class Quick(Batching):
    def run_circuitset_and_measure(self, circuits, n_samples):
        return QuantumBackend.run_circuitset_and_measure(self, circuits, n_samples)


def answer(circuit, n, salt):
    rng = np.random.RandomState(salt)
    return Measurements([tuple(int(b) for b in rng.randint(0, 2, size=circuit.n_qubits)) for _ in range(n)])


def rand_circuit(t, nonunitary=False):
    n = t.rng.randint(1, 3)
    ops = []
    for _ in range(t.rng.randint(1, 6)):
        r = t.rng.random()
        if nonunitary and r < 0.35:
            ops.append(MultiPhaseOperation(tuple(t.rng.uniform(-3, 3) for _ in range(2 ** n))))
        elif r < 0.6 and n > 1:
            a, b = t.rng.sample(range(n), 2)
            ops.append(CNOT(a, b))
        elif r < 0.8:
            ops.append(t.rng.choice([RX, RZ])(t.rng.uniform(-3, 3))(t.rng.randrange(n)))
        else:
            ops.append(t.rng.choice([H, X, Z, T])(t.rng.randrange(n)))
    return Circuit(ops, n_qubits=n)


def counters(b):
    return b.number_of_circuits_run, b.number_of_jobs_run


def runs(circuit, native):
    """maximal groups of consecutive native operations"""
    k, prev = 0, False
    for o in circuit.operations:
        cur = native(o)
        k += cur and not prev
        prev = cur
    return k


class Native(QuantumSimulator):
    """simulator for which some operations are not native"""
    def __init__(self, native):
        super().__init__()
        self.native = native
        self.calls = 0

    def is_natively_supported(self, o):
        return self.native(o)

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        return answer(circuit, n_samples, 7)

    def _get_wavefunction_from_native_circuit(self, circuit, state):
        self.calls += 1
        for o in circuit.operations:
            state = o.apply(state)
        return state


NATIVE = {"gates only": lambda o: not isinstance(o, MultiPhaseOperation), "no CNOT": lambda o: not (getattr(getattr(o, "gate", None), "name", "") == "CNOT"), "nothing": lambda o: False, "all": lambda o: True,
          "no H": lambda o: getattr(getattr(o, "gate", None), "name", "") != "H"}


@clause("every run is counted once", budget=40)
def _(t):
    for _ in range(t.n(120)):
        size = t.rng.choice([None, 1, 2, 3, 5, 8])
        b = Scripted() if size is None else Batching(size)
        other = Scripted()
        script = [(t.rng.choice(["run", "run", "set", "mod", "bits", "bad", "bad mod"]), t.rng.randint(0, 9)) for _ in range(t.rng.randint(1, 7))]
        with t.case(f"batch size {size}: {script}"):
            c0, j0 = 0, 0
            t.eq(counters(b), (0, 0), "counters of a new backend")
            for what, k in script:
                circ = rand_circuit(t)
                n = t.rng.randint(1, 6)
                before = len(b.asked)
                if what == "run":
                    m = b.run_circuit_and_measure(circ, n)
                    c0, j0 = c0 + 1, j0 + 1
                elif what == "mod":
                    d = b.get_measurement_outcome_distribution(circ, n)
                    c0, j0 = c0 + 1, j0 + 1
                    t.ok(type(d) is MOD, "type of the distribution")
                    t.eq([x[2] for x in b.asked[before:]], [n], "samples asked for")
                    t.eq(d.distribution_dict, answer(circ, n, len(b.asked)).get_distribution().distribution_dict, "distribution of the measured bitstrings")
                elif what == "bits":
                    d = b.get_bitstring_distribution(circ, n)
                    c0, j0 = c0 + 1, j0 + 1
                    t.ok(isinstance(d, BitstringDistribution), "type of the distribution")
                    t.eq([x[2] for x in b.asked[before:]], [n], "samples asked for")
                elif what == "set":
                    pool = [rand_circuit(t) for _ in range(t.rng.randint(1, k + 1))]
                    cs = [t.rng.choice(pool) for _ in range(k)]
                    ns = [t.rng.randint(1, 6) for _ in cs]
                    r = b.run_circuitset_and_measure(cs, ns)
                    c0 += k
                    j0 += k if size is None else -(-k // size)
                    t.eq([(x[1], x[2]) for x in b.asked[before:]], list(zip(cs, ns)), "runs made for the set")
                    t.eq([m.bitstrings for m in r], [answer(c, q, before + 1 + i).bitstrings for i, (c, q) in enumerate(zip(cs, ns))], "results of the set")
                elif what == "bad":
                    t.raises(ValueError, lambda: b.run_circuit_and_measure(circ, t.rng.choice([0, -1, -7])), "non-positive number of samples")
                else:
                    t.raises(ValueError, lambda: b.get_measurement_outcome_distribution(circ, 0), "non-positive number of samples for a distribution")
                t.eq(counters(b), (c0, j0), f"counters after {what} {k}")
            t.eq(counters(other), (0, 0), "counters of another backend")


@clause("large batches are counted exactly")
def _(t):
    circ = Circuit([X(0)])
    for _ in range(t.n(200)):
        size = t.rng.choice([1, 2, 3, 7, 10, 49, 100, 1000])
        k = t.rng.choice([0, 1, size - 1, size, size + 1, 3 * size - 1, 3 * size, 3 * size + 1, t.rng.randint(0, 300)])
        k = min(k, 400)
        with t.case(f"{k} circuits in batches of {size}", trivial=k < 2):
            b = Quick(size)
            b.run_circuitset_and_measure([circ] * k, [1] * k)
            t.eq(counters(b), (k, -(-k // size)), "counters")


@clause("simulators count native runs", budget=40)
def _(t):
    for _ in range(t.n(120)):
        name = t.rng.choice(list(NATIVE))
        circ = rand_circuit(t, True)
        s = Native(NATIVE[name])
        k = runs(circ, NATIVE[name])
        op = QubitOperator("Z0") + QubitOperator("X0", 0.5)
        with t.case(f"native {name}: {circ}", trivial=name == "all"):
            tot = 0
            for what in t.rng.sample(["wave", "exact", "mod", "bits", "run", "sampled"], 4):
                if what == "wave":
                    s.get_wavefunction(circ)
                    tot += k
                elif what == "exact":
                    s.get_exact_expectation_values(circ, op)
                    tot += k
                elif what == "mod":
                    s.get_measurement_outcome_distribution(circ)
                    tot += k
                elif what == "bits":
                    s.get_bitstring_distribution(circ)
                    tot += k
                elif what == "run":
                    t.eq(len(s.run_circuit_and_measure(circ, 5).bitstrings), 5, "number of samples")
                    tot += 1
                else:
                    d = s.get_measurement_outcome_distribution(circ, 5)
                    t.eq(d.distribution_dict, answer(circ, 5, 7).get_distribution().distribution_dict, "distribution from samples")
                    tot += 1
                t.eq(counters(s), (tot, tot), f"counters after {what}")
    for _ in range(t.n(40)):
        circ = rand_circuit(t, True)
        s = SymbolicSimulator(seed=t.rng.randint(0, 9))
        with t.case(f"SymbolicSimulator: {circ}"):
            s.get_wavefunction(circ)
            t.eq(counters(s), (1, 1), "after the wavefunction")
            n = t.rng.randint(1, 9)
            m = s.run_circuit_and_measure(circ, n)
            t.eq(counters(s), (2, 2), "after measuring")
            t.eq(len(m.bitstrings), n, "number of samples")
            t.ok(all(len(b) == circ.n_qubits for b in m.bitstrings), "length of the bitstrings")
            for bad in (0, -3):
                t.raises(ValueError, lambda: s.run_circuit_and_measure(circ, bad), "non-positive number of samples")
            t.eq(counters(s), (2, 2), "after rejected runs")
            pool = [rand_circuit(t) for _ in range(t.rng.randint(1, 3))]
            cs = [t.rng.choice(pool) for _ in range(t.rng.randint(0, 4))]
            ns = [t.rng.randint(1, 7) for _ in cs]
            r = s.run_circuitset_and_measure(cs, ns)
            t.eq([len(m.bitstrings) for m in r], ns, "samples per circuit")
            t.eq([len(m.bitstrings[0]) for m in r], [c.n_qubits for c in cs], "qubits per circuit")
            t.eq(counters(s), (2 + len(cs),) * 2, "after a set of circuits")


@clause("results follow the order of the circuits")
def _(t):
    for _ in range(t.n(60)):
        k = t.rng.randint(0, 7)
        vals = [[t.rng.randint(0, 1) for _ in range(t.rng.randint(1, 3))] for _ in range(k)]
        cs = [Circuit([X(q) for q, v in enumerate(x) if v] + [Z(0)], n_qubits=len(x)) for x in vals]
        ns = [t.rng.randint(1, 8) for _ in cs]
        for mk in (MockQuantumBackend, SymbolicSimulator):
            b = mk()
            with t.case(f"{mk.__name__}: {vals} {ns}", trivial=k < 2):
                r = b.run_circuitset_and_measure(cs, ns)
                t.eq([[tuple(x) for x in m.bitstrings] for m in r], [[tuple(v)] * n for v, n in zip(vals, ns)], "measured bitstrings")
                t.eq(counters(b), (k, k), "counters")
                if k:
                    t.raises(ValueError, lambda: b.run_circuit_and_measure(cs[0], 0), "non-positive number of samples")
                    t.eq(counters(b), (k, k), "counters after a rejected run")


class Inner(Scripted):
    """also overrides the derived calls, to see that they are forwarded"""
    def run_circuitset_and_measure(self, circuits, n_samples):
        self.asked.append(("set", list(circuits), list(n_samples)))
        return [answer(c, n, len(self.asked) + i) for i, (c, n) in enumerate(zip(circuits, n_samples))]

    def get_measurement_outcome_distribution(self, circuit, n_samples):
        self.asked.append(("mod", circuit, n_samples))
        return MOD({tuple([0] * circuit.n_qubits): 0.25, tuple([1] * circuit.n_qubits): 0.75})

    def get_bitstring_distribution(self, circuit, n_samples):
        self.asked.append(("bits", circuit, n_samples))
        return BitstringDistribution({"0" * circuit.n_qubits: 0.25, "1" * circuit.n_qubits: 0.75})


@clause("tracking alters nothing and writes what was run", budget=40)
def _(t):
    for _ in range(t.n(120)):
        mk = t.rng.choice([Inner, Scripted, lambda: Batching(3)])
        inner, twin = mk(), mk()
        rec = t.rng.choice([None, False, True])
        b = MeasurementTrackingBackend(inner, "track.json") if rec is None else MeasurementTrackingBackend(inner, "track.json", record_bitstrings=rec)
        script = [(t.rng.choice(["run", "set", "mod", "bits"]), t.rng.randint(0, 4)) for _ in range(t.rng.randint(1, 6))]
        with t.case(f"inner {type(inner).__name__} bitstrings {rec}: {script}"):
            for what, k in script:
                circ, n = rand_circuit(t), t.rng.randint(1, 9)
                if what == "run":
                    got, want = b.run_circuit_and_measure(circ, n), twin.run_circuit_and_measure(circ, n)
                    t.eq(got.bitstrings, want.bitstrings, "measurements")
                    entries = [(circ, want)]
                elif what == "set":
                    pool = [rand_circuit(t) for _ in range(t.rng.randint(1, k + 1))]  # repetitions of one circuit object
                    cs = [t.rng.choice(pool) for _ in range(k)]
                    ns = [t.rng.randint(1, 9) for _ in cs]
                    got, want = b.run_circuitset_and_measure(cs, ns), twin.run_circuitset_and_measure(cs, ns)
                    t.eq([m.bitstrings for m in got], [m.bitstrings for m in want], "measurements of the set")
                    entries = list(zip(cs, want))
                elif what == "mod":
                    got, want = b.get_measurement_outcome_distribution(circ, n), twin.get_measurement_outcome_distribution(circ, n)
                    t.eq(got.distribution_dict, want.distribution_dict, "distribution")
                    entries = [(circ, want)]
                else:
                    got, want = b.get_bitstring_distribution(circ, n), twin.get_bitstring_distribution(circ, n)
                    t.eq(got.distribution_dict, want.distribution_dict, "bitstring distribution")
                    t.ok(isinstance(got, BitstringDistribution), "type of the distribution")
                    entries = [(circ, want)]
                t.eq(inner.asked, twin.asked, "calls received by the wrapped backend")
                t.eq(counters(inner), counters(twin), "counters of the wrapped backend")
                with open("track.json") as f:
                    data = json.load(f)
                rows = data["raw-data"]
                t.eq(len(rows), len(entries), f"entries in the file after {what} {k}")
                for row, (c, m) in zip(rows, entries):
                    t.eq(row["device"], type(inner).__name__, "device")
                    t.eq(circuit_from_dict(row["circuit"]), c, "circuit in the file")
                    t.eq(row["number_of_gates"], len(c.operations), "number of gates")
                    if what in ("run", "set"):
                        t.eq(row["data_type"], "measurement", "data type")
                        t.eq(row["number_of_shots"], len(m.bitstrings), "number of shots")
                        t.eq(row["counts"], dict(collections.Counter("".join(map(str, x)) for x in m.bitstrings)), "counts")
                        t.eq("bitstrings" in row, bool(rec), "bitstrings recorded")
                        if rec:
                            t.eq(row["bitstrings"], [list(x) for x in m.bitstrings], "bitstrings")
                    else:
                        t.eq(row["number_of_shots"], n, "number of shots")
                        t.eq(row["distribution"], repr(m), "distribution in the file")
    for _ in range(t.n(30)):
        sim = SymbolicSimulator(seed=4)
        b = MeasurementTrackingBackend(sim, "t2.json", record_bitstrings=True)
        circ, n = rand_circuit(t), t.rng.randint(1, 9)
        with t.case(f"tracked simulator {circ} {n}"):
            t.eq(b.run_circuit_and_measure(circ, n).bitstrings, SymbolicSimulator(seed=4).run_circuit_and_measure(circ, n).bitstrings, "measurements")
            t.eq(counters(sim), (1, 1), "counters")
            t.raises(ValueError, lambda: b.run_circuit_and_measure(circ, 0), "non-positive number of samples")
            t.eq(counters(sim), (1, 1), "counters after a rejected run")
