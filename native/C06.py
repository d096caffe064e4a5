"""Bounded contracts for C06 (splitting and simulating circuits)."""
import numpy as np, sympy
import ref, gen
from native_lib import clause
from zquantum.core import circuits as zc
from zquantum.core.circuits import split_circuit
from zquantum.core.interfaces.backend import QuantumSimulator
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.openfermion.ops import IsingOperator, QubitOperator
from zquantum.core.wavefunction import Wavefunction


class Sim(QuantumSimulator):
    """simulator whose native support is an arbitrary predicate; records native runs"""

    def __init__(self, supported):
        super().__init__()
        self.supported, self.runs = supported, []

    def is_natively_supported(self, operation):
        return self.supported(operation)

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.runs.append((circuit, np.array(initial_state, dtype=complex).copy()))
        st = np.array(initial_state, dtype=complex)
        for o in circuit.operations:
            st = mat(o, circuit.n_qubits) @ st
        return st

    def run_circuit_and_measure(self, circuit, n_samples):
        raise NotImplementedError


class PlainSim(Sim):
    def __init__(self):
        super().__init__(None)

    is_natively_supported = QuantumSimulator.is_natively_supported


def mat(o, n):
    if isinstance(o, zc.MultiPhaseOperation):
        return np.diag(np.exp(1j * np.array([float(p) for p in o.params])))
    return ref.lift(gen.evalm(o.gate.matrix, {}), o.qubit_indices, n)


def rand(t, n, length, mp=.3):
    l = [o.op for o in gen.ops(t.rng, n, length, symbolic=False)]
    for _ in range(length):
        if t.rng.random() < mp:
            l.insert(t.rng.randint(0, len(l)), zc.MultiPhaseOperation(tuple(t.rng.uniform(-4, 4) for _ in range(2 ** n))))
    return l


@clause("split_circuit: maximal runs, in order, full width", budget=20)
def _(t):
    for _ in range(t.n(300)):
        n = t.rng.randint(1, 3)
        l = rand(t, n, t.rng.randint(0, 8))
        width = n + t.rng.choice([0, 0, 2])
        c = zc.Circuit(l, n_qubits=width)
        kind = t.rng.choice(["alternating", "random", "type", "const", "first", "last"])
        marks = {"alternating": lambda i: i % 2 == 0, "random": lambda i: t.rng.random() < .5, "type": lambda i: isinstance(l[i], zc.GateOperation),
                 "const": lambda i: True, "first": lambda i: i == 0, "last": lambda i: i == len(l) - 1}[kind]
        flag = [bool(marks(i)) for i in range(len(l))]
        ids = {}
        for i, o in enumerate(l):
            ids.setdefault(id(o), flag[i])
        flag = [ids[id(o)] for o in l]
        asked = []

        def pred(o):
            asked.append(o)
            return ids[id(o)]
        with t.case(f"{len(l)} operations, flags {flag}, width {width}", trivial=not l):
            parts = list(split_circuit(c, pred))
            want = []
            for o, f in zip(l, flag):
                if want and want[-1][0] == f:
                    want[-1][1].append(o)
                else:
                    want.append((f, [o]))
            t.eq([f for f, _ in parts], [f for f, _ in want], "flags of the parts")
            for i, ((_, p), (_, w)) in enumerate(zip(parts, want)):
                t.ok(isinstance(p, zc.Circuit), "parts are circuits")
                t.eq(p.n_qubits, width, f"width of part {i}")
                t.ok(len(p.operations) == len(w) and all(a is b for a, b in zip(p.operations, w)), f"operations of part {i}")
            t.ok(len(c.operations) == len(l) and all(a is b for a, b in zip(c.operations, l)), "circuit unchanged")
            lazy = []
            for f, p in split_circuit(c, pred):
                lazy += list(p.operations)
            t.ok(len(lazy) == len(l) and all(a is b for a, b in zip(lazy, l)), "concatenation of the parts is the circuit")


@clause("get_wavefunction = operations in order, for every native support and initial state", budget=50)
def _(t):
    for k in range(t.n(90)):
        n = t.rng.randint(1, 4)
        l = rand(t, n, t.rng.randint(0, 6))
        width = n if any(isinstance(o, zc.MultiPhaseOperation) for o in l) else n + t.rng.choice([0, 0, 1])
        c = zc.Circuit(l, n_qubits=width)
        sup = {id(o): t.rng.random() < .6 for o in l}
        for o in l:
            if isinstance(o, zc.MultiPhaseOperation):
                sup[id(o)] = t.rng.random() < .3
        init = None
        kind = t.rng.choice(["none", "numpy", "basis", "list", "real", "nearly real", "nearly basis"])
        if kind == "numpy":
            init = ref.rand_state(t.np_rng, width)
        elif kind.startswith("nearly"):
            b = np.eye(2 ** width)[t.rng.randrange(2 ** width)] if kind.endswith("basis") else np.abs(ref.rand_state(t.np_rng, width))
            init = b + 10 ** t.rng.choice([-3, -4, -5]) * (1j if kind.endswith("real") else 1) * ref.rand_state(t.np_rng, width).real
            init = init / np.linalg.norm(init)
        elif kind in ("basis", "list"):
            init = [0] * 2 ** width
            init[t.rng.randrange(2 ** width)] = 1
            init = np.array(init) if kind == "basis" else init
        elif kind == "real":
            init = np.abs(ref.rand_state(t.np_rng, width))
        keep = None if init is None else list(np.array(init))
        psi = np.eye(2 ** width)[0].astype(complex) if init is None else np.array(init, dtype=complex)
        for o in l:
            psi = mat(o, width) @ psi
        for name, sim in (("arbitrary support", Sim(lambda o: sup[id(o)])), ("default support", PlainSim()), ("symbolic simulator", SymbolicSimulator())):
            with t.case(f"{name}: {[str(o)[:60] for o in l]} on {width}, support {[sup[id(o)] for o in l]}, initial {kind} #{k}"):
                wf = sim.get_wavefunction(c) if init is None else sim.get_wavefunction(c, init)
                t.ok(isinstance(wf, Wavefunction), "a wavefunction")
                t.close(np.array([complex(a) for a in wf.amplitudes]), psi, "final state")
                if init is not None:
                    t.eq([complex(a) for a in init], [complex(a) for a in keep], "initial state not modified")
                f = (lambda o: sup[id(o)]) if name.startswith("arb") else (lambda o: isinstance(o, zc.GateOperation)) if name.startswith("def") else (lambda o: True)
                fl = [f(o) for o in l]
                runs = sum(1 for i in range(len(fl)) if fl[i] and (i == 0 or not fl[i - 1]))
                t.eq(sim.number_of_circuits_run, runs, "circuits run = native runs")
                t.eq(sim.number_of_jobs_run, runs, "jobs run = native runs")
                if hasattr(sim, "runs"):
                    t.eq(len(sim.runs), runs, "native runs started")
                    t.ok(all(r.n_qubits == width for r, _ in sim.runs), "native runs on the full width")
                sim.get_wavefunction(c)
                t.eq(sim.number_of_circuits_run, 2 * runs, "circuits run after simulating again")
                t.eq(sim.number_of_jobs_run, 2 * runs, "jobs run after simulating again")


@clause("symbolic simulation agrees with binding first", budget=45)
def _(t):
    for _ in range(t.n(12)):
        n = t.rng.randint(1, 2)
        mo = gen.ops(t.rng, n, t.rng.randint(1, 3))
        e = gen.env(t.rng)
        c = zc.Circuit([o.op for o in mo], n_qubits=n)
        with t.case(f"{gen.text(mo)} at {sorted((str(k), v) for k, v in e.items())}"):
            want = gen.unitary(mo, n, e)[:, 0]
            sim = SymbolicSimulator()
            wf = sim.get_wavefunction(c)
            got = wf.bind(e) if wf.free_symbols else wf
            t.close(np.array([complex(a) for a in got.amplitudes]), want, "bound wavefunction of the symbolic circuit", tol=1e-6)
            wf2 = sim.get_wavefunction(c.bind(e))
            t.close(np.array([complex(a) for a in wf2.amplitudes]), want, "wavefunction of the bound circuit", tol=1e-6)


@clause("the returned wavefunction does not share memory with the initial state", budget=15)
def _(t):
    for l in ([], [zc.X(0)], [zc.MultiPhaseOperation((0.1, 0.2, 0.3, 0.4))], [zc.RX(0.3)(1), zc.CNOT(0, 1)]):
        for sim in (Sim(lambda o: False), SymbolicSimulator(), PlainSim()):
            with t.case(f"{[str(o) for o in l]} {type(sim).__name__}"):
                init = ref.rand_state(t.np_rng, 2)
                keep = init.copy()
                wf = sim.get_wavefunction(zc.Circuit(l, n_qubits=2), init)
                before = np.array(wf.amplitudes)
                wf[0:4] = np.array([0, 0, 1, 0])
                t.close(init, keep, "initial state after changing the result")
                init[:] = 0
                t.close(np.array(wf.amplitudes), [0, 0, 1, 0], "result after changing the initial state")


PAULI = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1.0, -1.0])}


def dense(term, n):
    d = dict(term)
    m = np.eye(1)
    for q in range(n):
        m = np.kron(m, PAULI[d.get(q, "I")])
    return m


@clause("exact readings of a simulated circuit", budget=30)
def _(t):
    for k in range(t.n(70)):
        n = t.rng.randint(1, 3)
        l = rand(t, n, t.rng.randint(0, 5), mp=.2)
        c = zc.Circuit(l, n_qubits=n)
        psi = np.eye(2 ** n)[0].astype(complex)
        for o in l:
            psi = mat(o, n) @ psi
        ising = t.rng.random() < .35
        terms = []
        for _i in range(t.rng.randint(1, 5)):
            qs = sorted(t.rng.sample(range(n), t.rng.randint(0, n)))
            term = tuple((q, "Z" if ising else t.rng.choice("XYZ")) for q in qs)
            if term not in [a for a, _b in terms]:
                terms.append((term, round(t.rng.uniform(.3, 2) * t.rng.choice([1, -1]), 3)))
        with t.case(f"{[str(o)[:50] for o in l]} on {n} {'Ising ' if ising else ''}operator {terms} #{k}"):
            op = (IsingOperator if ising else QubitOperator)()
            for a, b in terms:
                op += (IsingOperator if ising else QubitOperator)(a, b)
            for sim in (SymbolicSimulator(), PlainSim()):
                vals = sim.get_exact_expectation_values(c, op)
                want = [b * np.real(np.vdot(psi, dense(a, n) @ psi)) for a, b in terms]
                t.ok(np.isrealobj(vals.values), "real values")
                t.close(np.array(vals.values, dtype=float), np.array(want), "expectation value of every term, in order", tol=1e-7)
                d = sim.get_measurement_outcome_distribution(c).distribution_dict
                for name, dd in (("outcome distribution", d), ("bitstring distribution", sim.get_bitstring_distribution(c).distribution_dict)):
                    full = {tuple(int(x) for x in format(i, f"0{n}b")): abs(a) ** 2 for i, a in enumerate(psi)}
                    t.ok(all(q in full for q in dd), f"{name}: outcomes are tuples of bits, first qubit first")
                    t.ok(all(abs(dd.get(q, 0) - p) < 1e-7 for q, p in full.items()), f"{name}: probabilities of the state")


@clause("samples of a simulated circuit, symbols bound at the call", budget=30)
def _(t):
    for k in range(t.n(25)):
        n = t.rng.randint(1, 2)
        mo = gen.ops(t.rng, n, t.rng.randint(1, 3))
        e = gen.env(t.rng)
        c = zc.Circuit([o.op for o in mo], n_qubits=n)
        seed, m = t.rng.choice([0, t.rng.randint(1, 99)]), t.rng.randint(1, 40)
        if t.rng.random() < .3:
            e = {a: t.rng.choice([0, b]) for a, b in e.items()}
        with t.case(f"{gen.text(mo)} at {sorted((str(a), b) for a, b in e.items())} seed {seed} samples {m}"):
            psi = gen.unitary(mo, n, e)[:, 0]
            got = SymbolicSimulator(seed=seed).run_circuit_and_measure(c, m, e)
            t.eq(len(got.bitstrings), m, "number of samples")
            t.ok(all(len(b) == n and abs(psi[int("".join(map(str, b)), 2)]) > 1e-8 for b in got.bitstrings), "only outcomes of the bound state, first qubit first")
            t.eq(got.bitstrings, SymbolicSimulator(seed=seed).run_circuit_and_measure(c.bind(e), m).bitstrings, "same samples as of the bound circuit")
            t.eq(got.bitstrings, SymbolicSimulator(seed=seed).run_circuit_and_measure(c, m, symbol_map=e).bitstrings, "the seed decides the samples")
            if c.free_symbols:
                t.raises(ValueError, lambda: SymbolicSimulator().run_circuit_and_measure(zc.Circuit([zc.RX(c.free_symbols[0])(0)], n_qubits=n), m), "unbound symbols")
            t.raises(ValueError, lambda: SymbolicSimulator().run_circuit_and_measure(c, -1 if m % 2 else 0, e), "at least one sample")
    for angle in (.4, 1.3, 2.2):
        for q in (0, 1):
            with t.case(f"frequencies RX({angle}) on {q}"):
                th = sympy.Symbol("theta")
                r = SymbolicSimulator(seed=5).run_circuit_and_measure(zc.Circuit([zc.RX(th)(q)], n_qubits=2), 4000, {th: angle})
                f = sum(b[q] for b in r.bitstrings) / 4000
                t.ok(abs(f - np.sin(angle / 2) ** 2) < .05 and sum(b[1 - q] for b in r.bitstrings) == 0, f"frequency {f}")
