"""Bounded contracts for C22 (estimation of task lists)."""
import copy, itertools, math, random
import numpy as np, sympy
import ops as O
import ref
from native_lib import clause
from zquantum.core.circuits import CNOT, RX, RY, RZ, Circuit, H, X
from zquantum.core.estimation import (calculate_exact_expectation_values, estimate_expectation_values_by_averaging, evaluate_estimation_circuits,
                                      evaluate_non_measured_estimation_tasks, perform_context_selection, group_greedily, group_individually, split_estimation_tasks_to_measure)
from zquantum.core.interfaces.backend import QuantumBackend
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import Measurements
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator


class Recording(QuantumBackend):
    """answers every circuit with samples that depend on the circuit and the call"""

    def __init__(self, seed):
        super().__init__()
        self.log, self.seed = [], seed

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        r = random.Random(f"{self.seed}/{len(self.log)}")
        b = [tuple(r.randint(0, 1) for _ in range(circuit.n_qubits)) for _ in range(n_samples)]
        self.log.append((circuit, n_samples, b))
        return Measurements(list(b))


def circuit(t, n, tag):
    return Circuit([RX(tag + .25)(0)] + [t.rng.choice([RX, RY, RZ])(t.rng.uniform(-3, 3))(t.rng.randrange(n)) for _ in range(2)], n_qubits=n)


def diagonal(t, n):
    cls = t.rng.choice([IsingOperator, QubitOperator])
    op = cls()
    for _ in range(t.rng.randint(1, 4)):
        qs = sorted(t.rng.sample(range(n), t.rng.randint(0, n)))
        op.terms[tuple((q, "Z") for q in qs)] = t.rng.choice([1.0, -.5, 2, t.rng.uniform(-3, 3)])
    return op


def constant_only(op):
    return list(op.terms) == [()]


def task_list(t):
    tasks = []
    for i in range(t.rng.randint(1, 7)):
        n = t.rng.randint(1, 4)
        r = t.rng.random()
        if r < .25:
            op, shots = t.rng.choice([IsingOperator, QubitOperator])((), t.rng.uniform(-9, 9)), t.rng.choice([None, 0, 5])
        elif r < .45:
            op, shots = diagonal(t, n), 0
        else:
            op, shots = diagonal(t, n), t.rng.choice([1, 2, 7, 20])
        c = circuit(t, n, i)
        if t.rng.random() < .1:
            c = Circuit([], n_qubits=n)
        if tasks and t.rng.random() < .3:  # circuit and operator objects used by several tasks
            other = t.rng.choice(tasks)
            c = other.circuit
            if len(op.terms) and max([q for term in op.terms for q, _ in term], default=0) >= c.n_qubits or t.rng.random() < .4:
                op = other.operator
                if shots is None and not constant_only(op):
                    shots = 3
        tasks.append(EstimationTask(op, c, shots))
    return tasks


def show(tasks):
    return " | ".join(f"{type(k.operator).__name__} {k.operator.terms} {k.circuit} {k.number_of_shots}" for k in tasks)


def snapshot(tasks):
    return [(id(k), dict(k.operator.terms), k.circuit, k.circuit.n_qubits, k.number_of_shots) for k in tasks]


@clause("one result per task, in order", budget=60)
def _(t):
    for i in range(t.n(200)):
        tasks = task_list(t)
        with t.case(show(tasks)):
            snap = snapshot(tasks)
            b = Recording(i)
            r = estimate_expectation_values_by_averaging(b, tasks)
            t.eq(snapshot(tasks), snap, "tasks unchanged")
            t.eq(len(r), len(tasks), "one result per task")
            log = iter(b.log)
            for j, (k, v) in enumerate(zip(tasks, r)):
                if constant_only(k.operator):
                    t.close(v.values, [k.operator.terms[()]], f"task {j}: constant")
                elif k.number_of_shots == 0:
                    t.close(v.values, [0.0], f"task {j}: no shots")
                else:
                    c, s, bits = next(log)
                    t.ok(c == k.circuit and s == k.number_of_shots, f"task {j}: own circuit and shots")
                    want = [co * sum((-1) ** sum(x[q] for q, _p in term) for x in bits) / len(bits) for term, co in k.operator.terms.items()]
                    t.close(v.values, want, f"task {j}: from its own samples")
                    t.eq(len(v.correlations), 1, "one frame")
                    t.ok(not np.iscomplexobj(v.values), "real values")
                    continue
                t.close(v.correlations, [[[0.0]]], "no correlation")
                t.close(v.estimator_covariances, [[[0.0]]], "no covariance")
            t.eq(list(log), [], "nothing else was run")
            t.eq(b.number_of_circuits_run, len(b.log), "runs")
    with t.case("no tasks", trivial=True):
        t.eq(estimate_expectation_values_by_averaging(Recording(0), []), [], "empty list")


@clause("splitting into measured and not measured", budget=25)
def _(t):
    for _ in range(t.n(200)):
        tasks = task_list(t)
        with t.case(show(tasks)):
            yes, no, iy, ino = split_estimation_tasks_to_measure(tasks)
            t.eq(len(yes), len(iy), "lengths")
            t.eq(len(no), len(ino), "lengths")
            t.eq(sorted(list(iy) + list(ino)), list(range(len(tasks))), "every index once")
            for part, idx, measured in ((yes, iy, True), (no, ino, False)):
                for k, i in zip(part, idx):
                    t.ok(k == tasks[i], "task at its index")
                    t.eq(not (constant_only(k.operator) or k.number_of_shots == 0), measured, "classification")
                t.eq(list(idx), sorted(idx), "order kept")
            v = evaluate_non_measured_estimation_tasks(no)
            t.eq(len(v), len(no), "one value each")
            for k, x in zip(no, v):
                t.close(x.values, [k.operator.terms[()] if constant_only(k.operator) else 0.0], "value")
            for k in yes:
                t.raises(RuntimeError, lambda: evaluate_non_measured_estimation_tasks([k]), "a task that needs measurement")


@clause("exact estimation", budget=60)
def _(t):
    for _ in range(t.n(40)):
        tasks = []
        for i in range(t.rng.randint(1, 4)):
            n = t.rng.randint(1, 3)
            c = Circuit([t.rng.choice([RX, RY, RZ])(t.rng.uniform(-3, 3))(t.rng.randrange(n)) for _ in range(4)] + ([CNOT(*t.rng.sample(range(n), 2))] if n > 1 else []), n_qubits=n)
            op = diagonal(t, n) if t.rng.random() < .4 else QubitOperator()
            for _k in range(t.rng.randint(1, 4)):
                if isinstance(op, QubitOperator):
                    op.terms[tuple((q, t.rng.choice("XYZ")) for q in sorted(t.rng.sample(range(n), t.rng.randint(0, n))))] = t.rng.choice([1.0, -.5, 2 + 0j, t.rng.uniform(-3, 3)])
            tasks.append(EstimationTask(op, c, t.rng.choice([None, 10])))
        with t.case(show(tasks)):
            snap = snapshot(tasks)
            r = calculate_exact_expectation_values(SymbolicSimulator(), tasks)
            t.eq(len(r), len(tasks), "one result per task")
            t.eq(snapshot(tasks), snap, "tasks unchanged")
            for k, v in zip(tasks, r):
                n = k.circuit.n_qubits
                psi = np.zeros(2 ** n, dtype=complex)
                psi[0] = 1
                for o in k.circuit.operations:
                    psi = ref.lift(ref.npm(o.gate.matrix), o.qubit_indices, n) @ psi
                want = [np.real(complex(co) * (psi.conj() @ O.term_matrix("qubit", term, n) @ psi)) for term, co in k.operator.terms.items()]
                t.close(v.values, want, "expectation of every term in the simulated state")
                t.ok(not np.iscomplexobj(v.values), "real")


@clause("estimates of basis states are exact through grouping and context selection", budget=60)
def _(t):
    """in an eigenstate of the measured basis, sampling gives the exact value"""
    import contextlib, io
    for _ in range(t.n(40)):
        n = t.rng.randint(1, 3)
        basis = {q: t.rng.choice("XYZ") for q in range(n)}
        bit = {q: t.rng.randint(0, 1) for q in range(n)}
        c = Circuit(n_qubits=n)
        for q in range(n):
            if bit[q]:
                c += X(q)
            if basis[q] == "X":
                c += RY(np.pi / 2)(q)
            elif basis[q] == "Y":
                c += RX(-np.pi / 2)(q)
        op = QubitOperator()
        for _k in range(t.rng.randint(1, 5)):
            op.terms[tuple((q, basis[q]) for q in sorted(t.rng.sample(range(n), t.rng.randint(0, n))))] = t.rng.uniform(-3, 3)
        tasks = [EstimationTask(op, c, 3)] * t.rng.randint(1, 2)
        want = sum(co * (-1) ** sum(bit[q] for q, _p in term) for term, co in op.terms.items()) * len(tasks)
        with t.case(f"{basis} {bit} {op.terms} x{len(tasks)}"):
            for name, pre in (("individual", group_individually), ("greedy", group_greedily), ("sorted", lambda x: group_greedily(x, sort_terms=True))):
                with contextlib.redirect_stdout(io.StringIO()):
                    r = estimate_expectation_values_by_averaging(SymbolicSimulator(seed=7), perform_context_selection(pre(tasks)))
                t.close(sum(np.sum(x.values) for x in r), want, f"{name}: exact value of an eigenstate")
            r = estimate_expectation_values_by_averaging(SymbolicSimulator(seed=7), perform_context_selection(tasks))
            t.close(sum(np.sum(x.values) for x in r), want, "whole group")


@clause("binding task circuits", budget=40)
def _(t):
    a, b, c = sympy.symbols("alpha beta theta_1")
    for _ in range(t.n(60)):
        tasks = [EstimationTask(QubitOperator("Z0", i + 1.0), Circuit([t.rng.choice([RX, RY])(t.rng.choice([a, b, a + b, 2 * c, .5]))(t.rng.randrange(2)) for _ in range(3)], n_qubits=t.rng.randint(2, 4)), t.rng.choice([None, 3, 9]))
                 for i in range(t.rng.randint(1, 4))]
        maps = [{s: t.rng.uniform(-3, 3) for s in t.rng.sample([a, b, c], t.rng.randint(0, 3))} for _ in tasks]
        with t.case(f"{show(tasks)} {maps}"):
            snap, keep = snapshot(tasks), copy.deepcopy(maps)
            for label, m in (("one map each", maps), ("one map for all", maps[:1])):
                r = evaluate_estimation_circuits(tasks, m)
                t.eq(len(r), len(tasks), f"{label}: one task per task")
                for k, x, y in zip(tasks, itertools.cycle(m), r):
                    t.eq(dict(y.operator.terms), dict(k.operator.terms), f"{label}: operator")
                    t.eq(y.number_of_shots, k.number_of_shots, f"{label}: shots")
                    t.ok(y.circuit == k.circuit.bind(x) and y.circuit.n_qubits == k.circuit.n_qubits, f"{label}: bound circuit")
            t.eq(snapshot(tasks), snap, "tasks unchanged")
            t.eq(maps, keep, "maps unchanged")
