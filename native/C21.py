"""Bounded contracts for C21 (shot allocation)."""
import fractions, itertools, math
import numpy as np
from native_lib import clause
from zquantum.core.circuits import RX, Circuit, X
from zquantum.core.estimation import allocate_shots_proportionally, allocate_shots_uniformly
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.utils import scale_and_discretize

F = fractions.Fraction


def check_split(t, values, total, r):
    t.eq(len(r), len(values), "one number per weight")
    for x in r:
        t.ok(isinstance(x, (int, np.integer)) and not isinstance(x, bool), f"integer, got {type(x).__name__}")
        t.ok(x >= 0, "non-negative")
    t.eq(sum(int(x) for x in r), total, "sums to the total")
    s = sum(F(float(v)) for v in values)
    for v, x in zip(values, r):
        d = abs(F(float(v)) * total / s - int(x))
        t.ok(d < 1 + F(total) / 10 ** 12, f"{x} for exact share {float(F(float(v)) * total / s)}")
        if v == 0:
            t.eq(int(x), 0, "nothing for weight zero")


@clause("scaling to an exact integer total", budget=40)
def _(t):
    for k in range(1, 5):
        for values in itertools.product((0, 1, 2, 3), repeat=k):
            if not any(values):
                continue
            for total in (0, 1, 2, 3, 5, 7, 12, 100):
                with t.case(f"{values} -> {total}", trivial=total == 0):
                    check_split(t, values, total, scale_and_discretize(list(values), total))
    for _ in range(t.n(1500)):
        k = t.rng.choice([1, 2, 3, 5, 17, 60])
        kind = t.rng.randrange(5)
        values = [[t.rng.uniform(0, 1), t.rng.choice([.1, .2, .3, .7]), 10 ** t.rng.uniform(-9, 6), float(t.rng.randint(0, 3)), 1 / t.rng.randint(1, 9)][kind] for _ in range(k)]
        if not any(values):
            continue
        total = t.rng.choice([1, 2, 10, 99, 1000, 12345, 10 ** 6, 10 ** 9, t.rng.randint(1, 10 ** 7)])
        arg = t.rng.choice([list, tuple, np.array])(values)
        with t.case(f"{type(arg).__name__} {values} -> {total}", trivial=k == 1):
            keep = list(values)
            check_split(t, keep, total, scale_and_discretize(arg, total))
            t.eq(list(arg), keep, "weights unchanged")


def tasks_of(t, n):
    out = []
    for i in range(n):
        op = QubitOperator()
        for q in t.rng.sample(range(5), t.rng.randint(1, 4)):
            op.terms[((q, t.rng.choice("XYZ")),)] = t.rng.choice([1.0, -.5, 2.0, t.rng.uniform(-3, 3)])
        if t.rng.random() < .4:
            op.terms[()] = t.rng.uniform(-5, 5)
        if t.rng.random() < .2:
            op = QubitOperator((), 3.0)
        out.append(EstimationTask(op, Circuit([RX(t.rng.uniform(-1, 1))(t.rng.randrange(3)) for _ in range(t.rng.randint(0, 3))], n_qubits=5), t.rng.choice([None, 5, 10])))
    if all(set(k.operator.terms) == {()} for k in out) and out:
        out[0] = EstimationTask(QubitOperator("X0 Y1", .75), out[0].circuit, None)
    return out


def same_but_shots(t, tasks, snap, r):
    t.eq(len(r), len(tasks), "one task per task")
    for a, (terms, circ, shots), b in zip(tasks, snap, r):
        t.eq(dict(a.operator.terms), terms, "input task unchanged")
        t.ok(a.circuit == circ and a.number_of_shots == shots, "input task unchanged")
        t.eq(dict(b.operator.terms), terms, "operator kept, in order")
        t.ok(b.circuit == circ and b.circuit.n_qubits == circ.n_qubits, "circuit kept")


@clause("allocation changes only the shots", budget=50)
def _(t):
    for _ in range(t.n(150)):
        tasks = tasks_of(t, t.rng.choice([1, 2, 3, 6]))
        snap = [(dict(k.operator.terms), k.circuit, k.number_of_shots) for k in tasks]
        total = t.rng.choice([1, 2, 10, 1000, t.rng.randint(1, 10 ** 6)])
        vals = [t.rng.choice([1.0 if x == () else t.rng.choice([0, .5, -.25, t.rng.uniform(-.99, .99)])]) for k in tasks for x in k.operator.terms]
        with t.case(f"{[s[0] for s in snap]} total {total} prior {vals}"):
            r = allocate_shots_uniformly(tasks, total)
            same_but_shots(t, tasks, snap, r)
            t.eq([k.number_of_shots for k in r], [total] * len(tasks), "same number for all")
            w = [math.sqrt(sum(c ** 2 for x, c in s[0].items() if x)) for s in snap]
            r = allocate_shots_proportionally(tasks, total)
            same_but_shots(t, tasks, snap, r)
            check_split_loose(t, w, total, [k.number_of_shots for k in r])
            it = iter(vals)
            w = [math.sqrt(sum(c ** 2 * (1 - next(it) ** 2) for c in s[0].values())) for s in snap]
            r = allocate_shots_proportionally(tasks, total, ExpectationValues(np.array(vals)))
            same_but_shots(t, tasks, snap, r)
            check_split_loose(t, w, total, [k.number_of_shots for k in r])
            for bad in (0, -1, -1000):
                t.raises(ValueError, lambda: allocate_shots_uniformly(tasks, bad), "non-positive budget")
                t.raises(ValueError, lambda: allocate_shots_proportionally(tasks, bad), "non-positive budget")
            t.raises(ValueError, lambda: allocate_shots_proportionally(tasks, total, ExpectationValues(np.array(vals + [0.5]))), "prior of wrong length")
            t.raises(ValueError, lambda: allocate_shots_proportionally(tasks, total, ExpectationValues(np.array(vals[1:]))), "prior of wrong length")
            t.raises(ValueError, lambda: allocate_shots_proportionally(tasks, total, ExpectationValues(np.array([2.0] + vals[1:]))), "prior out of range")


def check_split_loose(t, w, total, r):
    t.ok(all(isinstance(x, (int, np.integer)) and x >= 0 for x in r), f"non-negative integers {r}")
    t.eq(sum(int(x) for x in r), total, "sums to the budget")
    s = sum(w)
    for v, x in zip(w, r):
        t.ok(abs(v / s * total - x) < 1 + 1e-9 * total, f"{x} for exact share {v / s * total}")
        if v == 0:
            t.eq(int(x), 0, "nothing for a task without variance")
