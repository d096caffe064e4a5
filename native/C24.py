"""Bounded contracts for C24 (finite differences, derivative circuits of the Trotterized evolution)."""
import itertools, math
import numpy as np
import ops as O
import ref
from native_lib import clause
from zquantum.core.evolution import time_evolution, time_evolution_derivatives, _generate_circuit_sequence
from zquantum.core.circuits import RX, Circuit, X
from zquantum.core.gradients import finite_differences_gradient
from zquantum.core.openfermion import QubitOperator


@clause("finite differences", budget=20)
def _(t):
    for _ in range(t.n(150)):
        k = t.rng.randint(0, 6)
        x = t.np_rng.randn(k) if t.rng.random() < .8 else t.np_rng.randint(-4, 5, size=k)
        h = t.rng.choice([None, 1e-3, .25, 1.0])
        with t.case(f"{x.tolist()} step {h}", trivial=k == 0):
            calls = []
            def f(v):
                calls.append(np.array(v, dtype=float))
                return float(sum((i + 1.5) * math.sin(a * (i + 1)) for i, a in enumerate(v)) + np.prod(v))
            def pure(v):
                return float(sum((i + 1.5) * math.sin(a * (i + 1)) for i, a in enumerate(v)) + np.prod(v))
            keep = x.copy()
            g = finite_differences_gradient(f) if h is None else finite_differences_gradient(f, h)
            for _r in range(2):
                r = g(x)
                t.ok(np.array_equal(x, keep) and x.dtype == keep.dtype, "caller's parameters unchanged")
                t.eq(len(r), k, "one component per parameter")
                e = 1e-5 if h is None else h
                for i in range(k):
                    p, m = keep.astype(float), keep.astype(float)
                    p[i] += e
                    m[i] -= e
                    t.close(r[i], (pure(p) - pure(m)) / (2 * e), f"component {i}", 1e-6)
            for c in calls:
                d = np.abs(c - keep)
                t.ok(np.count_nonzero(d > 1e-9) == 1, "evaluated at otherwise unchanged parameters")
    for _ in range(t.n(40)):
        k = t.rng.randint(1, 5)
        x = t.np_rng.randn(k) * 10.0 ** t.np_rng.randint(-8, 9, size=k)
        h = t.rng.choice([None, 1e-3, .25, 1.0])
        e = 1e-5 if h is None else h
        with t.case(f"evaluation points: {x.tolist()} step {h}"):
            calls = []
            def g(v):
                calls.append(np.array(v, dtype=float))
                return float(v[0])
            (finite_differences_gradient(g) if h is None else finite_differences_gradient(g, h))(x)
            for i in range(k):
                for sign in (1, -1):
                    want = x.copy()
                    want[i] += sign * e
                    t.ok(any(np.array_equal(np.delete(c, i), np.delete(want, i)) and abs(c[i] - want[i]) <= 1e-6 * e + 4 * np.spacing(abs(want[i]))
                             for c in calls), f"evaluated at coordinate {i} moved by {sign} step")
    for k in (1, 3):
        with t.case(f"function that changes its argument, {k} parameters"):
            def bad(v):
                s = float(np.sum(v ** 2))
                v *= 0
                return s
            x = np.arange(1.0, k + 1)
            r = finite_differences_gradient(bad, 1e-3)(x)
            t.close(r, 2 * np.arange(1.0, k + 1), "gradient", 1e-6)
            t.ok(np.array_equal(x, np.arange(1.0, k + 1)), "caller's parameters unchanged")


def unitary(c, n):
    u = np.eye(2 ** n, dtype=complex)
    for o in c.operations:
        u = ref.lift(ref.npm(o.gate.matrix), o.qubit_indices, n) @ u
    return u


def trotter(terms, n, time, order):
    u = np.eye(2 ** n, dtype=complex)
    for _ in range(order):
        for x, c in terms:
            if x:
                p = O.term_matrix("qubit", x, n)
                a = time / order * c
                u = (math.cos(a) * np.eye(2 ** n) - 1j * math.sin(a) * p) @ u
    return u


def hamiltonian(t, n):
    op = QubitOperator()
    for _ in range(t.rng.randint(1, 3)):
        x = tuple((q, t.rng.choice("XYZ")) for q in sorted(t.rng.sample(range(n), t.rng.randint(0 if t.rng.random() < .2 else 1, n))))
        op.terms[x] = t.rng.choice([1.0, -.5, .3, 2.0, t.rng.uniform(-2, 2)])
    return op


@clause("derivative circuits", budget=60)
def _(t):
    for _ in range(t.n(60)):
        n = t.rng.randint(1, 3)
        op, time, order = hamiltonian(t, n), t.rng.choice([0.0, .4, -1.3, t.rng.uniform(-2, 2)]), t.rng.choice([1, 1, 2, 3])
        with t.case(f"{op.terms} time {time} order {order}", trivial=list(op.terms) == [()]):
            keep = list(op.terms.items())
            circs, factors = time_evolution_derivatives(op, time, trotter_order=order)
            t.eq(list(op.terms.items()), keep, "Hamiltonian unchanged")
            t.eq(len(circs), len(factors), "one factor per circuit")
            psi = ref.rand_state(t.np_rng, n)
            m = t.np_rng.randn(2 ** n, 2 ** n) + 1j * t.np_rng.randn(2 ** n, 2 ** n)
            m = m + m.conj().T
            def ev(u):
                v = u @ psi
                return float(np.real(v.conj() @ m @ v))
            e = 1e-5
            want = (ev(trotter(keep, n, time + e, order)) - ev(trotter(keep, n, time - e, order))) / (2 * e)
            got = sum(f * ev(unitary(c, n)) for c, f in zip(circs, factors))
            t.close(got, want, "weighted sum of expectation values is the derivative", 1e-5)
    with t.case("unsupported method"):
        t.raises(ValueError, lambda: time_evolution_derivatives(QubitOperator("X0"), .1, method="Magnus"), "method")
    for length in range(1, 5):
        for pos in range(0, 6):
            with t.case(f"sequence of {length}, position {pos}"):
                a, b = Circuit([RX(.1)(0), X(1)]), Circuit([RX(.2)(0)])
                if pos >= length:
                    t.raises(ValueError, lambda: _generate_circuit_sequence(a, b, length, pos), "position out of range")
                else:
                    ops = [o for i in range(length) for o in (b if i == pos else a).operations]
                    t.eq(list(_generate_circuit_sequence(a, b, length, pos).operations), ops, "one copy replaced")
