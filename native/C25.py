"""Bounded contracts for C25 (time evolution circuits)."""
import itertools, math
import numpy as np, sympy
import gen
import ops as O
import ref
from native_lib import clause
from zquantum.core.evolution import time_evolution, time_evolution_for_term
from zquantum.core.openfermion import QubitOperator


def unitary(c, n, env=None):
    u = np.eye(2 ** n, dtype=complex)
    for o in c.operations:
        m = o.gate.matrix
        m = ref.npm(m) if not env else gen.evalm(m, env)
        u = ref.lift(m, o.qubit_indices, n) @ u
    return u


def expm(x, c, time, n):
    if not x:
        return np.eye(2 ** n, dtype=complex)
    a = time * c
    return math.cos(a) * np.eye(2 ** n) - 1j * math.sin(a) * O.term_matrix("qubit", x, n)


@clause("evolution under one term", budget=60)
def _(t):
    n = 3
    strings = [tuple((q, p) for q, p in enumerate(s) if p) for s in itertools.product(["", "X", "Y", "Z"], repeat=3)]
    for x in strings:
        c, time = t.rng.choice([1.0, -.5, 2, .3, np.float64(.75)]), t.rng.choice([.4, -1.3, 1, 2.0])
        with t.case(f"{x} coefficient {c} time {time}", trivial=not x):
            op = QubitOperator(x, c)
            circ = time_evolution_for_term(op, time)
            t.eq(op.terms, {x: c}, "term unchanged")
            t.close(unitary(circ, n), expm(x, c, time, n), "exp(-i t c P)")
    for _ in range(t.n(60)):
        n = t.rng.randint(1, 5)
        x = tuple((q, t.rng.choice("XYZ")) for q in sorted(t.rng.sample(range(n), t.rng.randint(1, n))))
        c, time = t.rng.choice([t.rng.uniform(-3, 3), 1, complex(.5, 0)]), t.rng.choice([t.rng.uniform(-4, 4), 0.0, np.float64(1.1), 3])
        with t.case(f"{x} coefficient {c} time {time}"):
            circ = time_evolution_for_term(QubitOperator(x, c), time)
            t.close(unitary(circ, n), expm(x, np.real(c), time, n), "exp(-i t c P)")
            t.ok(circ.n_qubits == x[-1][0] + 1, "acts on the term's qubits")
    s, r = sympy.symbols("theta_1 alpha")
    for _ in range(t.n(25)):
        n = t.rng.randint(1, 3)
        x = tuple((q, t.rng.choice("XYZ")) for q in sorted(t.rng.sample(range(n), t.rng.randint(1, n))))
        c, time = t.rng.choice([t.rng.uniform(-3, 3), 1, -.5]), t.rng.choice([s, 2 * s, s + r, s * r, s / 3, -s])
        env = {s: t.rng.uniform(-2, 2), r: t.rng.uniform(-2, 2)}
        with t.case(f"{x} coefficient {c} time {time} at {env}"):
            circ = time_evolution_for_term(QubitOperator(x, c), time)
            t.eq(set(circ.free_symbols), time.free_symbols, "symbols")
            t.close(unitary(circ.bind(env), n), expm(x, c, gen.val(time, env), n), "exp(-i t c P) after binding")
    for bad in (QubitOperator("X0") + QubitOperator("Z1"), QubitOperator(), QubitOperator("X0") + 2.0):
        with t.case(f"not a single term {bad.terms}"):
            t.raises(ValueError, lambda: time_evolution_for_term(bad, .1), "single term")


@clause("Trotterized evolution", budget=60)
def _(t):
    s = sympy.Symbol("theta_1")
    for _ in range(t.n(80)):
        n = t.rng.randint(1, 3)
        op = QubitOperator()
        for _k in range(t.rng.randint(1, 4)):
            x = tuple((q, t.rng.choice("XYZ")) for q in sorted(t.rng.sample(range(n), t.rng.randint(0 if t.rng.random() < .15 else 1, n))))
            op.terms[x] = t.rng.choice([1.0, -.5, .3, 2, t.rng.uniform(-2, 2)])
        order = t.rng.choice([1, 1, 2, 3, 5])
        symbolic = t.rng.random() < .2
        time = t.rng.choice([.4, -1.3, 0, 2, t.rng.uniform(-2, 2)])
        with t.case(f"{op.terms} time {time} steps {order} symbolic {symbolic}", trivial=list(op.terms) == [()]):
            keep = list(op.terms.items())
            c = time_evolution(op, s if symbolic else time, **({} if order == 1 and t.rng.random() < .5 else dict(trotter_order=order)), **({} if t.rng.random() < .5 else dict(method="Trotter")))
            t.eq(list(op.terms.items()), keep, "Hamiltonian unchanged")
            if symbolic:
                c = c.bind({s: time})
            u = np.eye(2 ** n, dtype=complex)
            for _i in range(order):
                for x, co in keep:
                    u = expm(x, co, time / order, n) @ u
            t.close(unitary(c, n), u, "product of exponentials, in term order, repeated", 1e-7)
    for bad in ("Magnus", "trotter", "", None):
        with t.case(f"method {bad!r}"):
            t.raises(ValueError, lambda: time_evolution(QubitOperator("X0"), .1, method=bad), "unsupported method")
