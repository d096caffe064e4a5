"""Bounded contracts for C23 (cost functions)."""
import itertools, math, re, warnings
import numpy as np, sympy
from overrides import overrides
import ops as O
import ref
from native_lib import clause
from zquantum.core.circuits import CNOT, RX, RY, RZ, Circuit, H, X
from zquantum.core.cost_function import (AnsatzBasedCostFunction, add_normal_noise, create_cost_function, dynamic_circuit_estimation_tasks_factory,
                                         expectation_value_estimation_tasks_factory, fix_parameters, get_ground_state_cost_function,
                                         substitution_based_estimation_tasks_factory, sum_expectation_values)
from zquantum.core.estimation import allocate_shots_uniformly, calculate_exact_expectation_values, estimate_expectation_values_by_averaging, group_individually
from zquantum.core.interfaces.ansatz import Ansatz
from zquantum.core.interfaces.ansatz_utils import combine_ansatz_params
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.utils import ValueEstimate, create_symbols_map

warnings.simplefilter("ignore")
ROT = {"RX": (RX, ref.X), "RY": (RY, ref.Y), "RZ": (RZ, ref.Z)}
NAMES = [["theta_2", "theta_10", "theta_1"], ["b", "a", "c"], ["beta_1", "beta_0", "gamma_0"], ["theta_11", "theta_9", "theta_100", "theta_0"], ["x10", "x9"]]


def model(t):
    """gates: (name, qubit, symbol or value); some symbols used twice"""
    n = t.rng.randint(1, 2)
    names = t.rng.choice(NAMES)
    gates = [(t.rng.choice(list(ROT)), t.rng.randrange(n), s) for s in names]
    gates += [(t.rng.choice(list(ROT)), t.rng.randrange(n), t.rng.choice(names + [.7, -1.1])) for _ in range(2)]
    t.rng.shuffle(gates)
    if n == 2:
        gates.insert(t.rng.randint(0, len(gates)), ("CNOT", *t.rng.sample(range(2), 2)))
    return n, names, gates


def circuit(n, gates, env=None):
    ops = []
    for g, q, p in gates:
        if g == "CNOT":
            ops.append(CNOT(q, p))
        else:
            v = p if not isinstance(p, str) else (sympy.Symbol(p) if env is None else env[p])
            ops.append(ROT[g][0](v)(q))
    return Circuit(ops, n_qubits=n)


def state(n, gates, env):
    psi = np.zeros(2 ** n, dtype=complex)
    psi[0] = 1
    cx = np.eye(4)[[0, 1, 3, 2]]
    for g, q, p in gates:
        m = ref.lift(cx, (q, p), n) if g == "CNOT" else ref.lift(ref.rot(ROT[g][1], env[p] if isinstance(p, str) else p), (q,), n)
        psi = m @ psi
    return psi


def operator(t, n):
    op = QubitOperator()
    for _ in range(t.rng.randint(1, 3)):
        op.terms[tuple((q, t.rng.choice("XYZ")) for q in sorted(t.rng.sample(range(n), t.rng.randint(0, n))))] = t.rng.choice([1.0, -.5, 2, t.rng.uniform(-3, 3)])
    return op


def energy(op, n, gates, names, values):
    psi = state(n, gates, dict(zip(names, values)))
    return float(np.real(psi.conj() @ O.matrix(op, n) @ psi))


class Layers(Ansatz):
    """an ansatz with a fixed circuit, defined by the model's gates"""
    supports_parametrized_circuits = True

    def __init__(self, n, gates, order):
        super().__init__(1)
        self.n, self.gates, self.order = n, gates, order

    @property
    def number_of_qubits(self):
        return self.n

    @overrides
    def _generate_circuit(self, params=None):
        env = None if params is None else dict(zip(self.order, [float(x) for x in params]))
        return circuit(self.n, self.gates, env)


def revlex(names):
    """documented ordering of ansatz symbols: natural, last index most significant"""
    return sorted(names, key=lambda s: [int(x) if x.isdigit() else x for x in re.split(r"(\d+)", s)][::-1])


SIM = SymbolicSimulator()


@clause("value of a cost function", budget=70)
def _(t):
    exact = calculate_exact_expectation_values
    for _ in range(t.n(40)):
        n, names, gates = model(t)
        op = operator(t, n)
        order = sorted(names)
        revkey = t.rng.random() < .3
        key = (lambda s: tuple(-ord(c) for c in str(s))) if revkey else str
        order = sorted(names, key=key)
        k = t.rng.randint(0, len(names))
        vals = [t.rng.uniform(-3, 3) for _ in names]
        fixed, free = np.array(vals[:k]), np.array(vals[k:])
        prep = t.rng.choice([None, [group_individually]])
        with t.case(f"{gates} {op.terms} key {'reversed' if revkey else 'str'} fixed {fixed} free {free} grouped {prep is not None}"):
            want = energy(op, n, gates, order, vals)
            a = free.copy()
            kw = {} if not revkey else dict(symbols_sort_key=key)
            tasks = expectation_value_estimation_tasks_factory(op, circuit(n, gates), prep, **kw)
            f = create_cost_function(SIM, tasks, exact, parameter_preprocessors=[fix_parameters(fixed)])
            for _i in range(2):
                t.close(float(f(a)), want, "create_cost_function, called repeatedly")
                t.ok(np.array_equal(a, free), "caller's parameters unchanged")
                t.close(float(f(a + .4)), energy(op, n, gates, order, list(fixed) + list(free + .4)), "other parameters")
            g = get_ground_state_cost_function(op, circuit(n, gates), SIM, exact, prep, fixed_parameters=fixed, **kw)
            for _i in range(2):
                t.close(float(g(a)), want, "ground state cost function")
                t.ok(np.array_equal(a, free), "caller's parameters unchanged")
            full = np.array(vals)
            h = create_cost_function(SIM, tasks, exact)
            t.close(float(h(full)), want, "without preprocessors")
            t.ok(isinstance(h(full), ValueEstimate), "value estimate")
            for bad in (np.append(full, .1), full[:-1]):
                t.raises(ValueError, lambda: h(bad), "wrong number of parameters")
            order2 = revlex(names)
            ans = Layers(n, gates, order2)
            want2 = energy(op, n, gates, order2, vals)
            sub = create_cost_function(SIM, substitution_based_estimation_tasks_factory(op, ans, prep), exact)
            dyn = create_cost_function(SIM, dynamic_circuit_estimation_tasks_factory(op, ans, prep), exact)
            old = AnsatzBasedCostFunction(op, ans, SIM, exact, prep, fixed_parameters=fixed)
            for _i in range(2):
                t.close(float(sub(full)), want2, "substitution based")
                t.close(float(dyn(full)), want2, "dynamic circuit")
                t.close(float(old(a)), want2, "ansatz based cost function")
                t.ok(np.array_equal(a, free) and np.array_equal(full, vals), "caller's parameters unchanged")
            t.eq(op.terms, dict(op.terms), "operator")


@clause("gradient of a cost function", budget=40)
def _(t):
    exact = calculate_exact_expectation_values
    for _ in range(t.n(6)):
        n, names, gates = model(t)
        op = operator(t, n)
        order = sorted(names)
        vals = np.array([t.rng.uniform(-3, 3) for _ in names])
        with t.case(f"{gates} {op.terms} {vals}"):
            f = create_cost_function(SIM, expectation_value_estimation_tasks_factory(op, circuit(n, gates)), exact)
            keep = vals.copy()
            g = f.gradient(vals)
            t.ok(np.array_equal(vals, keep), "caller's parameters unchanged")
            t.eq(len(g), len(vals), "one component per parameter")
            e = 1e-5
            for i in range(len(vals)):
                p, m = keep.copy(), keep.copy()
                p[i] += e
                m[i] -= e
                t.close(g[i], (energy(op, n, gates, order, p) - energy(op, n, gates, order, m)) / (2 * e), f"component {i}", 1e-4)


@clause("preprocessors", budget=30)
def _(t):
    for _ in range(t.n(60)):
        k, m = t.rng.choice([0, 1, 2, 3, 4, 12]), t.rng.choice([0, 1, 2, 3, 4, 5, 7, 40])
        a, b = t.np_rng.randn(k), t.np_rng.randn(m)
        if t.rng.random() < .2:
            b = t.np_rng.randint(-3, 4, size=m)
        sd, seed = t.rng.choice([.1, 2.0, 1e-5]), t.rng.randint(0, 10 ** 6)
        with t.case(f"{a} {b} sd {sd} seed {seed}", trivial=not k or not m):
            ka, kb = a.copy(), b.copy()
            t.ok(np.array_equal(combine_ansatz_params(a, b), np.array(list(a) + list(b))), "combined, first then second")
            f = fix_parameters(a)
            for x in (b, b + 1, b):
                t.ok(np.array_equal(f(x), np.array(list(ka) + list(x))), "fixed parameters first")
            nz = add_normal_noise(sd, seed)
            rng = np.random.default_rng(seed)
            reused = b.copy()
            for x in (b, b + 1, b, reused, reused):
                kx = x.copy()
                r = nz(x)
                t.close(r, kx + rng.normal(0.0, sd, len(x)), "the documented noise, one generator per preprocessor")
                t.ok(np.array_equal(x, kx) and x.dtype == kx.dtype, "argument unchanged")
                t.ok(not np.shares_memory(r, x), "result shares nothing with the argument")
                reused += 1          # the same array object, with new values
            t.ok(np.array_equal(a, ka) and np.array_equal(b, kb), "inputs unchanged")
            r = f(b)
            if len(r):
                r += 1
            t.ok(np.array_equal(a, ka) and np.array_equal(b, kb), "result shares nothing with the inputs")
            syms = sympy.symbols([f"s_{i}" for i in range(m)]) if m else []
            if m:
                mp = create_symbols_map(list(syms), b)
                t.eq({str(s): v for s, v in mp.items()}, {f"s_{i}": float(b[i]) for i in range(m)}, "i-th value to i-th symbol")
                t.raises(ValueError, lambda: create_symbols_map(list(syms), np.append(b, 1.0)), "too many values")
                t.raises(ValueError, lambda: create_symbols_map(list(syms), b[:-1]), "too few values")
    # order and number of applications
    for k in range(4):
        for container in (list, tuple, iter):
            with t.case(f"{k} preprocessors in a {container.__name__}", trivial=k == 0):
                log = []
                def pre(i):
                    def _p(x):
                        log.append(i)
                        return x * (i + 2) + i
                    return _p
                seen = []
                def factory(params):
                    seen.append(np.array(params))
                    return [EstimationTask(QubitOperator((), float(params[0])), Circuit(n_qubits=1), 1)]
                f = create_cost_function(SIM, factory, estimate_expectation_values_by_averaging, container([pre(i) for i in range(k)]))
                x = np.array([0.0, .5])
                for x0, new in ((1.5, True), (-2.0, True), (1.5, True), (1.5, False), (.25, False), (.25, False), (3.0, False)):
                    del log[:], seen[:]
                    if new:
                        x = np.array([x0, .5])
                    x[0] = x0           # or the same array object, with another value
                    want = np.array([x0, .5])
                    for i in range(k):
                        want = want * (i + 2) + i
                    v = f(x)
                    t.eq(log, list(range(k)), "each applied once, in order, at every evaluation")
                    t.close(seen[0], want, "composition")
                    t.close(float(v), want[0], "value")
                    t.ok(np.array_equal(x, [x0, .5]), "caller's array")


@clause("estimation preprocessors and noise of the older cost functions", budget=40)
def _(t):
    for _ in range(t.n(12)):
        n, names, gates = model(t)
        op = operator(t, n)
        order = sorted(names)
        k = t.rng.randint(0, len(names) - 1)
        vals = t.np_rng.randn(len(names))
        fixed, free = vals[:k], vals[k:]
        sd, seed = .3, t.rng.randint(0, 999)
        with t.case(f"{gates} {op.terms} {fixed} {free} sd {sd} seed {seed}"):
            noisy = vals + np.random.default_rng(seed).normal(0.0, sd, len(vals))
            log = []
            def p1(ts):
                log.append(1)
                return group_individually(ts)
            def p2(ts):
                log.append(2)
                return allocate_shots_uniformly(ts, 7)
            shots = []
            def est(backend, tasks):
                shots.append([x.number_of_shots for x in tasks])
                return calculate_exact_expectation_values(backend, tasks)
            keep = free.copy()
            g = get_ground_state_cost_function(op, circuit(n, gates), SIM, est, [p1, p2], fixed_parameters=fixed, parameter_precision=sd, parameter_precision_seed=seed)
            t.eq(log, [1, 2], "preprocessors once, in order")
            for _i in range(2):
                t.close(float(g(free)), energy(op, n, gates, order, noisy), "fixed parameters first, then noise on all")
                t.ok(np.array_equal(free, keep), "caller's parameters unchanged")
            t.eq(log, [1, 2], "not applied again at evaluation")
            t.eq(shots, [[7] * len(op.terms)] * 2, "tasks as preprocessed")
            order2 = revlex(names)
            del log[:]
            o = AnsatzBasedCostFunction(op, Layers(n, gates, order2), SIM, est, [p1, p2], fixed, sd, seed)
            for _i in range(2):
                t.close(float(o(free)), energy(op, n, gates, order2, noisy), "ansatz based, with noise")
                t.ok(np.array_equal(free, keep), "caller's parameters unchanged")
            t.eq(log, [1, 2], "preprocessors once, in order")
            o2 = AnsatzBasedCostFunction(op, Layers(n, gates, order2), SIM, est, parameter_precision=sd, parameter_precision_seed=seed)
            full = vals.copy()
            t.close(float(o2(full)), energy(op, n, gates, order2, noisy), "without fixed parameters")
            t.ok(np.array_equal(full, vals), "caller's parameters unchanged")


@clause("sum of expectation values", budget=15)
def _(t):
    for _ in range(t.n(80)):
        frames = [t.rng.randint(1, 3) for _ in range(t.rng.randint(1, 4))]
        v = t.np_rng.randn(sum(frames))
        covs = []
        for k in frames:
            m = t.np_rng.randn(k, k)
            covs.append(m @ m.T)
        with t.case(f"{v.tolist()} {[c.tolist() for c in covs]}"):
            r = sum_expectation_values(ExpectationValues(v.copy()))
            t.close(float(r), sum(v), "value")
            t.ok(r.precision is None, "no precision without covariances")
            r = sum_expectation_values(ExpectationValues(v.copy(), [c.copy() for c in covs], [c.copy() for c in covs]))
            t.close(float(r), sum(v), "value")
            t.close(r.precision, math.sqrt(sum(c.sum() for c in covs)), "precision")
