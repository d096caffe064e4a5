"""Generators of gates, operations and circuits with an independent numeric model."""
import math
import numpy as np, sympy
import ref
from zquantum.core import circuits as zc

SYMS = sympy.symbols("alpha beta gamma theta_1 theta_2 theta_10")


class ModelGate:
    """gate of the library with: function params -> matrix, structure"""


def custom_defs():
    a, b = sympy.symbols("alpha beta")
    rz = sympy.Matrix([[sympy.exp(-sympy.I * a / 2), 0], [0, sympy.exp(sympy.I * b / 2)]])
    two = sympy.diag(sympy.eye(2), sympy.Matrix([[sympy.cos(a), -sympy.sin(a)], [sympy.sin(a), sympy.cos(a)]]))
    fixed = sympy.Matrix([[0, sympy.I], [1, 0]])
    three = sympy.zeros(8)
    for i in range(8):
        three[(3 * i + 1) % 8, i] = sympy.exp(sympy.I * a * i)
    return [
        (zc.CustomGateDefinition("custom_three", three, (a,)), 1, lambda x: np.array([[np.exp(1j * x * i) if (3 * i + 1) % 8 == j else 0 for i in range(8)] for j in range(8)])),
        (zc.CustomGateDefinition("custom_ab", rz, (a, b)), 2, lambda x, y: np.diag([np.exp(-.5j * x), np.exp(.5j * y)])),
        (zc.CustomGateDefinition("custom_ba", rz, (b, a)), 2, lambda y, x: np.diag([np.exp(-.5j * x), np.exp(.5j * y)])),
        (zc.CustomGateDefinition("custom_two", two, (a,)), 1, lambda x: ref.blockdiag(np.eye(2), np.array([[math.cos(x), -math.sin(x)], [math.sin(x), math.cos(x)]]))),
        (zc.CustomGateDefinition("custom_fixed", fixed, ()), 0, lambda: np.array([[0, 1j], [1, 0]])),
    ]


class G:
    """library gate + model: model(env) -> numeric matrix for an assignment of symbols"""

    def __init__(self, gate, fn, params, text):
        self.gate, self.fn, self.params, self.text = gate, fn, tuple(params), text

    def matrix(self, env):
        return self.fn(*[val(p, env) for p in self.params])

    @property
    def symbols(self):
        out = set()
        for p in self.params:
            if isinstance(p, sympy.Expr):
                out |= p.free_symbols
        return out


def val(p, env):
    if isinstance(p, sympy.Expr):
        return float(sympy.N(p.subs({s: sympy.Float(v, 30) for s, v in env.items()}, simultaneous=True)))
    return float(p)


def base_gate(rng, symbolic=True, custom=True, qubits=None):
    for _ in range(1000):
        if custom and rng.random() < .2:
            d, k, f = rng.choice(custom_defs())
            ps = params(rng, k, symbolic)
            g = d(*ps)
            text = f"{d.gate_name}{tuple(ps)}"
        else:
            name = rng.choice(sorted(ref.GATES))
            k, q, f = ref.GATES[name]
            ps = params(rng, k, symbolic)
            g = zc.builtin_gate_by_name(name)
            g = g(*ps) if k else g
            text = f"{name}{tuple(ps)}" if k else name
        if qubits is None or g.num_qubits == qubits:
            return G(g, f, ps, text)
    raise RuntimeError


def params(rng, k, symbolic):
    return [param(rng, symbolic) for _ in range(k)]


def param(rng, symbolic=True):
    r = rng.random()
    if not symbolic or r < .4:
        return rng.choice([0, 0.25, -1.5, math.pi, math.pi / 3, 2, rng.uniform(-7, 7), rng.choice([1e-4, -3e-6, math.pi - 1e-5, math.pi / 2 + 2e-4, 2 * math.pi, -4 * math.pi, 25.0]), np.float64(rng.uniform(-3, 3))])
    if r < .55:
        return rng.choice(SYMS)
    a, b = rng.sample(list(SYMS), 2)
    return rng.choice([a + b, 2 * a, a - b / 3, a * b, a + 1, -a, a * sympy.Rational(1, 2) + sympy.pi / 4, a ** 2 - b, sympy.sin(a) + b])


def wrap(rng, g, depth, max_qubits=4):
    for _ in range(depth):
        if rng.random() < .5:
            g = G(g.gate.dagger, lambda *a, f=g.fn: f(*a).conj().T, g.params, g.text + ".dagger")
        else:
            k = rng.choice([1, 1, 2])
            if g.gate.num_qubits + k > max_qubits:
                continue
            g = G(g.gate.controlled(k), lambda *a, f=g.fn, k=k: ref.controlled(f(*a), k), g.params, g.text + f".controlled({k})")
    return g


def gate(rng, depth=3, max_qubits=3, **kw):
    while True:
        g = wrap(rng, base_gate(rng, **kw), rng.randint(0, depth), max_qubits)
        if g.gate.num_qubits <= max_qubits:
            return g


class Op:
    def __init__(self, g, qs):
        self.g, self.qs = g, tuple(qs)
        self.op = g.gate(*qs)
        self.text = f"{g.text}{self.qs}"


def ops(rng, n, length, **kw):
    return [(lambda g: Op(g, rng.sample(range(n), g.gate.num_qubits)))(gate(rng, max_qubits=min(3, n), **kw)) for _ in range(length)]


def unitary(model_ops, n, env):
    u = np.eye(2 ** n, dtype=complex)
    for o in model_ops:
        u = ref.lift(o.g.matrix(env), o.qs, n) @ u
    return u


def text(model_ops):
    return "[" + ", ".join(o.text for o in model_ops) + "]"


def env(rng):
    return {s: rng.uniform(-3, 3) for s in SYMS}


def evalm(m, e):
    """numeric value of a (possibly symbolic) matrix"""
    if isinstance(m, np.ndarray) and m.dtype != object:
        return m.astype(complex)
    m = sympy.Matrix(m)
    sub = {s: sympy.Float(v, 17) for s, v in e.items()}
    cache = {}

    def ev(x):
        if x not in cache:
            cache[x] = complex(x.subs(sub, simultaneous=True) if x.free_symbols else x)
        return cache[x]
    return np.array([ev(x) for x in m], dtype=complex).reshape(m.shape)
