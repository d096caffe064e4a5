"""Generators of operators with an independent matrix model (numpy)."""
import itertools, math
import numpy as np, sympy
import ref
from zquantum.core.openfermion.ops import FermionOperator, IsingOperator, QubitOperator

SYMS = sympy.symbols("u v")
ENV = {SYMS[0]: .37, SYMS[1]: -1.21}


def num(c):
    if isinstance(c, sympy.Expr):
        c = c.subs({s: sympy.Float(v, 17) for s, v in ENV.items()})
        c = sympy.N(c)
    return complex(c)


def coef(rng, kind="mixed"):
    r = rng.random()
    real = [1, -1, .5, -2.25, 3, 1e-3, np.float64(.75), rng.uniform(-2, 2)]
    if kind == "real" or kind == "mixed" and r < .55:
        return rng.choice(real)
    if kind == "complex" or r < .85:
        return rng.choice([1j, -.5j, 1 - 2j, complex(rng.uniform(-1, 1), rng.uniform(-1, 1)), complex(2, 0)])
    u, v = SYMS
    return rng.choice([u, v + 1, u * v, -u, sympy.Rational(1, 3), sympy.I * v, u - v])


def embed(m, q, n):
    return np.kron(np.kron(np.eye(2 ** q), m), np.eye(2 ** (n - q - 1)))


PAULI = {"X": ref.X, "Y": ref.Y, "Z": ref.Z}
LOWER = np.array([[0, 1], [0, 0]], dtype=complex)
_cache = {}


def factor_matrix(kind, f, n):
    key = (kind, f, n)
    if key not in _cache:
        if kind == "fermion":
            i, a = f
            m = np.eye(2 ** n, dtype=complex)
            for q in range(i):
                m = m @ embed(ref.Z, q, n)
            m = m @ embed(LOWER.conj().T if a else LOWER, i, n)
        else:
            m = embed(PAULI[f[1]], f[0], n)
        _cache[key] = m
    return _cache[key]


def kind_of(op):
    return {FermionOperator: "fermion", QubitOperator: "qubit", IsingOperator: "ising"}[type(op)]


def term_matrix(kind, term, n):
    m = np.eye(2 ** n, dtype=complex)
    for f in term:
        m = m @ factor_matrix(kind, tuple(f), n)
    return m


def matrix(op, n, kind=None):
    """the matrix denoted by the operator on n qubits / modes, qubit 0 most significant"""
    kind = kind or kind_of(op)
    m = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for t, c in op.terms.items():
        m = m + num(c) * term_matrix(kind, t, n)
    return m


CLS = {"fermion": FermionOperator, "qubit": QubitOperator, "ising": IsingOperator}


def factors(rng, kind, n, length, distinct=False):
    qs = rng.sample(range(n), min(n, length)) if distinct else [rng.randrange(n) for _ in range(length)]
    if kind == "fermion":
        return tuple((q, rng.randint(0, 1)) for q in qs)
    return tuple((q, "Z" if kind == "ising" else rng.choice("XYZ")) for q in qs)


def operator(rng, kind, n, terms=None, length=4, coefs="mixed", distinct=False):
    """(operator, its matrix)"""
    op = CLS[kind]()
    for _ in range(rng.randint(0, 4) if terms is None else terms):
        f, c = factors(rng, kind, n, rng.randint(0, length), distinct), coef(rng, coefs)
        op += CLS[kind](f, c)
    return op


def snapshot(op):
    return list(op.terms.items())


def text(op):
    return f"{type(op).__name__}{op.terms}"


def canonical(t, op, what):
    """stored terms are merged and in the canonical form of their kind"""
    k = kind_of(op)
    for term in op.terms:
        t.ok(isinstance(term, tuple) and all(isinstance(f, tuple) and len(f) == 2 for f in term), f"{what}: term {term}")
        if k != "fermion":
            idx = [f[0] for f in term]
            t.ok(idx == sorted(set(idx)), f"{what}: term {term} has sorted distinct qubits")
            t.ok(all(f[1] in "XYZ" for f in term), f"{what}: term {term} has Pauli factors")
