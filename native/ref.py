"""Independent reference definitions used by the bounded clauses (numpy only)."""
import cmath, itertools, math
import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
S = np.diag([1, 1j])
TT = np.diag([1, cmath.exp(1j * math.pi / 4)])
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}


def rot(P, t):
    return math.cos(t / 2) * np.eye(len(P)) - 1j * math.sin(t / 2) * P


def u3(t, p, l):
    return np.array([[math.cos(t / 2), -cmath.exp(1j * l) * math.sin(t / 2)],
                     [cmath.exp(1j * p) * math.sin(t / 2), cmath.exp(1j * (p + l)) * math.cos(t / 2)]])


def blockdiag(a, b):
    n, m = len(a), len(b)
    r = np.zeros((n + m, n + m), dtype=complex)
    r[:n, :n] = a
    r[n:, n:] = b
    return r


def _xy(t):
    m = np.eye(4, dtype=complex)
    m[1, 1] = m[2, 2] = math.cos(t / 2)
    m[1, 2] = m[2, 1] = 1j * math.sin(t / 2)
    return m


GATES = {  # name: (params, qubits, matrix)
    "X": (0, 1, lambda: X), "Y": (0, 1, lambda: Y), "Z": (0, 1, lambda: Z), "H": (0, 1, lambda: H), "I": (0, 1, lambda: I2),
    "S": (0, 1, lambda: S), "T": (0, 1, lambda: TT),
    "RX": (1, 1, lambda t: rot(X, t)), "RY": (1, 1, lambda t: rot(Y, t)), "RZ": (1, 1, lambda t: rot(Z, t)),
    "RH": (1, 1, lambda t: cmath.exp(1j * t / 2) * rot(H, t)),
    "PHASE": (1, 1, lambda t: np.diag([1, cmath.exp(1j * t)])), "U3": (3, 1, u3),
    "CNOT": (0, 2, lambda: blockdiag(I2, X)), "CZ": (0, 2, lambda: blockdiag(I2, Z)),
    "SWAP": (0, 2, lambda: np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)),
    "ISWAP": (0, 2, lambda: np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]], dtype=complex)),
    "CPHASE": (1, 2, lambda t: np.diag([1, 1, 1, cmath.exp(1j * t)])),
    "XX": (1, 2, lambda t: rot(np.kron(X, X), t)), "YY": (1, 2, lambda t: rot(np.kron(Y, Y), t)),
    "ZZ": (1, 2, lambda t: rot(np.kron(Z, Z), t)), "XY": (1, 2, _xy),
}


def kron(*ms):
    r = np.eye(1, dtype=complex)
    for m in ms:
        r = np.kron(r, m)
    return r


def lift(m, qs, n):
    """matrix acting as m on qubits qs (in that order), identity elsewhere; qubit 0 most significant"""
    m = np.asarray(m, dtype=complex)
    k = len(qs)
    t = m.reshape([2] * (2 * k))
    full = np.eye(2 ** n, dtype=complex).reshape([2] * (2 * n))
    # contract the gate's input legs with the output legs qs of the identity
    r = np.tensordot(t, full, axes=(list(range(k, 2 * k)), list(qs)))
    r = np.moveaxis(r, list(range(k)), list(qs))
    return r.reshape(2 ** n, 2 ** n)


def controlled(m, k):
    return blockdiag(np.eye(len(m) * (2 ** k - 1)), m)


def npm(m):
    """numeric complex numpy matrix from sympy / numpy"""
    return np.array(m, dtype=complex)


def rand_unitary(rs, n):
    q, r = np.linalg.qr(rs.randn(n, n) + 1j * rs.randn(n, n))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def rand_state(rs, n):
    v = rs.randn(2 ** n) + 1j * rs.randn(2 ** n)
    return v / np.linalg.norm(v)


def phase_close(a, b, tol=1e-7):
    """equal up to a global phase"""
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return False
    i = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(a[i]) < 1e-9:
        return False
    ph = a[i] / b[i]
    return abs(abs(ph) - 1) < tol and np.allclose(a, ph * b, atol=tol)


def bits(i, n):
    return tuple((i >> (n - 1 - q)) & 1 for q in range(n))


def pauli_string(ops, n):
    """ops: dict qubit -> letter; qubit 0 most significant"""
    return kron(*[PAULI[ops.get(q, "I")] for q in range(n)])


ANGLES = [0, 0.3, -1.1, math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi, -5 * math.pi, 7.25, 1e-3, 4 * math.pi, 3]
