"""Mathematical spec functions used by the contracts (no code of /repo in here)."""
from fractions import Fraction
from pyvc.poly import Poly, cos_sin, exp, IM, ONE, ZERO, R2
from pyvc.values import *

C = "zquantum.core."
H2 = Fraction(1, 2)


def c(x):
    return Poly.const(x)


def cos(x):
    return cos_sin(c(x))[0]


def sin(x):
    return cos_sin(c(x))[1]


def e(x):
    """exp(i x)"""
    return exp(c(x) * IM)


PI = Poly.gen("#pi")
SQ = Poly.gen(R2) * H2          # 1/sqrt 2


def M(rows):
    return [[c(x) for x in r] for r in rows]


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), ZERO) for j in range(len(b[0]))] for i in range(len(a))]


def add(a, b):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]


def scale(k, a):
    return [[c(k) * x for x in r] for r in a]


def kron(a, b):
    return [[x * y for x in ra for y in rb] for ra in a for rb in b]


def eye(n):
    return [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]


def adj(a):
    return [[a[i][j].conj() for i in range(len(a))] for j in range(len(a[0]))]


def diag(a, b):
    n, m = len(a), len(b)
    return [r + [ZERO] * m for r in a] + [[ZERO] * n + r for r in b]


PX, PY, PZ, ID = M([[0, 1], [1, 0]]), M([[0, -1j], [1j, 0]]), M([[1, 0], [0, -1]]), M([[1, 0], [0, 1]])
HAD = [[SQ, SQ], [SQ, -SQ]]
PAULI = {"X": PX, "Y": PY, "Z": PZ, "I": ID}


def rot(P, t):
    """exp(-i t P / 2) for P*P = 1"""
    n = len(P)
    return add(scale(cos(c(t) * H2), eye(n)), scale(-IM * sin(c(t) * H2), P))


def poly_matrix(name, n, complex_=True):
    return [[Poly.gen(("z:" if complex_ else "") + f"{name}_{i}_{j}") for j in range(n)] for i in range(n)]


def rows(v, a):
    """entries of a matrix value of the interpreted code as nested lists of Poly"""
    sh, vals = v._entries(a)
    return [[c(v.it.to_poly(vals[i * sh[1] + j])) for j in range(sh[1])] for i in range(sh[0])]


def to_arr(v, m, kind="sympy"):
    return v.it.new_arr([x for r in m for x in r], (len(m), len(m[0])), kind)


# name -> (number of parameters, number of qubits, documented matrix)
def gate_table():
    g = {
        "X": (0, lambda: PX), "Y": (0, lambda: PY), "Z": (0, lambda: PZ), "H": (0, lambda: HAD), "I": (0, lambda: ID),
        "S": (0, lambda: M([[1, 0], [0, 1j]])), "T": (0, lambda: [[ONE, ZERO], [ZERO, e(PI * Fraction(1, 4))]]),
        "RX": (1, lambda t: rot(PX, t)), "RY": (1, lambda t: rot(PY, t)), "RZ": (1, lambda t: rot(PZ, t)),
        "RH": (1, lambda t: scale(e(c(t) * H2), rot(HAD, t))),
        "PHASE": (1, lambda t: [[ONE, ZERO], [ZERO, e(t)]]),
        "U3": (3, lambda t, p, l: [[cos(c(t) * H2), -e(l) * sin(c(t) * H2)],
                                   [e(p) * sin(c(t) * H2), e(c(p) + c(l)) * cos(c(t) * H2)]]),
        "CNOT": (0, lambda: diag(ID, PX)), "CZ": (0, lambda: diag(ID, PZ)),
        "SWAP": (0, lambda: M([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])),
        "ISWAP": (0, lambda: M([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]])),
        "CPHASE": (1, lambda t: diag(ID, [[ONE, ZERO], [ZERO, e(t)]])),
        "XX": (1, lambda t: rot(kron(PX, PX), t)), "YY": (1, lambda t: rot(kron(PY, PY), t)),
        "ZZ": (1, lambda t: rot(kron(PZ, PZ), t)),
        # exp(i t (XX+YY)/4)
        "XY": (1, lambda t: [[ONE, ZERO, ZERO, ZERO], [ZERO, cos(c(t) * H2), IM * sin(c(t) * H2), ZERO],
                             [ZERO, IM * sin(c(t) * H2), cos(c(t) * H2), ZERO], [ZERO, ZERO, ZERO, ONE]]),
    }
    return g
