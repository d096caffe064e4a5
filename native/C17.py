"""Bounded contracts for C17 (normal ordering, conjugation, commutators)."""
import copy, itertools
import numpy as np, scipy.sparse, sympy
import ops as O
from native_lib import clause
from zquantum.core.openfermion import (FermionOperator, InteractionOperator, IsingOperator, QubitOperator, anticommutator, commutator, hermitian_conjugated, is_hermitian, normal_ordered)
from zquantum.core.openfermion.transforms.opconversions.term_reordering import chemist_ordered, normal_ordered_ladder_term, reorder
from zquantum.core.openfermion.utils.commutators import double_commutator
from zquantum.core.openfermion.utils.indexing import down_index, up_index, up_then_down
from zquantum.core.openfermion.utils.operator_utils import count_qubits, is_identity

N = 4


def is_ordered(term):
    """creation before annihilation, descending indices in each part, no repeated factor"""
    c = [i for i, a in term if a]
    d = [i for i, a in term if not a]
    return list(term) == [(i, 1) for i in c] + [(i, 0) for i in d] and all(x > y for l in (c, d) for x, y in zip(l, l[1:]))


@clause("normal ordering of ladder strings, exhaustively", budget=60)
def _(t):
    for n, L in ((2, 6), (3, 4), (4, 3)):
        for length in range(L + 1):
            for f in itertools.product([(q, a) for q in range(n) for a in (0, 1)], repeat=length):
                if length >= 5 and not t.thorough and t.rng.random() < .6 or length == 4 and n == 3 and not t.thorough and t.rng.random() < .3:
                    continue
                with t.case(f"{f}", trivial=length < 2):
                    r = normal_ordered(FermionOperator(f, 2 - 1j))
                    t.ok(all(is_ordered(x) for x in r.terms), f"ordered terms: {O.text(r)}")
                    t.close(O.matrix(r, n), (2 - 1j) * O.term_matrix("fermion", f, n), "same operator", 1e-9)


@clause("normal ordering of operators", budget=40)
def _(t):
    for _ in range(t.n(250)):
        op = O.operator(t.rng, "fermion", N, length=5, coefs=t.rng.choice(["complex"] * 9 + ["mixed"]))
        if t.rng.random() < .3:
            far = {0: 0, 1: 7, 2: 31, 3: 12}
            op = FermionOperator() + sum((FermionOperator(tuple((far[i], a) for i, a in s), c) for s, c in op.terms.items()), FermionOperator())
        with t.case(O.text(op), trivial=not op.terms):
            keep = O.snapshot(op)
            r = normal_ordered(op)
            t.eq(O.snapshot(op), keep, "input unchanged")
            t.ok(all(is_ordered(x) for x in r.terms), f"ordered terms: {O.text(r)}")
            used = sorted({i for s in op.terms for i, a in s})
            m = {x: i for i, x in enumerate(used)}
            small = lambda o: sum((FermionOperator(tuple((m[i], a) for i, a in s), c) for s, c in o.terms.items()), FermionOperator())
            t.ok(all(i in m for s in r.terms for i, a in s), "no new modes")
            t.close(O.matrix(small(r), N), O.matrix(small(op), N), "same operator", 1e-9)
            t.ok(normal_ordered(r) == r, "ordering twice")
            t.eq(op.is_normal_ordered(), all(is_ordered(s) for s in op.terms), "is_normal_ordered")
            t.ok(r.is_normal_ordered(), "result is normal ordered")
    for bad in (QubitOperator("X0"), "0^", 3, np.eye(2)):
        with t.case(f"{bad!r}"):
            t.raises(TypeError, lambda: normal_ordered(bad), "not a fermionic operator")
    with t.case("bosons"):
        t.raises(ValueError, lambda: normal_ordered_ladder_term(((0, 0), (0, 1)), 1., 1), "bosonic ordering")


def interaction(t, n):
    f = lambda *s: t.np_rng.normal(size=s) + (1j * t.np_rng.normal(size=s) if cplx else 0)
    cplx = t.rng.random() < .5
    h, g = f(*(n,) * 2), f(*(n,) * 4)
    for a in (h, g):
        a[t.np_rng.random_sample(a.shape) < t.rng.choice([0, .5, .9])] = 0
    return InteractionOperator(t.rng.choice([0.0, 1.5, -2.0]) + (0.5j if cplx else 0), h, g)


def imatrix(op, n):
    m = op.constant * np.eye(2 ** n, dtype=complex)
    A = [O.factor_matrix("fermion", (i, 0), n) for i in range(n)]
    C = [O.factor_matrix("fermion", (i, 1), n) for i in range(n)]
    for p in range(n):
        for q in range(n):
            if op.one_body_tensor[p, q]:
                m = m + op.one_body_tensor[p, q] * C[p] @ A[q]
            for r in range(n):
                for s in range(n):
                    if op.two_body_tensor[p, q, r, s]:
                        m = m + op.two_body_tensor[p, q, r, s] * C[p] @ C[q] @ A[r] @ A[s]
    return m


@clause("interaction operators", budget=40)
def _(t):
    for _ in range(t.n(25)):
        n = t.rng.randint(1, 4)
        op = interaction(t, n)
        keep = op.constant, op.one_body_tensor.copy(), op.two_body_tensor.copy()
        with t.case(f"{n} modes {keep}"):
            M = imatrix(op, n)
            r = normal_ordered(op)
            t.close(imatrix(r, n), M, "normal ordered: same operator")
            for p, q, a, b in itertools.product(range(n), repeat=4):
                if r.two_body_tensor[p, q, a, b]:
                    t.ok(p > q and a > b, f"descending indices {(p, q, a, b)}")
            c = hermitian_conjugated(op)
            t.close(imatrix(c, n), M.conj().T, "adjoint")
            t.close(imatrix(hermitian_conjugated(c), n), M, "conjugating twice")
            t.eq(is_hermitian(op), bool(np.max(np.abs(M - M.conj().T)) < 1e-7), "is_hermitian")
            s = InteractionOperator(op.constant.real, op.one_body_tensor + c.one_body_tensor, op.two_body_tensor + c.two_body_tensor)
            t.eq(is_hermitian(s), True, "symmetrized operator is hermitian")
            t.ok(op.constant == keep[0] and (op.one_body_tensor == keep[1]).all() and (op.two_body_tensor == keep[2]).all(), "input unchanged")


@clause("conjugation and hermiticity", budget=40)
def _(t):
    for i in range(t.n(300)):
        k = ("qubit", "fermion")[i % 2]
        op = O.operator(t.rng, k, N, coefs=t.rng.choice(["mixed", "real", "complex"]))
        if t.rng.random() < .4:
            op = op + hermitian_conjugated(op)
            if t.rng.random() < .3:
                op += O.operator(t.rng, k, N, 1, coefs="complex") * 1e-3
        with t.case(O.text(op), trivial=not op.terms):
            keep = O.snapshot(op)
            M = O.matrix(op, N)
            c = hermitian_conjugated(op)
            t.close(O.matrix(c, N), M.conj().T, "adjoint")
            t.close(O.matrix(hermitian_conjugated(c), N), M, "conjugating twice")
            t.eq(set(hermitian_conjugated(c).terms), set(op.terms), "conjugating twice: terms")
            t.ok(type(c) is type(op), "type")
            t.eq(O.snapshot(op), keep, "input unchanged")
            if not any(isinstance(x, sympy.Expr) for x in op.terms.values()):
                t.eq(bool(is_hermitian(op)), bool(np.max(np.abs(M - M.conj().T)) < 1e-7), "is_hermitian")
                for A in (M, scipy.sparse.csc_matrix(M)):
                    t.eq(bool(is_hermitian(A)), bool(np.max(np.abs(M - M.conj().T)) < 1e-7), "matrix is_hermitian")
                    D = hermitian_conjugated(A)
                    t.close(D.toarray() if scipy.sparse.issparse(D) else D, M.conj().T, "adjoint matrix")
    for bad in (IsingOperator("Z0"), "X0", 1, None):
        with t.case(f"{bad!r}"):
            t.raises(TypeError, lambda: hermitian_conjugated(bad), "unsupported")
            t.raises(TypeError, lambda: is_hermitian(bad), "unsupported")


@clause("commutators", budget=40)
def _(t):
    for i in range(t.n(200)):
        k = ("qubit", "ising", "fermion")[i % 3]
        co = "mixed" if i % 12 == 0 else "complex"
        a, b, c = (O.operator(t.rng, k, N, length=3, coefs=co) for _ in range(3))
        A, B, C = (O.matrix(x, N) for x in (a, b, c))
        with t.case(f"{O.text(a)} ; {O.text(b)} ; {O.text(c)}", trivial=not (a.terms and b.terms)):
            sa, sb = O.snapshot(a), O.snapshot(b)
            t.close(O.matrix(commutator(a, b), N), A @ B - B @ A, "commutator", 1e-9)
            t.close(O.matrix(anticommutator(a, b), N), A @ B + B @ A, "anticommutator", 1e-9)
            t.close(O.matrix(commutator(a, a), N), 0 * A, "commutator with itself")
            t.eq((O.snapshot(a), O.snapshot(b)), (sa, sb), "inputs unchanged")
            if k == "fermion":
                t.close(O.matrix(double_commutator(a, b, c), N), A @ (B @ C - C @ B) - (B @ C - C @ B) @ A, "double commutator", 1e-9)
            for conv in (np.array, scipy.sparse.csc_matrix):
                x, y = conv(A), conv(B)
                r, s = commutator(x, y), anticommutator(x, y)
                d = lambda z: z.toarray() if scipy.sparse.issparse(z) else z
                t.close(d(r), A @ B - B @ A, "matrix commutator")
                t.close(d(s), A @ B + B @ A, "matrix anticommutator")
                t.ok((d(x) == A).all() and (d(y) == B).all(), "matrices unchanged")
    for p, q, r, s in itertools.permutations(range(N)):
        for x, y in (((p, q), (q, r)), ((p, q), (r, s))):
            with t.case(f"hopping {x} {y}"):
                hop = lambda z, c: FermionOperator(((z[0], 1), (z[1], 0)), c) + FermionOperator(((z[1], 1), (z[0], 0)), c)
                h2, h3 = hop(x, .7), hop(y, -1.3)
                op1 = O.operator(t.rng, "fermion", N, 2, length=3, coefs="real")
                A, B, C = (O.matrix(z, N) for z in (op1, h2, h3))
                t.close(O.matrix(double_commutator(op1, h2, h3, set(x), set(y), True, True), N), A @ (B @ C - C @ B) - (B @ C - C @ B) @ A, "double commutator of hopping operators", 1e-9)
    for a, b in ((QubitOperator("X0"), FermionOperator("0")), (np.eye(2), QubitOperator("X0")), (1, QubitOperator("X0"))):
        with t.case(f"{a!r} {b!r}"):
            t.raises(TypeError, lambda: commutator(a, b), "operands of different types")
            t.raises(TypeError, lambda: anticommutator(a, b), "operands of different types")


@clause("chemist ordering, relabelling, counting", budget=30)
def _(t):
    for _ in range(t.n(80)):
        op = FermionOperator()
        for _k in range(t.rng.randint(0, 4)):
            l = t.rng.choice([0, 1, 2])
            f = [(t.rng.randrange(N), 1) for _ in range(l)] + [(t.rng.randrange(N), 0) for _ in range(l)]
            t.rng.shuffle(f)
            op += FermionOperator(tuple(f), O.coef(t.rng, "complex"))
        with t.case(O.text(op), trivial=not op.terms):
            keep = O.snapshot(op)
            M = O.matrix(op, N)
            r = chemist_ordered(op)
            t.close(O.matrix(r, N), M, "chemist ordered: same operator", 1e-9)
            t.ok(all([a for i, a in s] in ([], [1, 0], [1, 0, 1, 0]) for s in r.terms), f"creation and annihilation alternate: {O.text(r)}")
            t.eq(O.snapshot(op), keep, "input unchanged")
            t.eq(op.is_two_body_number_conserving(), True, "number conserving")
            t.eq(count_qubits(op), max([i + 1 for s in op.terms for i, a in s], default=0), "number of modes")
    for bad in (FermionOperator("0^"), FermionOperator("0^ 1^"), FermionOperator("0^ 1 2^ 3 1^ 0"), FermionOperator("0^ 1 2^")):
        with t.case(O.text(bad)):
            t.eq(bad.is_two_body_number_conserving(), False, "number conserving")
            t.raises(TypeError, lambda: chemist_ordered(bad), "not two-body number conserving")
    for i in range(t.n(60)):
        k = ("qubit", "fermion")[i % 2]
        op = O.operator(t.rng, k, 4, 3, coefs="complex")
        if not any(op.terms):
            continue
        with t.case(f"relabel {O.text(op)}"):
            keep = O.snapshot(op)
            for n in (4, 6):
                for f, g in ((up_then_down, lambda i, n: i // 2 + (n // 2 if i % 2 else 0)), (lambda i, n: n - 1 - i, lambda i, n: n - 1 - i)):
                    r = reorder(op, f, n)
                    w = type(op)()
                    for s, c in op.terms.items():
                        w += type(op)(tuple((g(q, n), a) for q, a in s), c)
                    t.ok(r == w, f"relabelled {O.text(r)}, expected {O.text(w)}")
                    t.ok(reorder(r, f, n, reverse=True) == op, "and back")
            t.eq(O.snapshot(op), keep, "input unchanged")
            t.eq(count_qubits(op), max([q + 1 for s in op.terms for q, a in s], default=0), "number of qubits")
    for i in range(20):
        with t.case(f"index {i}"):
            t.eq((up_index(i), down_index(i)), (2 * i, 2 * i + 1), "spin orbitals")
    for op, w in ((QubitOperator(()), True), (QubitOperator(), False), (QubitOperator("X0"), False), (FermionOperator(()), True), (QubitOperator("X0") + 1, False), (FermionOperator("1^"), False)):
        with t.case(f"identity {O.text(op)}"):
            t.eq(is_identity(op), w, "is_identity")
