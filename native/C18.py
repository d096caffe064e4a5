"""Bounded contracts for C18 (Jordan-Wigner, Bravyi-Kitaev, interaction operators)."""
import copy, itertools
import numpy as np
import ops as O
from native_lib import clause
from zquantum.core.openfermion import (FermionOperator, InteractionOperator, IsingOperator, QubitOperator, bravyi_kitaev, get_fermion_operator, get_interaction_operator, jordan_wigner, reverse_jordan_wigner)
from zquantum.core.openfermion.ops.representations import PolynomialTensor
from zquantum.core.openfermion.transforms.opconversions.jordan_wigner import jordan_wigner_one_body, jordan_wigner_two_body
from zquantum.core.openfermion.transforms.repconversions.operator_tapering import freeze_orbitals, prune_unused_indices

_enc = {}


def encoding(n):
    """basis change |occupations> -> |Fenwick partial sums>, as a permutation matrix (mode 0 most significant)"""
    if n not in _enc:
        u = np.zeros((2 ** n, 2 ** n))
        for i in range(2 ** n):
            occ = [(i >> (n - 1 - k)) & 1 for k in range(n)]
            j = 0
            for k in range(n):
                m = k + 1
                b = sum(occ[m - (m & -m):m]) % 2
                j |= b << (n - 1 - k)
            u[j, i] = 1
        _enc[n] = u
    return _enc[n]


def herm(t, n, real):
    """one- and two-body tensors of a self-adjoint interaction operator"""
    r = t.np_rng
    z = lambda *s: r.randn(*s) + (0 if real else 1j) * r.randn(*s)
    one, two = z(*(n,) * 2), z(*(n,) * 4)
    if t.rng.random() < .5:
        one = one * (r.rand(*one.shape) < .5)
        two = two * (r.rand(*two.shape) < .4)
    one, two = one + one.conj().T, two + two.conj().transpose(3, 2, 1, 0)
    if t.rng.random() < .4:   # two-body symmetric under exchange of both electrons as well
        two = two + two.transpose(1, 0, 3, 2)
    return one, two


def tensor_matrix(const, one, two, n):
    m = const * np.eye(2 ** n, dtype=complex)
    F = lambda i, a: O.factor_matrix("fermion", (i, a), n)
    for p, q in itertools.product(range(n), repeat=2):
        if one[p, q]:
            m = m + one[p, q] * F(p, 1) @ F(q, 0)
    for p, q, r, s in itertools.product(range(n), repeat=4):
        if two[p, q, r, s]:
            m = m + two[p, q, r, s] * F(p, 1) @ F(q, 1) @ F(r, 0) @ F(s, 0)
    return m


@clause("ladder operators: canonical relations and the encodings themselves", budget=60)
def _(t):
    for n in range(1, 8):
        for i in range(n):
            for a in (0, 1):
                with t.case(f"mode {i}, action {a}, n={n}", trivial=n < 2):
                    f = FermionOperator(((i, a),))
                    m = O.factor_matrix("fermion", (i, a), n)
                    t.close(O.matrix(jordan_wigner(f), n), m, "Jordan-Wigner")
                    u = encoding(n)
                    t.close(O.matrix(bravyi_kitaev(f, n_qubits=n), n), u @ m @ u.T, "Bravyi-Kitaev")
                    if i == n - 1:
                        t.close(O.matrix(bravyi_kitaev(f), n), u @ m @ u.T, "Bravyi-Kitaev, default number of qubits")
    for _ in range(t.n(60)):
        n = t.rng.choice([9, 16, 17, 31, 33, 64, 100])
        i, j = t.rng.randrange(n), t.rng.randrange(n)
        if t.rng.random() < .25:
            j = i
        with t.case(f"anticommutators of modes {i}, {j} of {n}"):
            for name, f in (("Jordan-Wigner", jordan_wigner), ("Bravyi-Kitaev", lambda x: bravyi_kitaev(x, n_qubits=n))):
                a, b = f(FermionOperator(((i, 0),))), f(FermionOperator(((j, 0),)))
                ad, bd = f(FermionOperator(((i, 1),))), f(FermionOperator(((j, 1),)))
                t.ok(all(q < n for x in (a, b, ad, bd) for term in x.terms for q, _ in term), f"{name}: qubits below n")
                zero = lambda x: all(abs(c) < 1e-12 for c in x.terms.values())
                t.ok(zero(a * b + b * a), f"{name}: {{a_i, a_j}} = 0")
                t.ok(zero(ad * bd + bd * ad), f"{name}: {{a_i^, a_j^}} = 0")
                t.ok(zero(a * bd + bd * a - (QubitOperator(()) if i == j else QubitOperator())), f"{name}: {{a_i, a_j^}} = delta_ij")


@clause("fermionic operators: linear, multiplicative, same operator", budget=60)
def _(t):
    for _ in range(t.n(200)):
        n = t.rng.randint(1, 5)
        kind = "mixed" if t.rng.random() < .05 else "complex"
        a = O.operator(t.rng, "fermion", n, terms=t.rng.randint(0, 3), length=4, coefs=kind)
        b = O.operator(t.rng, "fermion", n, terms=t.rng.randint(1, 2), length=2, coefs="complex")
        with t.case(f"{O.text(a)} ; {O.text(b)} ; n={n}", trivial=not a.terms):
            sa, sb = O.snapshot(a), O.snapshot(b)
            A, B = O.matrix(a, n), O.matrix(b, n)
            u = encoding(n)
            t.close(O.matrix(jordan_wigner(a), n), A, "Jordan-Wigner")
            t.close(O.matrix(bravyi_kitaev(a, n_qubits=n), n), u @ A @ u.T, "Bravyi-Kitaev")
            if kind == "complex":
                t.close(O.matrix(jordan_wigner(a * b), n), A @ B, "Jordan-Wigner of a product")
                t.close(O.matrix(bravyi_kitaev(a + 2 * b, n_qubits=n), n), u @ (A + 2 * B) @ u.T, "Bravyi-Kitaev of a sum")
            t.eq((O.snapshot(a), O.snapshot(b)), (sa, sb), "inputs unchanged")
            q = jordan_wigner(a)
            sq = O.snapshot(q)
            if kind == "complex":
                t.close(O.matrix(reverse_jordan_wigner(q), n), A, "inverse after Jordan-Wigner")
                t.close(O.matrix(reverse_jordan_wigner(q, n_qubits=n + 2), n), A, "inverse after Jordan-Wigner, more qubits")
            t.eq(O.snapshot(q), sq, "inverse does not modify its input")
            for bad in (n - 1,):
                m = max([i for x in a.terms for i, _ in x], default=-1) + 1
                if m == n and n > 1:
                    t.raises(ValueError, lambda: bravyi_kitaev(a, n_qubits=n - 1), "too few qubits")
    for bad in (QubitOperator("X0"), IsingOperator("Z0"), 3, "a", None):
        with t.case(f"rejected {bad!r}", trivial=True):
            t.raises(TypeError, lambda: jordan_wigner(bad), "not a fermionic operator")
            t.raises(TypeError, lambda: bravyi_kitaev(bad), "not a fermionic operator")
            if not isinstance(bad, QubitOperator):
                t.raises(TypeError, lambda: reverse_jordan_wigner(bad), "not a qubit operator")


@clause("inverse Jordan-Wigner of any qubit operator", budget=40)
def _(t):
    for f in itertools.chain.from_iterable(itertools.product(*([(None, "X", "Y", "Z")] * n)) for n in (1, 2, 3)):
        n = len(f)
        term = tuple((i, p) for i, p in enumerate(f) if p)
        with t.case(f"{term}", trivial=not term):
            op = QubitOperator(term, 1 - .5j)
            r = reverse_jordan_wigner(op, n)
            t.close(O.matrix(r, n), O.matrix(op, n), "same operator")
            t.close(O.matrix(jordan_wigner(r), n), O.matrix(op, n), "there and back")
    for _ in range(t.n(120)):
        n = t.rng.randint(1, 5)
        op = O.operator(t.rng, "qubit", n, length=n, coefs="complex")
        with t.case(f"{O.text(op)}", trivial=not op.terms):
            s = O.snapshot(op)
            t.close(O.matrix(reverse_jordan_wigner(op), n), O.matrix(op, n), "same operator")
            t.eq(O.snapshot(op), s, "input unchanged")
            k = max([i for x in op.terms for i, _ in x], default=-1) + 1
            if k > 1:
                t.raises(ValueError, lambda: reverse_jordan_wigner(op, n_qubits=k - 1), "too few qubits")


@clause("interaction operators: direct routes agree with the fermionic operator", budget=120)
def _(t):
    for k in range(t.n(45)):
        n = [2, 3, 1, 4, 3, 2, 4][k % 7]
        real = t.rng.random() < .4
        one, two = herm(t, n, real)
        const = t.rng.choice([0, 0.0, 1.5, -2])
        with t.case(f"n={n} real={real} constant={const} one={one.tolist()} two={two.tolist()}", limit=120):
            iop = InteractionOperator(const, one.copy(), two.copy())
            m = tensor_matrix(const, one, two, n)
            f = get_fermion_operator(iop)
            t.close(O.matrix(f, n), m, "fermionic operator of the tensors")
            u = encoding(n)
            t.close(O.matrix(jordan_wigner(iop), n), m, "Jordan-Wigner of the tensors")
            t.close(O.matrix(bravyi_kitaev(iop), n), u @ m @ u.T, "Bravyi-Kitaev of the tensors")
            t.ok(iop.constant == const and np.array_equal(iop.one_body_tensor, one) and np.array_equal(iop.two_body_tensor, two), "input unchanged")
            if n < 4:
                back = get_interaction_operator(f, n_qubits=n)
                t.close(O.matrix(get_fermion_operator(back), n), m, "tensors of the fermionic operator")
                t.close(O.matrix(jordan_wigner(back), n), m, "Jordan-Wigner of the recovered tensors")
            if n > 1:
                t.raises(ValueError, lambda: bravyi_kitaev(iop, n_qubits=n - 1), "too few qubits")
    for _ in range(t.n(60)):
        n = t.rng.randint(1, 4)
        a = FermionOperator()
        for _k in range(t.rng.randint(1, 4)):
            L = t.rng.choice([0, 1, 2, 2])
            f = [(t.rng.randrange(n), 1) for _ in range(L)] + [(t.rng.randrange(n), 0) for _ in range(L)]
            t.rng.shuffle(f)
            a += FermionOperator(tuple(f), O.coef(t.rng, "complex"))
        with t.case(f"any number-conserving operator {O.text(a)} n={n}"):
            s = O.snapshot(a)
            i = get_interaction_operator(a, n_qubits=n)
            t.close(tensor_matrix(i.constant, i.one_body_tensor, i.two_body_tensor, n), O.matrix(a, n), "tensors")
            t.eq(i.n_qubits, n, "size")
            t.eq(O.snapshot(a), s, "input unchanged")
    for bad in ("0", "0^", "0 1", "1^ 0^", "2^ 1^ 0^ 3", "0^ 1 2 3", "3^ 2^ 1^ 2 1 0"):
        with t.case(f"not an interaction operator: {bad}", trivial=True):
            try:
                get_interaction_operator(FermionOperator(bad))
                t.ok(False, "accepted")
            except Exception as e:
                t.ok(type(e).__name__ in ("InteractionOperatorError", "TypeError", "ValueError"), f"{type(e).__name__}")


@clause("elementary one- and two-body terms, all index patterns", budget=50)
def _(t):
    n = 4
    F = lambda *f: O.term_matrix("fermion", f, n)
    for p, q in itertools.product(range(n), repeat=2):
        for c in (1.0, 2.5, 1 - 2j, .5j):
            if p == q and c.imag:
                continue
            with t.case(f"one-body {p} {q} {c}"):
                x = c * F((p, 1), (q, 0))
                t.close(O.matrix(jordan_wigner_one_body(p, q, c), n), x if p == q else x + x.conj().T, "a^_p a_q + h.c.")
    for p, q, r, s in itertools.product(range(n), repeat=4):
        for c in (1.0, -1 + 2j):
            diag = {p, q} == {r, s}
            if diag and c.imag:
                continue
            with t.case(f"two-body {p} {q} {r} {s} {c}", trivial=p == q or r == s):
                x = c * F((p, 1), (q, 1), (r, 0), (s, 0))
                t.close(O.matrix(jordan_wigner_two_body(p, q, r, s, c), n), x if diag else x + x.conj().T, "a^_p a^_q a_r a_s + h.c.")


@clause("tensor arithmetic stands for operator arithmetic", budget=40)
def _(t):
    keys = [(), (1, 0), (0, 1), (1, 1), (0, 0), (1, 1, 0, 0)]
    for _ in range(t.n(80)):
        n = t.rng.randint(1, 3)
        def tensor(ks):
            return {k: (t.rng.choice([1.5, -2.0, .25 + 1j]) if k == () else t.np_rng.randn(*(n,) * len(k)) + 1j * t.np_rng.randn(*(n,) * len(k))) for k in ks}
        ka = [()] + t.rng.sample(keys[1:], t.rng.randint(1, 3))
        kb = ([()] if t.rng.random() < .7 else []) + t.rng.sample(keys[1:], t.rng.randint(1, 3))
        ta, tb = tensor(ka), tensor(kb)
        s = t.rng.choice([2.0, -.5, 1j, 3])
        with t.case(f"n={n} {ta} ; {tb} ; {s}"):
            a, b = PolynomialTensor({k: copy.copy(v) for k, v in ta.items()}), PolynomialTensor({k: copy.copy(v) for k, v in tb.items()})
            def mat(x):
                m = np.zeros((2 ** n,) * 2, dtype=complex)
                for k, v in x.n_body_tensors.items():
                    for idx in itertools.product(range(n), repeat=len(k)):
                        m = m + (np.asarray(v)[idx] if k else v) * O.term_matrix("fermion", tuple(zip(idx, k)), n)
                return m
            A, B, I = mat(a), mat(b), np.eye(2 ** n)
            # subtraction of tensors the minuend lacks: see the clause below (known finding)
            b2 = PolynomialTensor({k: np.array(t.np_rng.randn(*(n,) * len(k))) if k else 1.25 for k in ta})
            B2 = mat(b2)
            for name, f, m in (("a+b", lambda: a + b, A + B), ("a-b'", lambda: a - b2, A - B2), ("b'-a", lambda: b2 - a, B2 - A), ("a-a", lambda: a - a, 0 * A), ("-a", lambda: -a, -A), ("s*a", lambda: s * a, s * A), ("a*s", lambda: a * s, s * A), ("a/s", lambda: a / s, A / s),
                               ("a+s", lambda: a + s, A + s * I), ("a-s", lambda: a - s, A - s * I)):
                r = f()
                t.close(mat(r), m, name)
                t.ok(r is not a and np.allclose(mat(a), A) and np.allclose(mat(b), B), f"{name}: operands unchanged")
                for v in r.n_body_tensors.values():
                    if isinstance(v, np.ndarray):
                        v += 1
                t.ok(np.allclose(mat(a), A) and np.allclose(mat(b), B), f"{name}: result shares nothing with the operands")
            r = a - b
            for v in r.n_body_tensors.values():
                if isinstance(v, np.ndarray):
                    v += 1
            t.ok(np.allclose(mat(a), A) and np.allclose(mat(b), B), "a-b: result shares nothing with the operands")
            t.close(O.matrix(get_fermion_operator(a), n), A, "fermionic operator")
            c = copy.deepcopy(a)
            t.ok(c == a and not (c != a), "equal to a copy")
            c[((0, ka[1][0]),) + tuple((0, x) for x in ka[1][1:])] += .5
            t.ok(not (c == a), "differs after changing one entry")
            # a rotation of the orbitals conjugates the operator
            q, _r = np.linalg.qr(t.np_rng.randn(n, n) + 1j * t.np_rng.randn(n, n))
            c = copy.deepcopy(a)
            c.rotate_basis(q)
            want = np.zeros((2 ** n,) * 2, dtype=complex)
            for k, v in ta.items():
                for idx in itertools.product(range(n), repeat=len(k)):
                    term = I.astype(complex)
                    for i, x in zip(idx, k):   # a_i -> sum_j conj(q_ij)... chosen so that entries transform with q / conj(q)
                        term = term @ sum((q[i, j].conj() if x else q[i, j]) * O.factor_matrix("fermion", (j, x), n) for j in range(n))
                    want = want + (v if k == () else v[idx]) * term
            t.close(mat(c), want, "rotated basis")


@clause("freezing orbitals restricts the operator", budget=30)
def _(t):
    for _ in range(t.n(150)):
        n = t.rng.randint(2, 5)
        op = O.operator(t.rng, "fermion", n, terms=t.rng.randint(1, 4), length=4, coefs="complex")
        for i in range(n):   # every orbital occurs, so that renumbering is determined by the frozen ones
            op += FermionOperator(((i, 1), (i, 0)), 10.5 + i)
        fr = t.rng.sample(range(n), t.rng.randint(1, n - 1))
        k = t.rng.randint(0, len(fr))
        occ, un = fr[:k], fr[k:]
        if t.rng.random() < .3:
            occ, un = [np.int64(x) for x in occ], [np.int64(x) for x in un]
        with t.case(f"{O.text(op)} occupied={occ} unoccupied={un}"):
            s = O.snapshot(op)
            r = freeze_orbitals(op, occ, un or None)
            t.eq(O.snapshot(op), s, "input unchanged")
            rest = [i for i in range(n) if i not in fr]
            used = sorted({i for x in r.terms for i, _ in x})
            t.eq(used, list(range(len(used))), "remaining orbitals are renumbered without gaps")
            A = O.matrix(op, n)
            idx = []
            for c in range(2 ** len(rest)):
                bits = {q: (c >> (len(rest) - 1 - i)) & 1 for i, q in enumerate(rest)}
                bits.update({q: 1 for q in occ})
                state = sum(bits.get(q, 0) << (n - 1 - q) for q in range(n))
                idx.append(state)
            sub = A[np.ix_(idx, idx)]
            t.ok(len(used) <= len(rest), "no more orbitals than were left")
            if len(used) == len(rest):
                t.close(O.matrix(r, len(rest)), sub, "restricted operator")
    for _ in range(t.n(60)):
        op = O.operator(t.rng, "fermion", 6, terms=3, length=3, coefs="complex")
        with t.case(f"prune {O.text(op)}"):
            s = O.snapshot(op)
            r = prune_unused_indices(op)
            used = sorted({i for x in op.terms for i, _ in x})
            want = {tuple((used.index(i), a) for i, a in x): c for x, c in op.terms.items()}
            t.eq(r.terms, want, "renumbered in order")
            t.eq(O.snapshot(op), s, "input unchanged")



@clause("subtracting a tensor only the subtrahend has", budget=20)
def _(t):
    one = np.array([[1., 2.], [3., 4.]])
    for key, ka, kb in (("a lacks (1, 0)", {(): 1.0, (1, 1): one}, {(): 0.5, (1, 0): one}),
                        ("a lacks (0, 0, 1, 1)", {(1, 0): one}, {(0, 0, 1, 1): np.arange(16.).reshape((2,) * 4)}),
                        ("a lacks ()", {(1, 0): one}, {(): 2.0, (1, 0): one})):
        with t.case(key):
            a, b = PolynomialTensor(copy.deepcopy(ka)), PolynomialTensor(copy.deepcopy(kb))
            r = a - b
            for k in set(ka) | set(kb):
                t.close(r.n_body_tensors[k], np.asarray(ka.get(k, 0)) - np.asarray(kb.get(k, 0)), f"tensor {k}")


@clause("projecting and enumerating tensors", budget=30)
def _(t):
    for k in range(t.n(60)):
        n, real = t.rng.randint(1, 3), t.rng.random() < .5
        const = t.rng.choice([0, 1.5, -2.25])
        one = t.np_rng.normal(size=(n, n)) + (0 if real else 1j) * t.np_rng.normal(size=(n, n))
        two = t.np_rng.normal(size=(n,) * 4) + (0 if real else 1j) * t.np_rng.normal(size=(n,) * 4)
        exact = t.rng.random() < .5
        sel = t.rng.randint(0, 4) if t.rng.random() < .5 else t.rng.sample(range(n), t.rng.randint(0, n))
        kind = "number" if isinstance(sel, int) else t.rng.choice(["list", "tuple", "set"])
        sel = sel if kind == "number" else {"list": list, "tuple": tuple, "set": set}[kind](sel)
        with t.case(f"{n} modes real {real} constant {const} keep {sel} exact {exact} #{k}"):
            op = InteractionOperator(const, one.copy(), two.copy())

            def keep(index):
                if kind == "number":
                    return len(set(index)) == sel if exact else len(set(index)) <= sel
                return set(index) == set(sel) if exact else set(index) <= set(sel)
            p = op.projected(sel, exact) if t.rng.random() < .5 or exact else op.projected(sel)
            t.ok(isinstance(p, InteractionOperator), "an interaction operator")
            t.eq(p.constant, const if keep(()) else 0, "constant")
            t.ok(all(p.one_body_tensor[i] == (one[i] if keep(i) else 0) for i in itertools.product(range(n), repeat=2)), "one-body entries")
            t.ok(all(p.two_body_tensor[i] == (two[i] if keep(i) else 0) for i in itertools.product(range(n), repeat=4)), "two-body entries")
            t.ok(op.constant == const and np.array_equal(op.one_body_tensor, one) and np.array_equal(op.two_body_tensor, two), "operator unchanged")
            z = InteractionOperator.zero(n)
            t.ok(z.n_qubits == n and z.constant == 0 and not np.any(z.one_body_tensor) and not np.any(z.two_body_tensor), "zero operator")
    for k in range(t.n(40)):
        n, cplx = t.rng.randint(1, 3), t.rng.random() < .5
        four = [(0, 1, 2, 3), (1, 0, 3, 2), (3, 2, 1, 0), (2, 3, 0, 1)]
        perms = four if cplx else four + [(0, 3, 2, 1), (1, 2, 3, 0), (3, 0, 1, 2), (2, 1, 0, 3)]
        orbit = lambda i: {tuple(i[x] for x in q) for q in perms}
        one, two = np.zeros((n, n)), np.zeros((n,) * 4)
        for i in itertools.product(range(n), repeat=2):
            if i[0] <= i[1] and t.rng.random() < .7:
                one[i] = one[i[::-1]] = t.rng.uniform(.5, 2)
        for i in itertools.product(range(n), repeat=4):
            if two[i] == 0 and t.rng.random() < .4:
                x = t.rng.uniform(.5, 2)
                for q in orbit(i):
                    two[q] = x
        const = t.rng.choice([0, 2.5])
        with t.case(f"distinct terms: {n} modes complex {cplx} constant {const} #{k}"):
            terms = list(InteractionOperator(const, one, two).unique_iter(cplx)) if cplx or t.rng.random() < .5 else list(InteractionOperator(const, one, two).unique_iter())
            t.eq(sum(x == () for x in terms), 1 if const else 0, "the constant once")
            ones = [tuple(i for i, _d in x) for x in terms if len(x) == 2]
            twos = [tuple(i for i, _d in x) for x in terms if len(x) == 4]
            t.ok(all(tuple(d for _i, d in x) == {0: (), 2: (1, 0), 4: (1, 1, 0, 0)}[len(x)] for x in terms), "kinds of the indices")
            t.eq(sorted(tuple(sorted(i)) for i in ones), sorted(i for i in itertools.product(range(n), repeat=2) if i[0] <= i[1] and one[i]), "each one-body term once")
            got = sorted(q for i in twos for q in orbit(i))
            t.eq(got, sorted(i for i in itertools.product(range(n), repeat=4) if two[i]), "each class of two-body terms once")
