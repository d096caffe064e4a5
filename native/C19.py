"""Bounded contracts for C19 (operator conversions, matrices, files)."""
import copy, io, itertools, os, tempfile
import numpy as np, scipy.sparse, sympy
import ops as O
import ref
from native_lib import clause
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import (FermionOperator, InteractionOperator, InteractionRDM, IsingOperator, QubitOperator, count_qubits, eigenspectrum, expectation, get_fermion_operator, get_sparse_operator, jordan_wigner)
from zquantum.core.openfermion.linalg.sparse_tools import (get_density_matrix, get_number_preserving_sparse_operator, inner_product, jw_configuration_state, get_ground_state, jw_get_ground_state_at_particle_number, sparse_eigenspectrum, jw_hartree_fock_state, jw_number_indices, jw_number_restrict_operator)
from zquantum.core.openfermion.ops.representations import PolynomialTensor
from zquantum.core.openfermion.utils.operator_utils import load_operator, save_operator
from zquantum.core.openfermion.zapata_utils._io import (convert_dict_to_interaction_op, convert_dict_to_interaction_rdm, convert_dict_to_isingop, convert_dict_to_qubitop, convert_interaction_op_to_dict, convert_interaction_rdm_to_dict, convert_isingop_to_dict, convert_qubitop_to_dict, get_pauli_strings, load_interaction_operator, load_interaction_rdm, load_ising_operator, load_qubit_operator, load_qubit_operator_set, save_interaction_operator, save_interaction_rdm, save_ising_operator, save_qubit_operator, save_qubit_operator_set)
from zquantum.core.openfermion.zapata_utils._utils import (change_operator_type, create_circuits_from_qubit_operator, evaluate_qubit_operator, evaluate_qubit_operator_list, get_diagonal_component, get_expectation_value, get_fermion_number_operator, get_polynomial_tensor, get_qubitop_from_coeffs_and_labels, get_qubitop_from_matrix, hf_rdm, remove_inactive_orbitals, reverse_qubit_order)
from zquantum.core.wavefunction import Wavefunction

DENSE = lambda m: m.toarray()


@clause("sparse matrices", budget=40)
def _(t):
    for i in range(t.n(160)):
        n = t.rng.randint(1, 5)
        k = ("qubit", "fermion")[i % 2]
        op = O.operator(t.rng, k, n, length=n, coefs="complex")
        with t.case(f"{O.text(op)} n={n}", trivial=not op.terms):
            s = O.snapshot(op)
            t.close(DENSE(get_sparse_operator(op, n_qubits=n)), O.matrix(op, n), "matrix")
            m = max([q for x in op.terms for q, _ in x], default=-1) + 1
            t.eq(count_qubits(op), m, "number of qubits")
            if m:
                t.close(DENSE(get_sparse_operator(op)), O.matrix(op, m), "matrix on the qubits it acts on")
            if k == "qubit" and m > 1:
                t.raises(ValueError, lambda: get_sparse_operator(op, n_qubits=m - 1), "too few qubits")
            t.eq(O.snapshot(op), s, "input unchanged")
            if op.terms and m:
                h = op + hermitian(op)
                t.close(np.sort(eigenspectrum(h, n)), np.linalg.eigvalsh(O.matrix(h, n)), "spectrum", 1e-6)
                M, sm = O.matrix(h, n), get_sparse_operator(h, n_qubits=n)
                if n > 1 and np.abs(M).max() > 1e-3:
                    en, st = get_ground_state(sm, initial_guess=t.np_rng.randn(2 ** n))
                    t.close(en, np.linalg.eigvalsh(M)[0], "lowest energy", 1e-6)
                    t.close(M @ st, en * st, "lowest eigenstate", 1e-5)
                    t.close(np.linalg.norm(st), 1, "normalised eigenstate", 1e-6)
                t.close(DENSE(sm), M, "matrix unchanged")
                A = O.matrix(op, n)
                ev = sparse_eigenspectrum(get_sparse_operator(op, n_qubits=n))
                t.eq(len(ev), 2 ** n, "number of eigenvalues")
                for pw in (1, 2, 3):
                    t.close(np.sum(np.asarray(ev) ** pw), np.trace(np.linalg.matrix_power(A, pw)), f"power sum {pw} of the eigenvalues", 1e-5)
    for _ in range(t.n(30)):
        n = t.rng.randint(1, 3)
        one = t.np_rng.randn(n, n) + 1j * t.np_rng.randn(n, n)
        two = t.np_rng.randn(*(n,) * 4) * (t.np_rng.rand(*(n,) * 4) < .4)
        if t.rng.random() < .4 and n > 1:
            one[n - 1], one[:, n - 1] = 0, 0
            two = two * 0
        with t.case(f"interaction operator n={n} {one.tolist()} {two.tolist()}"):
            iop = InteractionOperator(1.5, one, two)
            want = O.matrix(get_fermion_operator(iop), n)
            t.close(DENSE(get_sparse_operator(iop)), want, "matrix on all its modes")
            t.close(DENSE(get_sparse_operator(iop, n_qubits=n)), want, "matrix on all its modes, stated")
            t.eq(count_qubits(iop), n, "number of modes")
    for bad in (3, "X0", np.eye(2), None):
        with t.case(f"rejected {bad!r}", trivial=True):
            t.raises(TypeError, lambda: get_sparse_operator(bad), "not an operator")
            t.raises(TypeError, lambda: count_qubits(bad), "not an operator")


def hermitian(op):
    from zquantum.core.openfermion import hermitian_conjugated
    return hermitian_conjugated(op)


@clause("matrices to Pauli terms", budget=30)
def _(t):
    for i in range(t.n(40)):
        n = t.rng.choice([1, 1, 2, 2, 3])
        kind = i % 4
        m = t.np_rng.randn(2 ** n, 2 ** n) + 1j * t.np_rng.randn(2 ** n, 2 ** n)
        if kind == 1:
            m = m + m.conj().T
        if kind == 2:
            m = t.np_rng.randint(-3, 4, m.shape)
        if kind == 3:
            f = O.factors(t.rng, "qubit", n, n)
            m = O.term_matrix("qubit", f, n)
        arg = m.tolist() if t.rng.random() < .5 else m
        with t.case(f"{m.tolist()}"):
            op = get_qubitop_from_matrix(arg)
            t.close(O.matrix(op, n), m, "same matrix")
            t.close(DENSE(get_sparse_operator(op, n_qubits=n)) if op.terms else m, m, "same sparse matrix")
    for bad in (np.ones((2, 3)), np.ones((3, 3)), np.ones((6, 6))):
        with t.case(f"rejected {bad.shape}", trivial=True):
            t.raises(Exception, lambda: get_qubitop_from_matrix(bad), "not a 2^n square matrix")
    for _ in range(t.n(60)):
        n, k = t.rng.randint(1, 12), t.rng.randint(1, 5)
        labels = [[t.rng.randint(0, 3) for _ in range(n)] for _ in range(k)]
        coeffs = [t.rng.choice([1.0, -.5, 2, .25]) for _ in range(k)]
        with t.case(f"{coeffs} {labels}"):
            want = QubitOperator()
            for c, l in zip(coeffs, labels):
                want += QubitOperator(tuple((q, "XYZ"[x - 1]) for q, x in enumerate(l) if x), c)
            t.eq(get_qubitop_from_coeffs_and_labels(coeffs, labels).terms, want.terms, "operator of the labels")


@clause("reversing, retyping, circuits, expectation values", budget=40)
def _(t):
    for i in range(t.n(150)):
        n = t.rng.randint(1, 5)
        op = O.operator(t.rng, "qubit", n, length=n, coefs=t.rng.choice(["complex", "real"]))
        m = max([q for x in op.terms for q, _ in x], default=-1) + 1
        with t.case(f"{O.text(op)} n={n}", trivial=not op.terms):
            s = O.snapshot(op)
            r = reverse_qubit_order(op, n_qubits=n)
            t.eq(r.terms, {tuple(sorted((n - 1 - q, p) for q, p in x)): c for x, c in op.terms.items()}, "index i becomes n-1-i")
            t.eq(reverse_qubit_order(r, n_qubits=n).terms, op.terms, "involution")
            perm = [int(format(j, f"0{n}b")[::-1], 2) for j in range(2 ** n)]
            t.close(O.matrix(r, n), O.matrix(op, n)[np.ix_(perm, perm)], "matrix with bits reversed")
            t.eq(reverse_qubit_order(op).terms, reverse_qubit_order(op, n_qubits=m).terms if m else op.terms, "default number of qubits")
            if m:
                t.raises(ValueError, lambda: reverse_qubit_order(op, n_qubits=m - 1), "too few qubits")
            big = n + t.rng.choice([1, 40])
            t.eq(reverse_qubit_order(op, n_qubits=big).terms, {tuple(sorted((big - 1 - q, p) for q, p in x)): c for x, c in op.terms.items()}, "larger system")
            # expectation values
            v = ref.rand_state(t.np_rng, n)
            wf = Wavefunction(v)
            M = O.matrix(op, n)
            t.close(get_expectation_value(op, wf), np.vdot(v, M @ v), "expectation value")
            t.close(get_expectation_value(op, wf, reverse_operator=True), np.vdot(v, O.matrix(r, n) @ v), "expectation value, reversed operator")
            t.close(wf.amplitudes, v, "state unchanged")
            sp = get_sparse_operator(op, n_qubits=n)
            t.close(expectation(sp, v), np.vdot(v, M @ v), "expectation in a state")
            t.close(expectation(sp, v.reshape(-1, 1)), np.vdot(v, M @ v), "expectation in a column")
            w = ref.rand_state(t.np_rng, n)
            t.close(inner_product(v, w), np.vdot(v, w), "inner product")
            d = get_density_matrix([v, w], [.25, .75])
            t.close(DENSE(d), .25 * np.outer(v, v.conj()) + .75 * np.outer(w, w.conj()), "density matrix")
            t.close(expectation(sp, d), .25 * np.vdot(v, M @ v) + .75 * np.vdot(w, M @ w), "expectation in a mixture")
            t.eq(O.snapshot(op), s, "operator unchanged")
            # circuits
            cs = create_circuits_from_qubit_operator(op)
            t.eq(len(cs), len(op.terms), "one circuit per term")
            for c, x in zip(cs, op.terms):
                t.eq([(o.gate.name, o.qubit_indices) for o in c.operations], [(p, (q,)) for q, p in x], "Pauli circuit of the term")
            t.eq(get_pauli_strings(op), ["".join(f"{p}{q}" for q, p in x) for x in op.terms], "Pauli strings")
            # weighted sum of given expectation values
            e = t.np_rng.randn(len(op.terms))
            t.close(evaluate_qubit_operator(op, ExpectationValues(e)).value, sum((c * y).real for c, y in zip(op.terms.values(), e)), "weighted sum")
            op2 = O.operator(t.rng, "qubit", n, coefs="real")
            e2 = t.np_rng.randn(len(op.terms) + len(op2.terms))
            t.close(evaluate_qubit_operator_list([op, op2], ExpectationValues(e2)).value, sum((c * y).real for c, y in zip([*op.terms.values(), *op2.terms.values()], e2)), "weighted sum over a list")
    for i in range(t.n(60)):
        op = O.operator(t.rng, "ising", 5, coefs="complex")
        with t.case(f"retype {O.text(op)}", trivial=not op.terms):
            s = O.snapshot(op)
            q = change_operator_type(op, QubitOperator)
            t.ok(type(q) is QubitOperator and q.terms == op.terms, f"as a qubit operator: {O.text(q)}")
            b = change_operator_type(q, IsingOperator)
            t.ok(type(b) is IsingOperator and b.terms == op.terms, f"and back: {O.text(b)}")
            t.eq(O.snapshot(op), s, "input unchanged")
            t.eq(count_qubits(op), max([q for x in op.terms for q, _ in x], default=-1) + 1, "number of qubits")
    for x in ("X0", "Z0 Y1", "X3 Z4"):
        with t.case(f"not diagonal: {x}", trivial=True):
            t.raises(Exception, lambda: change_operator_type(QubitOperator(x), IsingOperator), "retype")


@clause("files and dictionaries", budget=60)
def _(t):
    import json
    with tempfile.TemporaryDirectory(prefix="vp_c19_") as d:
        for i in range(t.n(120)):
            n = t.rng.choice([1, 4, 4, 130])
            k = ("qubit", "ising")[i % 2]
            op = O.operator(t.rng, k, n, coefs=t.rng.choice(["complex", "real"]))
            if t.rng.random() < .2 and op.terms:
                op *= t.rng.choice([1e-5, 1e9, 1 / 3, np.float64(.1), 7])
            with t.case(f"{O.text(op)}", trivial=not op.terms):
                s = O.snapshot(op)
                conv, back, save, load = ((convert_qubitop_to_dict, convert_dict_to_qubitop, save_qubit_operator, load_qubit_operator) if k == "qubit" else
                                          (convert_isingop_to_dict, convert_dict_to_isingop, save_ising_operator, load_ising_operator))
                dct = conv(op)
                r = back(dct)
                t.ok(type(r) is type(op), "type")
                t.eq(r.terms, op.terms, "dictionary round trip")
                t.eq(back(json.loads(json.dumps(dct))).terms, op.terms, "through json")
                f = os.path.join(d, "op.json")
                save(op, f)
                r = load(f)
                t.ok(type(r) is type(op), "type")
                t.eq(list(r.terms.items()), list(op.terms.items()), "file round trip")
                with open(f) as h:
                    t.eq(load(h).terms, op.terms, "open file")
                if k == "qubit":
                    l = [O.operator(t.rng, "qubit", 5, coefs="complex") for _ in range(t.rng.randint(0, 4))] + [op]
                    save_qubit_operator_set(l, f)
                    r = load_qubit_operator_set(f)
                    t.eq([x.terms for x in r], [x.terms for x in l], "list of operators")
                    with open(f) as h:
                        t.eq([x.terms for x in load_qubit_operator_set(h)], [x.terms for x in l], "list from an open file")
                t.eq(O.snapshot(op), s, "operator unchanged")
        for i in range(t.n(90)):
            k = ("qubit", "fermion")[i % 2]
            op = O.operator(t.rng, k, t.rng.choice([3, 30]), coefs=t.rng.choice(["complex", "real"]))
            if i % 15 == 0:
                op = O.CLS[k]()
            if i % 15 == 1:
                op = O.CLS[k](()) * 2.5
            name = f"f{i}" + t.rng.choice(["", ".data"])
            with t.case(f"save_operator {O.text(op)} {name}", trivial=not op.terms):
                s = O.snapshot(op)
                for plain in (False, True):
                    save_operator(op, name, data_directory=d, plain_text=plain, allow_overwrite=plain)
                    t.ok(os.path.exists(os.path.join(d, f"f{i}.data")), "file name")
                    r = load_operator(name, data_directory=d, plain_text=plain)
                    t.ok(type(r) is type(op), "type")
                    t.eq(r.terms.keys(), op.terms.keys(), f"terms (plain text: {plain})")
                    for x in op.terms:
                        t.ok(abs(r.terms[x] - op.terms[x]) < 1e-10 * max(1, abs(op.terms[x])), f"coefficient of {x} (plain text: {plain}): {r.terms[x]} instead of {op.terms[x]}")
                try:
                    save_operator(O.CLS[k]("X0" if k == "qubit" else "0"), name, data_directory=d)
                    t.ok(False, "overwritten without permission")
                except Exception as e:
                    t.eq(type(e).__name__, "OperatorUtilsError", "refused")
                t.eq(load_operator(name, data_directory=d, plain_text=True).terms.keys(), op.terms.keys(), "file kept")
                t.eq(O.snapshot(op), s, "operator unchanged")
        for _ in range(t.n(40)):
            n = t.rng.randint(1, 3)
            z = t.rng.choice([0, 1, 1j])
            one, two = t.np_rng.randn(n, n) + z * t.np_rng.randn(n, n), t.np_rng.randn(*(n,) * 4) + z * t.np_rng.randn(*(n,) * 4)
            const = t.rng.choice([0, 1.25, -3, 1 - 2j, 2j, np.float64(.1)])
            with t.case(f"interaction operator n={n} constant={const} {one.tolist()}"):
                iop, rdm = InteractionOperator(const, one.copy(), two.copy()), InteractionRDM(one.copy(), two.copy())
                f = os.path.join(d, "i.json")
                for obj, conv, back, save, load in ((iop, convert_interaction_op_to_dict, convert_dict_to_interaction_op, save_interaction_operator, load_interaction_operator),
                                                    (rdm, convert_interaction_rdm_to_dict, convert_dict_to_interaction_rdm, save_interaction_rdm, load_interaction_rdm)):
                    save(obj, f)
                    with open(f) as h:
                        rs = [back(conv(obj)), load(f), load(h)]
                    for r in rs:
                        t.ok(type(r) is type(obj), "type")
                        t.close(r.one_body_tensor, one, "one-body tensor", 1e-14)
                        t.close(r.two_body_tensor, two, "two-body tensor", 1e-14)
                        if obj is iop:
                            t.close(r.constant, const, "constant", 1e-14)
                        t.ok(r == obj, "equal")
                    t.ok(np.array_equal(obj.one_body_tensor, one) and np.array_equal(obj.two_body_tensor, two), "object unchanged")


@clause("fermionic tensors, particle number sectors, reference states", budget=60)
def _(t):
    for _ in range(t.n(60)):
        n = t.rng.randint(1, 4)
        a = O.operator(t.rng, "fermion", n, terms=t.rng.randint(1, 4), length=4, coefs="complex") + FermionOperator(((0, 1), (0, 0)), .5)
        with t.case(f"tensor of {O.text(a)} n={n}"):
            s = O.snapshot(a)
            p = get_polynomial_tensor(a, n_qubits=n)
            t.close(O.matrix(get_fermion_operator(p), n), O.matrix(a, n), "tensor form")
            t.eq(p.n_qubits, n, "size")
            t.eq(O.snapshot(a), s, "input unchanged")
            one, two = t.np_rng.randn(n, n), t.np_rng.randn(*(n,) * 4)
            for x in (p, InteractionOperator(.5, one, two)):
                dg, rm = get_diagonal_component(x)
                fd, fr, fx = (O.matrix(get_fermion_operator(y), n) if any(k != () for k in y.n_body_tensors) else np.eye(2 ** n) * y.constant for y in (dg, rm, x))
                t.close(fd + fr, fx, "diagonal part plus remainder")
                t.close(fd, np.diag(np.diag(fx)), "diagonal part")
    for n in range(1, 6):
        for e in range(n + 1):
            with t.case(f"sector {e} of {n}", trivial=n < 2):
                idx = jw_number_indices(e, n)
                t.eq(sorted(idx), [i for i in range(2 ** n) if bin(i).count("1") == e], "indices of the sector")
                hf = jw_hartree_fock_state(e, n)
                t.eq(list(np.nonzero(hf)[0]), [sum(2 ** (n - 1 - i) for i in range(e))], "lowest orbitals occupied")
                occ = t.rng.sample(range(n), e)
                c = jw_configuration_state(occ, n)
                t.eq([i for i in range(2 ** n) if c[i]], [sum(1 << (n - 1 - i) for i in occ)], "occupied orbitals")
                N = O.matrix(get_fermion_operator(get_fermion_number_operator(n)), n)
                t.close(N, np.diag([bin(i).count("1") for i in range(2 ** n)]), "number operator")
                Nc = O.matrix(get_fermion_operator(get_fermion_number_operator(n, e)), n)
                t.close(Nc, N - e * np.eye(2 ** n), "number constraint")
                a = FermionOperator()
                for _k in range(3):
                    p, q = t.rng.randrange(n), t.rng.randrange(n)
                    a += FermionOperator(((p, 1), (q, 0)), 1 + .3 * _k) + FermionOperator(((q, 1), (p, 0)), 1 + .3 * _k)
                    if n > 2:
                        p, q, r, s2 = (t.rng.randrange(n) for _ in range(4))
                        a += FermionOperator(((p, 1), (q, 1), (r, 0), (s2, 0)), .7) + FermionOperator(((s2, 1), (r, 1), (q, 0), (p, 0)), .7)
                M = O.matrix(a, n)
                sp = get_sparse_operator(a, n_qubits=n)
                R = jw_number_restrict_operator(sp, e, n)
                t.close(DENSE(R), M[np.ix_(idx, idx)], "restricted operator")
                en, st = jw_get_ground_state_at_particle_number(sp, e)
                low = np.linalg.eigvalsh(M[np.ix_(idx, idx)])[0]
                t.close(en, low, "lowest energy of the sector", 1e-6)
                t.ok(abs(np.linalg.norm(st) - 1) < 1e-8 and np.allclose(np.delete(st, idx), 0), "state in the sector")
                t.close(M @ st, low * st, "eigenstate", 1e-6)
                if e >= 1:
                    P = DENSE(get_number_preserving_sparse_operator(a, n, e))
                    t.close(np.linalg.eigvals(P).real.sum(), np.trace(M[np.ix_(idx, idx)]), "sector matrix: trace")
                    t.close(np.sort(np.linalg.eigvalsh(P)) if len(P) == len(idx) else [0], np.linalg.eigvalsh(M[np.ix_(idx, idx)]), "sector matrix: spectrum", 1e-6)
    for no in range(1, 4):
        for na, nb in itertools.product(range(no + 1), repeat=2):
            with t.case(f"reference density {na} {nb} {no}", trivial=na + nb == 0):
                r = hf_rdm(na, nb, no)
                n = 2 * no
                i = sum(1 << (n - 1 - 2 * k) for k in range(na)) + sum(1 << (n - 1 - 2 * k - 1) for k in range(nb))
                F = lambda *f: O.term_matrix("fermion", f, n)[i, i]
                for p, q in itertools.product(range(n), repeat=2):
                    t.close(r.one_body_tensor[p, q], F((p, 1), (q, 0)), f"one-body element {p} {q}")
                for x in (itertools.product(range(n), repeat=4) if no < 3 else [tuple(t.rng.randrange(n) for _ in range(4)) for _ in range(60)]):
                    p, q, a, b = x
                    t.close(r.two_body_tensor[x], F((p, 1), (q, 1), (a, 0), (b, 0)), f"two-body element {x}")
