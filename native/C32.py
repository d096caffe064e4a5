"""Bounded contracts for C32 (molecular integrals, reduced Hamiltonians, density matrices, molecule files)."""
import copy, itertools, os, shutil, tempfile
import numpy as np
import ops as O
from native_lib import clause
from zquantum.core.openfermion import InteractionOperator, InteractionRDM, MolecularData, QubitOperator, jordan_wigner, FermionOperator
from zquantum.core.openfermion.chem import molecular_data as MD
from zquantum.core.openfermion.chem.reduced_hamiltonian import make_reduced_hamiltonian
from zquantum.core.openfermion.measurements.get_interaction_rdm import get_interaction_rdm
from zquantum.core.openfermion.ops.representations import get_active_space_integrals, get_tensors_from_integrals
from zquantum.core.openfermion.ops.representations.interaction_rdm import InteractionRDMError
from zquantum.core.openfermion.transforms.repconversions.conversions import get_molecular_data
from zquantum.core.openfermion.zapata_utils._utils import get_ground_state_rdm_from_qubit_op

F = lambda i, a, n: O.factor_matrix("fermion", (i, a), n)


def herm(t, n, real):
    """one- and two-body tensors of a self-adjoint interaction operator"""
    r = t.np_rng
    z = lambda *s: r.randn(*s) + (0 if real else 1j) * r.randn(*s)
    one, two = z(*(n,) * 2), z(*(n,) * 4)
    if t.rng.random() < .5:
        one = one * (r.rand(*one.shape) < .5)
        two = two * (r.rand(*two.shape) < .4)
    one, two = one + one.conj().T, two + two.conj().transpose(3, 2, 1, 0)
    if t.rng.random() < .4:   # two-body symmetric under exchange of both electrons as well
        two = two + two.transpose(1, 0, 3, 2)
    return one, two


def tensor_matrix(const, one, two, n):
    m = const * np.eye(2 ** n, dtype=complex)
    F = lambda i, a: O.factor_matrix("fermion", (i, a), n)
    for p, q in itertools.product(range(n), repeat=2):
        if one[p, q]:
            m = m + one[p, q] * F(p, 1) @ F(q, 0)
    for p, q, r, s in itertools.product(range(n), repeat=4):
        if two[p, q, r, s]:
            m = m + two[p, q, r, s] * F(p, 1) @ F(q, 1) @ F(r, 0) @ F(s, 0)
    return m


def integrals(t, n, symmetric=True, sparse=False):
    r = t.np_rng
    h, g = r.randn(n, n), r.randn(n, n, n, n)
    if sparse:
        h, g = h * (r.rand(*h.shape) < .5), g * (r.rand(*g.shape) < .4)
    if symmetric:
        h = h + h.T
        g = g + g.transpose(1, 0, 3, 2)
        g = g + g.transpose(3, 2, 1, 0)
        g = g + g.transpose(0, 2, 1, 3)
    return h, g


_E = {}


def spin_matrix(h, g, const=0):
    n = h.shape[0]
    m = const * np.eye(4 ** n, dtype=complex)
    if n not in _E:
        _E[n] = [[sum(F(2 * p + s, 1, 2 * n) @ F(2 * q + s, 0, 2 * n) for s in (0, 1)) for q in range(n)] for p in range(n)]
    E = _E[n]
    for p, q in itertools.product(range(n), repeat=2):
        m = m + h[p, q] * E[p][q]
    # sum a+_ps a+_qt a_rt a_us = E_pu E_qr - delta_uq E_pr
    for p, u in itertools.product(range(n), repeat=2):
        right = sum(g[p, q, r, u] / 2 * E[q][r] for q, r in itertools.product(range(n), repeat=2))
        m = m + E[p][u] @ right
        for r in range(n):
            m = m - g[p, u, r, u] / 2 * E[p][r]
    return m


@clause("spin-orbital tensors are the spin-summed Hamiltonian", budget=60)
def _(t):
    for _ in range(t.n(40)):
        n = t.rng.choice([1, 2, 2, 3, 3])
        h, g = integrals(t, n, t.rng.random() < .5, t.rng.random() < .4)
        with t.case(f"{n} orbitals, one-body {h.ravel()[:4]}"):
            h0, g0 = h.copy(), g.copy()
            want = spin_matrix(h, g)
            one, two = get_tensors_from_integrals(h, g)
            t.close(tensor_matrix(0, one, two, 2 * n), want, "get_tensors_from_integrals")
            one, two = MD.spinorb_from_spatial(h, g)
            t.close(tensor_matrix(0, one, two / 2, 2 * n), want, "spinorb_from_spatial")
            t.ok((h == h0).all() and (g == g0).all(), "integrals unchanged")
            J, K, A = MD.j_mat(g), MD.k_mat(g), MD.antisymtei(g)
            for p, q in itertools.product(range(n), repeat=2):
                t.close(J[p, q], g[p, q, q, p], "Coulomb integrals")
                t.close(K[p, q], g[p, q, p, q], "exchange integrals")
            t.close(A, g.transpose(0, 1, 3, 2) - g, "antisymmetrized integrals")
            t.ok((g == g0).all(), "integrals unchanged")


def core_states(n, occ, act):
    """indices of the basis states of 2n modes whose core is full, and whose other inactive orbitals are empty, by active occupation"""
    out = []
    for a in itertools.product((0, 1), repeat=2 * len(act)):
        s = [0] * (2 * n)
        for p in occ:
            s[2 * p] = s[2 * p + 1] = 1
        for k, p in enumerate(act):
            s[2 * p:2 * p + 2] = a[2 * k:2 * k + 2]
        out.append(int("".join(map(str, s)), 2))
    return out


@clause("active spaces: matrix elements of the full Hamiltonian", budget=90)
def _(t):
    r = t.rng
    for _ in range(t.n(30)):
        n = r.choice([2, 2, 3, 3, 3, 4])
        orbitals = r.sample(range(n), n)
        k = r.randrange(0, n)
        occ, rest = orbitals[:k], orbitals[k:]
        act = sorted(rest[:r.randrange(1, min(len(rest), 3) + 1)])
        con = r.uniform(-2, 2)
        h, g = integrals(t, n, True, r.random() < .3)
        with t.case(f"{n} orbitals, core {occ}, active {act}, repulsion {con}", trivial=not occ):
            h0, g0 = h.copy(), g.copy()
            full = spin_matrix(h, g, con)
            at = core_states(n, occ, act)
            want = full[np.ix_(at, at)]
            c, h2, g2 = get_active_space_integrals(h, g, occ, act)
            t.close(spin_matrix(h2, g2, con + c), want, "get_active_space_integrals")
            t.ok((h == h0).all() and (g == g0).all(), "integrals unchanged")
            mol = MolecularData([("H", (0, 0, 0))], "b", 2, filename="/nonexistent/file")
            mol.one_body_integrals, mol.two_body_integrals, mol.nuclear_repulsion = h, g, con
            for o in (occ, tuple(occ), np.array(occ, dtype=int)):
                H = mol.get_molecular_hamiltonian(o, act)
                t.close(tensor_matrix(H.constant, H.one_body_tensor, H.two_body_tensor, 2 * len(act)), want, "molecular Hamiltonian of an active space")
            H = mol.get_molecular_hamiltonian()
            t.close(tensor_matrix(H.constant, H.one_body_tensor, H.two_body_tensor, 2 * n), full, "molecular Hamiltonian afterwards")
            t.ok((h == h0).all() and (g == g0).all() and mol.nuclear_repulsion == con, "integrals unchanged")
            t.close(mol.get_j(), MD.j_mat(g), "get_j")
            t.close(mol.get_k(), MD.k_mat(g), "get_k")
            t.close(mol.get_antisym(), MD.antisymtei(MD.spinorb_from_spatial(h, g)[1]), "get_antisym")
            perm = r.sample(act, len(act))
            ix = [act.index(p) for p in perm]
            c2, h3, g3 = get_active_space_integrals(h, g, occ, perm)
            t.close([c2], [c], "constant of the active orbitals in another order")
            t.close(h3, h2[np.ix_(ix, ix)], "one-body integrals in another order")
            t.close(g3, g2[np.ix_(ix, ix, ix, ix)], "two-body integrals in another order")
            if not occ:
                t.close(get_active_space_integrals(h, g, None, act)[1], h2, "no core")
            t.raises(ValueError, lambda: get_active_space_integrals(h, g, occ, []), "no active orbitals")
            t.raises(ValueError, lambda: mol.get_molecular_hamiltonian(occ, []), "no active orbitals of a molecule")


@clause("reduced Hamiltonians on states of the given number of electrons", budget=40)
def _(t):
    for _ in range(t.n(40)):
        n = t.rng.randrange(2, 6)
        e = t.rng.randrange(2, n + 1)
        one, two = herm(t, n, t.rng.random() < .5)
        if t.rng.random() < .2:
            one = t.np_rng.randn(n, n) + (0j if np.iscomplexobj(two) else 0)
        con = t.rng.uniform(-3, 3)
        with t.case(f"{n} modes, {e} electrons, constant {con}, one-body {one.ravel()[:3]}"):
            o = InteractionOperator(con, one.copy(), two.copy())
            red = make_reduced_hamiltonian(o, e)
            t.close(red.one_body_tensor, np.zeros((n, n)), "no one-body part")
            at = [i for i in range(2 ** n) if bin(i).count("1") == e]
            t.close(tensor_matrix(red.constant, red.one_body_tensor, red.two_body_tensor, n)[np.ix_(at, at)], tensor_matrix(con, one, two, n)[np.ix_(at, at)], "matrix elements")
            t.ok((o.one_body_tensor == one).all() and (o.two_body_tensor == two).all() and o.constant == con, "operator unchanged")


def state(t, n, e):
    v = t.np_rng.randn(2 ** n) + 1j * t.np_rng.randn(2 ** n)
    v[[bin(i).count("1") != e for i in range(2 ** n)]] = 0
    return v / np.linalg.norm(v)


def density(v, n):
    low = [F(i, 0, n) @ v for i in range(n)]
    one = np.array([[np.vdot(low[p], low[q]) for q in range(n)] for p in range(n)])
    pair = [[F(r, 0, n) @ low[s] for s in range(n)] for r in range(n)]
    two = np.array([[[[np.vdot(pair[q][p], pair[r][s]) for s in range(n)] for r in range(n)] for q in range(n)] for p in range(n)])
    return one, two


@clause("density matrices evaluate operators to their expectation value in the state", budget=90)
def _(t):
    for _ in range(t.n(25)):
        n = t.rng.randrange(1, 5)
        e = t.rng.randrange(0, n + 1)
        v = state(t, n, e)
        one, two = density(v, n)
        h, g = herm(t, n, t.rng.random() < .5)
        if t.rng.random() < .3:
            h = h + 1j * t.np_rng.randn(n, n)
        con = t.rng.uniform(-2, 2)
        with t.case(f"{n} modes, {e} electrons, state {v[:3]}", trivial=e == 0):
            rdm = InteractionRDM(one.copy(), two.copy())
            op = InteractionOperator(con, h, g)
            want = np.vdot(v, tensor_matrix(con, h, g, n) @ v)
            t.close([rdm.expectation(op)], [want], "interaction operator")
            q = jordan_wigner(FermionOperator((), con) + sum((FermionOperator(((i, 1), (j, 0)), h[i, j]) for i in range(n) for j in range(n)), FermionOperator())
                              + sum((FermionOperator(((i, 1), (j, 1), (k, 0), (l, 0)), g[i, j, k, l]) for i, j, k, l in itertools.product(range(n), repeat=4)), FermionOperator()))
            before = dict(q.terms)
            t.close([rdm.expectation(q)], [want], "qubit operator")
            ex = rdm.get_qubit_expectations(q)
            t.eq(set(ex.terms), set(before), "strings")
            for s, x in ex.terms.items():
                t.close([x], [np.vdot(v, O.matrix(QubitOperator(s), n) @ v)], f"expectation value of {s}")
            t.ok(dict(q.terms) == before, "operator unchanged")
            t.ok((rdm.one_body_tensor == one).all() and (rdm.two_body_tensor == two).all(), "density matrices unchanged")
            vals = QubitOperator()
            for s in itertools.product("IXYZ", repeat=n):
                s = tuple((i, p) for i, p in enumerate(s) if p != "I")
                vals.terms[s] = np.vdot(v, O.matrix(QubitOperator(s), n) @ v)
            for r in (get_interaction_rdm(vals), get_interaction_rdm(vals, n)):
                t.close(r.one_body_tensor, one, "one-body density matrix from strings")
                t.close(r.two_body_tensor, two, "two-body density matrix from strings")
            big = get_interaction_rdm(vals, n + 1)
            t.close(big.one_body_tensor[:n, :n], one, "one more qubit")
            few = QubitOperator()
            few.terms = {s: x for s, x in vals.terms.items() if len(s) != 1}
            r = get_interaction_rdm(few, n)
            for i, j in itertools.product(range(n), repeat=2):
                t.close([r.one_body_tensor[i, j]], [sum(c * few.terms.get(s, 0) for s, c in jordan_wigner(FermionOperator(((i, 1), (j, 0)))).terms.items())], "missing strings count as zero")
    rdm = InteractionRDM(*density(state(t, 3, 2), 3))
    with t.case("rejected operators"):
        for s in (((0, "Z"), (1, "Z"), (2, "Z")),):
            t.raises(InteractionRDMError, lambda: rdm.expectation(QubitOperator(s)), "three-body string")
        for bad in (1.0, "Z0", FermionOperator("0^ 0")):
            t.raises(InteractionRDMError, lambda: rdm.expectation(bad), "another object")


@clause("density matrices of the ground state with a given number of particles", budget=60)
def _(t):
    for _ in range(t.n(10)):
        n = t.rng.choice([2, 3, 3, 4])
        e = t.rng.randrange(0, n + 1)
        h, g = herm(t, n, t.rng.random() < .4)
        con = t.rng.uniform(-2, 2)
        m = tensor_matrix(con, h, g, n)
        rows = [x for x in range(2 ** n) if bin(x).count("1") == e]
        w, u = np.linalg.eigh(m[np.ix_(rows, rows)])
        if len(w) > 1 and w[1] - w[0] < 1e-2:
            continue
        v = np.zeros(2 ** n, dtype=complex)
        v[rows] = u[:, 0]
        one, two = density(v, n)
        q = jordan_wigner(FermionOperator((), con) + sum((FermionOperator(((i, 1), (j, 0)), h[i, j]) for i in range(n) for j in range(n)), FermionOperator())
                          + sum((FermionOperator(((i, 1), (j, 1), (k, 0), (l, 0)), g[i, j, k, l]) for i, j, k, l in itertools.product(range(n), repeat=4)), FermionOperator()))
        if max([i for s in q.terms for i, _ in s] + [-1]) != n - 1:
            continue
        before = dict(q.terms)
        with t.case(f"{n} modes, {e} electrons, {con} {h.tolist()} {g.tolist()}", trivial=e == 0):
            rdm = get_ground_state_rdm_from_qubit_op(q, e)
            t.close(rdm.one_body_tensor, one, "one-body density matrix")
            t.close(rdm.two_body_tensor, two, "two-body density matrix")
            t.close([rdm.expectation(InteractionOperator(con, h, g))], [w[0]], "energy")
            t.close([np.trace(rdm.one_body_tensor)], [e], "number of particles")
            t.ok(dict(q.terms) == before, "operator unchanged")


@clause("molecules made from interaction operators", budget=20)
def _(t):
    for _ in range(t.n(30)):
        spatial = t.rng.random() < .6
        n = 2 * t.rng.randrange(1, 3) if spatial else t.rng.randrange(1, 5)
        con = t.rng.uniform(-2, 2)
        h, g = t.np_rng.randn(*(n,) * 2), t.np_rng.randn(*(n,) * 4)
        e, mult = t.rng.randrange(0, n + 1), t.rng.choice([1, 2, 3])
        with t.case(f"{n} spin orbitals, reduce={spatial}, {e} electrons"):
            op = InteractionOperator(con, h.copy(), g.copy())
            kw = {} if spatial and t.rng.random() < .5 else dict(reduce_spin=spatial)
            m = get_molecular_data(op, geometry=[("H", (0, 0, 0)), ("He", (0, 0, 1.5))], basis="sto-3g", multiplicity=mult, n_electrons=e, data_directory=os.getcwd(), **kw)
            keep = list(range(0, n, 2)) if spatial else list(range(n))
            t.close(m.one_body_integrals, h[np.ix_(keep, keep)], "one-body integrals")
            t.close(m.two_body_integrals, g[np.ix_(keep, keep, keep, keep)], "two-body integrals")
            t.close([m.nuclear_repulsion], [con], "constant")
            t.close(m.overlap_integrals, np.eye(len(keep)), "overlap")
            t.eq((m.n_orbitals, m.n_qubits, m.n_electrons, m.multiplicity, m.basis), (len(keep), n, e, mult, "sto-3g"), "metadata")
            m.one_body_integrals[...] = 0
            m.two_body_integrals[...] = 0
            t.ok((op.one_body_tensor == h).all() and (op.two_body_tensor == g).all(), "operator unchanged")


def equal(t, a, b, why):
    if a is None or b is None:
        t.ok(a is None and b is None, f"{why}: {a!r} against {b!r}")
    else:
        t.ok(np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b))), f"{why}: {a!r} against {b!r}")


FIELDS = ("multiplicity", "charge", "n_electrons", "n_orbitals", "n_qubits", "nuclear_repulsion", "hf_energy", "mp2_energy", "cisd_energy", "fci_energy", "ccsd_energy", "orbital_energies", "n_atoms",
          "basis", "description", "name")
LAZY = ("canonical_orbitals", "overlap_integrals", "one_body_integrals", "two_body_integrals", "cisd_one_rdm", "cisd_two_rdm", "fci_one_rdm", "fci_two_rdm", "ccsd_single_amps", "ccsd_double_amps")


@clause("molecules: names, electron numbers, saving and loading", budget=60)
def _(t):
    r = t.rng
    here, data = os.getcwd(), MD.DATA_DIRECTORY
    scratch = tempfile.mkdtemp(prefix="vp_mol_")
    try:
        os.chdir(scratch)
        MD.DATA_DIRECTORY = scratch
        for k in range(t.n(40)):
            atoms = [r.choice(["H", "Li", "He", "O", "Be", "Cl", "Fe"]) for _ in range(r.randrange(1, 5))]
            geometry = [(a, tuple(round(r.uniform(-2, 2), 3) for _ in range(3))) for a in atoms]
            charge = r.choice([0, 0, 1, -1, 2])
            n = sum(MD.periodic_table.index(a) for a in atoms) - charge
            mult = r.choice([m for m in range(1, 7) if (n + m) % 2 and m <= max(n, 0) + 1] or [1])
            desc = r.choice(["", "0.7414", "long description " + str(k)])
            by_data_dir = r.random() < .5
            with t.case(f"{geometry}, charge {charge}, multiplicity {mult}, {desc!r}"):
                kw = dict(data_directory=scratch) if by_data_dir else dict(filename=os.path.join(scratch, f"m{k}" + r.choice(["", ".hdf5"])))
                mol = MolecularData(geometry, "sto-3g", mult, charge, desc, **kw)
                t.eq(mol.n_electrons, n, "number of electrons")
                t.eq((mol.get_n_alpha_electrons() + mol.get_n_beta_electrons(), mol.get_n_alpha_electrons() - mol.get_n_beta_electrons()), (n, mult - 1), "alpha and beta electrons")
                t.eq(mol.n_atoms, len(atoms), "number of atoms")
                t.eq(mol.protons, sorted(MD.periodic_table.index(a) for a in atoms), "protons")
                kinds = sorted(set(atoms), key=MD.periodic_table.index)
                word = ["singlet", "doublet", "triplet", "quartet", "quintet", "sextet"][mult - 1]
                name = "-".join(f"{a}{atoms.count(a)}" for a in kinds) + f"_sto-3g_{word}" + ("" if not charge else f"_{abs(charge)}{'+' if charge > 0 else '-'}") + (f"_{desc}" if desc else "")
                if charge >= 0:
                    t.eq(mol.name, name, "name")
                if by_data_dir and charge >= 0:
                    t.eq(mol.filename, os.path.join(scratch, name), "file name")
                no = r.randrange(1, 4)

                def fill(m):
                    m.n_orbitals, m.n_qubits = no, 2 * no
                    for f in ("nuclear_repulsion", "hf_energy", "mp2_energy", "cisd_energy", "fci_energy", "ccsd_energy"):
                        if r.random() < .7:
                            setattr(m, f, r.choice([0.0, r.uniform(-5, 5)]))
                    if r.random() < .7:
                        m.orbital_energies = t.np_rng.randn(no)
                    for f in LAZY:
                        if r.random() < .7:
                            four = f in ("two_body_integrals", "ccsd_double_amps") or "two_rdm" in f
                            setattr(m, f, t.np_rng.randn(*(no,) * (4 if four else 2)))
                    if r.random() < .5:
                        m.general_calculations = {"a": 1.5, "longer key": r.random()}

                def compare(m, why):
                    for f in FIELDS + LAZY:
                        equal(t, getattr(m, f), want[f], f"{why}: {f}")
                    t.eq([(a, list(x)) for a, x in m.geometry], [(a, list(x)) for a, x in geometry], f"{why}: geometry")
                    t.eq({q: float(x) for q, x in m.general_calculations.items()}, want["general"], f"{why}: general calculations")
                fill(mol)
                for step in range(2):
                    want = {f: copy.deepcopy(getattr(mol, f)) for f in FIELDS + LAZY}
                    want["general"] = dict(mol.general_calculations)
                    mol.save()
                    compare(mol, "after saving")
                    t.eq([f for f in os.listdir(scratch) if not f.startswith(("m", mol.name)) and not any(f.startswith(a) for a in MD.periodic_table[1:])], [], "no other file is left")
                    back = MolecularData(filename=mol.filename + r.choice(["", ".hdf5"]))
                    compare(back, "loaded by file name")
                    other = MolecularData(geometry, "sto-3g", mult, charge, desc, **kw)
                    other.load()
                    compare(other, "loaded into a new molecule")
                    if want["one_body_integrals"] is not None and want["two_body_integrals"] is not None and want["nuclear_repulsion"] is not None:
                        H = back.get_molecular_hamiltonian()
                        t.close([H.constant], [want["nuclear_repulsion"]], "constant")
                        t.close(H.one_body_tensor, MD.spinorb_from_spatial(want["one_body_integrals"], want["two_body_integrals"])[0], "one-body tensor of the loaded molecule")
                    else:
                        for m in (mol, back):
                            if want["one_body_integrals"] is None or want["two_body_integrals"] is None:
                                t.raises(MD.MissingCalculationError, m.get_integrals, "missing integrals")
                    for fci in (False, True):
                        x = "fci" if fci else "cisd"
                        if want[x + "_energy"] is None:
                            t.raises(MD.MissingCalculationError, lambda: back.get_molecular_rdm(fci), "missing calculation")
                        elif want[x + "_one_rdm"] is not None and want[x + "_two_rdm"] is not None:
                            d = back.get_molecular_rdm(use_fci=fci)
                            t.close(d.one_body_tensor, want[x + "_one_rdm"], f"{x} one-body density matrix")
                            t.close(d.two_body_tensor, want[x + "_two_rdm"], f"{x} two-body density matrix")
                    mol = r.choice([mol, back])
                    fill(mol)
        for k in range(3):
            with t.case(f"load_molecular_hamiltonian {k}"):
                h, g = integrals(t, 3)
                geometry = [("Li", (0, 0, 0)), ("H", (0, 0, 1.5))]
                mol = MolecularData(geometry, "b", 1, description=f"d{k}")
                mol.one_body_integrals, mol.two_body_integrals, mol.nuclear_repulsion = h, g, .25
                mol.save()
                for args, occ, act in (((), None, None), ((2, 2), [0], [1, 2]), ((2, 1), [0], [1]), ((4, 3), [], [0, 1, 2])):
                    H = MD.load_molecular_hamiltonian(geometry, "b", 1, f"d{k}", *args)
                    c, h2, g2 = (0, h, g) if occ is None else get_active_space_integrals(h, g, occ, act)
                    one, two = get_tensors_from_integrals(h2, g2)
                    t.close([H.constant], [.25 + c], "constant")
                    t.close(H.one_body_tensor, one, "one-body tensor")
                    t.close(H.two_body_tensor, two, "two-body tensor")
        with t.case("invalid molecules"):
            t.raises(MD.MoleculeNameError, lambda: MD.name_molecule([("H", (0, 0, 0))], "b", 0, 0, ""), "multiplicity")
            t.raises(ValueError, lambda: MolecularData(), "nothing given")
            t.raises(ValueError, lambda: MolecularData([("H", (0, 0, 0))], "b"), "no multiplicity")
            t.raises(TypeError, lambda: MolecularData([("H", (0, 0, 0))], "b", 2, description=1), "description")
        with t.case("geometry files"):
            with open("geometry.txt", "w") as f:
                f.write("H 0. 0. 0.\n\nLi 0 -1.5e0 2\n")
            t.eq(MD.geometry_from_file("geometry.txt"), [("H", (0, 0, 0)), ("Li", (0, -1.5, 2))], "geometry")
            for x in (0.0, 1.0, 3.7):
                t.close([MD.angstroms_to_bohr(MD.bohr_to_angstroms(x))], [x], "units")
    finally:
        MD.DATA_DIRECTORY = data
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
