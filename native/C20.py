"""Bounded contracts for C20 (grouping into co-measurable groups, context selection, group statistics)."""
import contextlib, copy, io, itertools, math
import numpy as np
import ops as O
import ref
from native_lib import clause
from zquantum.core.circuits import Circuit
from zquantum.core.estimation import get_context_selection_circuit_for_group, group_greedily, group_individually, perform_context_selection
from zquantum.core.hamiltonian import (compute_group_variances, estimate_nmeas_for_frames, get_decomposition_function, get_expectation_values_from_rdms,
                                       get_expectation_values_from_rdms_for_qubitoperator_list, group_comeasureable_terms_greedy, is_comeasureable, reorder_fermionic_modes)
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.openfermion.ops import InteractionOperator, InteractionRDM
from zquantum.core.openfermion.transforms.opconversions import get_fermion_operator, jordan_wigner


def term(t, n, k=None):
    k = t.rng.randint(1, min(n, 4)) if k is None else k
    return tuple((q, t.rng.choice("XYZ")) for q in sorted(t.rng.sample(range(n), k)))


def operator(t, n, k, const=.5):
    op = QubitOperator()
    for _ in range(k):
        c = t.rng.choice([1, -1, .5, -2.25, 3, 1.0, np.float64(.3), t.rng.uniform(-2, 2), 1 + 0j, complex(-.5, 0)])
        x = term(t, n)
        if x not in op.terms:
            op.terms[x] = c
    if t.rng.random() < const:
        items = list(op.terms.items())
        items.insert(t.rng.randint(0, len(items)), ((), t.rng.choice([2.5, -1, 0.0, 1])))
        op.terms = dict(items)
    return op


def compatible(a, b):
    d = dict(a)
    return all(d.get(q, p) == p for q, p in b)


@clause("co-measurable exactly when no qubit carries two Paulis", budget=20)
def _(t):
    paulis = ["", "X", "Y", "Z"]
    strings = [tuple((q, p) for q, p in enumerate(s) if p) for s in itertools.product(paulis, repeat=3)]
    for a in strings:
        for b in strings:
            with t.case(f"{a} {b}", trivial=not a or not b):
                t.eq(bool(is_comeasureable(a, b)), compatible(a, b), "co-measurable")
    for _ in range(t.n(300)):
        n = t.rng.choice([4, 9, 13, 300])
        a, b = term(t, n, t.rng.randint(0, 4)), term(t, n, t.rng.randint(0, 4))
        if t.rng.random() < .6:
            b = tuple(sorted({**dict(b), **dict(t.rng.sample(a, t.rng.randint(0, len(a))))}.items()))
        a, b = t.rng.sample(a, len(a)), t.rng.sample(b, len(b))
        with t.case(f"{a} {b}", trivial=not a or not b):
            t.eq(bool(is_comeasureable(tuple(a), tuple(b))), compatible(a, b), "co-measurable")


@clause("grouping partitions the terms", budget=40)
def _(t):
    greedy, sorted_ = get_decomposition_function("greedy"), get_decomposition_function("greedy-sorted")
    with t.case("unknown decomposition"):
        t.raises(ValueError, lambda: get_decomposition_function("best"), "unknown name")
    routes = [("greedy", lambda o: group_comeasureable_terms_greedy(o)), ("sorted", lambda o: group_comeasureable_terms_greedy(o, True)), ("unsorted", lambda o: group_comeasureable_terms_greedy(o, sort_terms=False)),
              ("greedy by name", greedy), ("sorted by name", sorted_)]
    for _ in range(t.n(150)):
        n = t.rng.choice([1, 2, 3, 4, 6, 12])
        op = operator(t, n, t.rng.choice([0, 1, 2, 5, 12, 25]))
        for name, f in routes:
            with t.case(f"{name}: {op.terms}", trivial=not op.terms):
                keep = list(op.terms.items())
                groups = f(op)
                t.eq(list(op.terms.items()), keep, "input unchanged")
                seen = {}
                for g in groups:
                    t.ok(len(g.terms) > 0, "no empty group")
                    for x, c in g.terms.items():
                        t.ok(x not in seen, f"{x} is in two groups")
                        seen[x] = c
                    for a, b in itertools.combinations(g.terms, 2):
                        t.ok(compatible(a, b), f"{a} and {b} in one group")
                    t.ok(() not in g.terms or len(g.terms) == 1, "constant is its own group")
                t.eq(seen, dict(keep), "terms and coefficients")
                for g in groups:
                    for x in g.terms:
                        g.terms[x] = 77.0
                t.eq(list(op.terms.items()), keep, "groups share nothing with the input")


def has_matrix(n, circuit):
    return ref.npm(circuit.to_unitary())


@clause("measurement basis of a group", budget=60)
def _(t):
    for _ in range(t.n(60)):
        n = t.rng.randint(1, 3)
        basis = {q: t.rng.choice("XYZ") for q in range(n)}
        op = QubitOperator()
        for _k in range(t.rng.randint(1, 5)):
            x = tuple((q, basis[q]) for q in sorted(t.rng.sample(range(n), t.rng.randint(0, n))))
            op.terms[x] = t.rng.choice([1, -1.5, .25, 2.0, t.rng.uniform(-3, 3)])
        with t.case(f"{op.terms}"):
            keep = dict(op.terms)
            circ, ising = get_context_selection_circuit_for_group(op)
            t.ok(isinstance(ising, IsingOperator), "diagonal operator")
            t.eq(op.terms, keep, "operator unchanged")
            t.eq(len(ising.terms), len(keep), "one diagonal term per term")
            u = np.eye(2 ** n, dtype=complex)
            for o in circ.operations:
                u = ref.lift(ref.npm(o.gate.matrix), o.qubit_indices, n) @ u
            for x, c in keep.items():
                z = tuple((q, "Z") for q, _p in x)
                t.ok(z in ising.terms, f"diagonal term for {x}")
                t.eq(ising.terms[z], c, "same coefficient")
                t.close(u.conj().T @ ref.pauli_string(dict(z), n) @ u, ref.pauli_string(dict(x), n), f"{x} is measured as {z}")
    for _ in range(t.n(60)):
        a, b = term(t, 5), term(t, 5)
        if not compatible(a, b):
            with t.case(f"not co-measurable {a} {b}"):
                op = QubitOperator(a, 1.5) + QubitOperator(b, -2.0)
                t.raises(ValueError, lambda: get_context_selection_circuit_for_group(op), "differing bases are rejected")
                t.raises(ValueError, lambda: perform_context_selection([EstimationTask(op, Circuit(n_qubits=5), 10)]), "differing bases are rejected")


@clause("grouping and context selection of tasks keep the sum", budget=60)
def _(t):
    from zquantum.core.circuits import RX, RY, RZ, CNOT, H
    for _ in range(t.n(30)):
        n = t.rng.randint(1, 3)
        tasks, want = [], []
        for i in range(t.rng.randint(1, 3)):
            op = operator(t, n, t.rng.randint(1, 5))
            for x in list(op.terms):
                if abs(op.terms[x]) < 1e-8:
                    op.terms[x] = 1.0
            c = Circuit([t.rng.choice([RX, RY, RZ])(t.rng.uniform(-3, 3))(t.rng.randrange(n)) for _ in range(4)] + ([CNOT(0, 1)] if n > 1 else []), n_qubits=n)
            tasks.append(EstimationTask(op, c, t.rng.choice([10, 77, None])))
            want.append(O.matrix(op, n))
        with t.case(" | ".join(f"{k.operator.terms} {k.circuit} {k.number_of_shots}" for k in tasks)):
            snap = [(dict(k.operator.terms), k.circuit, k.number_of_shots) for k in tasks]
            for name, f in (("individually", lambda: group_individually(tasks)), ("greedily", lambda: group_greedily(tasks)), ("greedily sorted", lambda: group_greedily(tasks, sort_terms=True))):
                with contextlib.redirect_stdout(io.StringIO()):
                    out = f()
                pos = 0
                for k, w in zip(tasks, want):
                    m, names = np.zeros_like(w), []
                    total = len(k.operator.terms)
                    while len(names) < total:
                        g = out[pos]
                        pos += 1
                        t.ok(g.circuit == k.circuit and g.number_of_shots == k.number_of_shots, f"{name}: circuit and shots kept")
                        names += list(g.operator.terms)
                        m = m + O.matrix(g.operator, n)
                        if name == "individually":
                            t.eq(len(g.operator.terms), 1, "one term each")
                        # the measured diagonal operator in the rotated state has the group's expectation value
                        sel, = perform_context_selection([g])
                        t.eq(sel.number_of_shots, k.number_of_shots, "shots kept")
                        psi = has_matrix(n, k.circuit)[:, 0]
                        phi = has_matrix(n, sel.circuit)[:, 0]
                        t.eq(sel.circuit.n_qubits, n, "width")
                        t.close(phi.conj() @ O.matrix(sel.operator, n) @ phi, psi.conj() @ O.matrix(g.operator, n) @ psi, "expectation in the rotated state")
                        if name != "individually":
                            for a, b in itertools.combinations(g.operator.terms, 2):
                                t.ok(compatible(a, b), "co-measurable")
                    t.eq(sorted(names), sorted(k.operator.terms), f"{name}: every term once")
                    t.close(m, w, f"{name}: sum of the groups")
                t.eq(pos, len(out), f"{name}: nothing else")
            t.eq([(dict(k.operator.terms), k.circuit, k.number_of_shots) for k in tasks], snap, "tasks unchanged")


@clause("group variances and measurement totals", budget=25)
def _(t):
    for _ in range(t.n(200)):
        n = t.rng.choice([1, 2, 4, 7])
        groups = [operator(t, n, t.rng.choice([1, 2, 4])) for _ in range(t.rng.randint(1, 5))]
        for g in groups:
            g.terms = {x: float(np.real(c)) if t.rng.random() < .9 else 0.0 for x, c in g.terms.items()}
            if t.rng.random() < .15:
                g.terms = {(): t.rng.choice([0.0, -0.0, 2.5, -1.0])}
        vals = [t.rng.choice([1, -1, 0, .5, t.rng.uniform(-1, 1)]) for g in groups for _ in g.terms]
        with t.case(f"{[g.terms for g in groups]} {vals}"):
            keep = [dict(g.terms) for g in groups]
            ub = [sum(c ** 2 for x, c in g.items() if x) for g in keep]
            t.close(compute_group_variances(groups), ub, "upper bound")
            it = iter(vals)
            ev = [sum(c ** 2 * (1 - next(it) ** 2) for c in g.values()) for g in keep]
            t.close(compute_group_variances(groups, ExpectationValues(np.array(vals, dtype=float))), ev, "with expectation values")
            t.close(compute_group_variances(groups, ExpectationValues(np.array(vals, dtype=complex))), ev, "with complex-typed expectation values")
            for var, e in ((ub, None), (ev, ExpectationValues(np.array(vals, dtype=float)))):
                k2, nterms, frames = estimate_nmeas_for_frames(groups, e)
                s = sum(math.sqrt(v) for v in var)
                t.close(k2, s ** 2, "total for unit precision")
                t.close(frames, [s * math.sqrt(v) for v in var], "per group")
                t.eq(nterms, sum(len(g) for g in keep), "number of terms")
            t.eq([dict(g.terms) for g in groups], keep, "groups unchanged")
            t.raises(ValueError, lambda: compute_group_variances(groups, ExpectationValues(np.array(vals + [.5]))), "too many values")
            t.raises(ValueError, lambda: compute_group_variances(groups, ExpectationValues(np.array(vals[:-1] if len(vals) > 1 else []))), "too few values")
            for bad in (1.5, -1.01):
                v = list(vals)
                v[t.rng.randrange(len(v))] = bad
                t.raises(ValueError, lambda: compute_group_variances(groups, ExpectationValues(np.array(v, dtype=float))), "out of range")


@clause("expectation values from reduced density matrices; mode reordering", budget=40)
def _(t):
    for _ in range(t.n(12)):
        n = t.rng.randint(2, 4)
        k = t.rng.randint(0, n)
        psi = np.zeros(2 ** n, dtype=complex)
        for i in range(2 ** n):
            if bin(i).count("1") == k:
                psi[i] = complex(t.rng.gauss(0, 1), t.rng.gauss(0, 1)) if t.rng.random() < .7 or not psi.any() else 0
        psi /= np.linalg.norm(psi)
        F = lambda *f: O.term_matrix("fermion", f, n)
        one = np.array([[psi.conj() @ F((p, 1), (q, 0)) @ psi for q in range(n)] for p in range(n)])
        two = np.array([[[[psi.conj() @ F((p, 1), (q, 1), (r, 0), (s, 0)) @ psi for s in range(n)] for r in range(n)] for q in range(n)] for p in range(n)])
        h1 = t.np_rng.randn(n, n)
        h1 = h1 + h1.T
        op1 = sum((jordan_wigner(O.FermionOperator(((p, 1), (q, 0)), h1[p, q])) for p in range(n) for q in range(n)), QubitOperator())
        extra = QubitOperator()
        for a, b in itertools.combinations(range(n), 2):
            if t.rng.random() < .6:
                extra += QubitOperator(((a, "Z"), (b, "Z")), t.rng.uniform(-3, 3))
        ops_ = [x for x in (op1, extra, QubitOperator((), 2.0) + op1 * .5) if x.terms]
        with t.case(f"n={n} psi={psi} ops={[o.terms for o in ops_]}", trivial=k == 0):
            rdm = InteractionRDM(one, two)
            flat = {False: [], True: []}
            for op in ops_:
                for srt in (False, True):
                    items = list(op.terms.items())
                    if srt:
                        items.sort(key=lambda x: -abs(x[1]))
                    want = [np.real(psi.conj() @ O.term_matrix("qubit", x, n) @ psi) for x, _c in items]
                    keep = dict(op.terms)
                    got = get_expectation_values_from_rdms(rdm, op, sort_terms=srt)
                    t.close(got.values, want, f"term expectation values, sorted {srt}")
                    t.eq(op.terms, keep, "operator unchanged")
                    flat[srt] += want
            for srt in (False, True):
                got = get_expectation_values_from_rdms_for_qubitoperator_list(rdm, ops_, sort_terms=srt)
                t.close(got.values, flat[srt], f"list, sorted {srt}")
    for _ in range(t.n(12)):
        n = t.rng.choice([2, 2, 3])
        one = t.np_rng.randn(n, n)
        two = t.np_rng.randn(n, n, n, n)
        order = t.rng.sample(range(n), n)
        with t.case(f"reorder {order} {one.tolist()} {two.tolist()}", trivial=order == sorted(order)):
            op = InteractionOperator(.7, one.copy(), two.copy())
            r = reorder_fermionic_modes(op, order)
            # mode order[i] of the input becomes mode i
            t.close(r.constant, .7, "constant")
            for i, j in itertools.product(range(n), repeat=2):
                t.close(r.one_body_tensor[i, j], one[order[i], order[j]], "one-body")
            for i, j, k, l in itertools.product(range(n), repeat=4):
                t.close(r.two_body_tensor[i, j, k, l], two[order[i], order[j], order[k], order[l]], "two-body")
            r.one_body_tensor[:] = 0
            r.two_body_tensor[:] = 0
            t.close(op.one_body_tensor, one, "input unchanged")
            t.close(op.two_body_tensor, two, "input unchanged")
