"""C19: operators as matrices, conversions between representations, saved files.

Oracle: qubit 0 is the most significant bit.  Entries of Pauli strings come from the Pauli table bit by bit; ladder
products act on occupation numbers with the sign of the modes below; scipy.sparse is modelled entry by entry, in storage
order (pyvc/sparse.py, compared with scipy by tools/sparse_check.py)."""
from itertools import combinations, permutations, product as cart
from pyvc.contract import Property
from pyvc import sparse as SPM
from .spec import *
from .C16 import CLS, SO, TERM, Alg, number, parts, plus, small, times, tterm
from .C17 import OPS, OU, TR, entry, ranked, same_number, snapshot, tensor, zint
from .C18 import CV, PT, RC, TP, ONE2, ZERO2, flat, num, sizable, tensors, turn

P = Property("C19", trusted=["scipy.sparse behaves as modelled (compared on random programs); a file holds what was written to it"])
SP = C + "openfermion.linalg.sparse_tools:"
ZU = C + "openfermion.zapata_utils._utils:"
IO = C + "openfermion.zapata_utils._io:"
PAULI = {"I": ((1, 0), (0, 1)), "X": ((0, 1), (1, 0)), "Y": ((0, -1j), (1j, 0)), "Z": ((1, 0), (0, -1))}


def cnum(z):
    z = complex(z)
    return num(Fraction(z.real), Fraction(z.imag))


def is_opaque(x, name):
    return isinstance(x, SU) and str(x.term).startswith(name)


def bit(i, q, n):
    return i >> (n - 1 - q) & 1


def pauli_matrix(word, n):
    """{(row, column): complex} of a Pauli string"""
    d = dict(word)
    out = {}
    for i, j in cart(range(2 ** n), repeat=2):
        x = 1
        for q in range(n):
            x *= PAULI[d.get(q, "I")][bit(i, q, n)][bit(j, q, n)]
        if x:
            out[i, j] = x
    return out


def ladder_matrix(word, n):
    out = {}
    for j in range(2 ** n):
        i, sign = j, 1
        for m, d in reversed(word):
            if bit(i, m, n) == d:
                sign = 0
                break
            sign *= (-1) ** sum(bit(i, q, n) for q in range(m))
            i ^= 1 << (n - 1 - m)
        if sign:
            out[i, j] = sign
    return out


def combine(terms, matrix, n):
    """entries of the sum of coefficient * word"""
    out = {}
    for w, x in terms:
        for ij, y in matrix(w, n).items():
            z = times(x, cnum(y))
            out[ij] = plus(out[ij], z) if ij in out else z
    return out


def is_matrix(v, m, want, n, why):
    if not isinstance(m, SPM.VSp):
        raise Unsupported("not a sparse matrix of the model")
    v.prove(SPM.get(v.it, m).shape == (2 ** n, 2 ** n), why + ": shape")
    got = SPM.dense(v.it, m)
    for ij in sorted(set(got) | set(want)):
        same_number(v, parts(v.it, got.get(ij, 0)), want.get(ij, ZERO2), f"{why}: entry {ij}")


def operator(v, kind, items):
    return v.it.new_obj(v.fn(CLS[kind]), {"terms": v.it.new_dict(list(items))})


def strings(n):
    return [tuple((q, p) for q, p in enumerate(s) if p != "I") for s in cart("IXYZ", repeat=n)]


# ------------------------------------------------------------------ sparse matrices
for _n, _k in ((1, 1), (2, 1), (3, 4)):
    for _i in range(_k):
        def _mk(n, i, k):
            @P.obligation(f"matrix of a Pauli string on {n} qubits{f' (part {i + 1} of {k})' if k > 1 else ''}: every entry, qubit 0 most significant", targets=[SP + x for x in ("get_sparse_operator", "qubit_operator_sparse", "kronecker_operators", "wrapped_kronecker")], bound=f"strings on {n} qubits, any coefficient", budget=200)
            def _(v):
                small(v)
                todo = strings(n)[i::k]
                w = todo[v.choose(range(len(todo)), "string")]
                c_ = number(v, "c", True)
                o = operator(v, "qubit", [(w, c_)])
                m = max([q for q, _ in w], default=-1) + 1
                explicit = m == 0 or v.choose((0, 1), "explicit size")
                r = v.call(SP + "get_sparse_operator", o, *([n] if explicit else []))
                size = n if explicit else m
                is_matrix(v, r, combine([(w, parts(v.it, c_))], pauli_matrix, size), size, f"matrix of {w}")
                if m > 1:
                    v.raises(ValueError, lambda: v.call(SP + "get_sparse_operator", o, m - 1), "too few qubits")
        _mk(_n, _i, _k)


@P.obligation("matrix of a sum of Pauli strings is the sum of their matrices; the empty sum is zero", targets=[SP + "qubit_operator_sparse"], bound="up to 3 strings on 2 qubits, any coefficients", budget=100)
def _(v):
    small(v)
    words = [(), ((0, "X"),), ((1, "Y"),), ((0, "X"), (1, "Y")), ((0, "Z"), (1, "Z")), ((0, "Y"), (1, "X")), ((0, "Z"),)]
    k = v.choose((0, 2, 3), "terms")
    ws = v.choose(list(combinations(words, k))[:: 2 if k == 3 else 1], "strings") if k else ()
    items = [(w, number(v, f"c{i}", True)) for i, w in enumerate(ws)]
    r = v.call(SP + "get_sparse_operator", operator(v, "qubit", items), 2)
    is_matrix(v, r, combine([(w, parts(v.it, x)) for w, x in items], pauli_matrix, 2), 2, "matrix")


for _n in (1, 2, 3):
    for _k in (0, 1, 2):
        def _mk(n, k):
            @P.obligation(f"matrix of a product of {k} ladder operators on {n} modes: every entry, signs of the modes below", targets=[SP + x for x in ("get_sparse_operator", "jordan_wigner_sparse", "jordan_wigner_ladder_sparse")], bound=f"{k} factors on {n} modes, any coefficient", budget=200)
            def _(v):
                small(v)
                words = list(cart(cart(range(n), (0, 1)), repeat=k))
                w = words[v.choose(range(len(words)), "word")]
                c_ = number(v, "c", True)
                o = operator(v, "fermion", [(w, c_)])
                m = max([q for q, _ in w], default=-1) + 1
                explicit = m == 0 or v.choose((0, 1), "explicit size")
                r = v.call(SP + "get_sparse_operator", o, *([n] if explicit else []))
                size = n if explicit else m
                is_matrix(v, r, combine([(w, parts(v.it, c_))], ladder_matrix, size), size, f"matrix of {w}")
        _mk(_n, _k)


@P.obligation("matrix of a sum of ladder products is the sum of their matrices", targets=[SP + "jordan_wigner_sparse"], bound="0, 2 or 3 words of up to 4 factors on 2 modes, any coefficients", budget=100)
def _(v):
    small(v)
    words = [(), ((0, 1), (0, 0)), ((1, 1), (1, 0)), ((1, 1), (0, 0)), ((0, 1), (1, 1), (1, 0), (0, 0)), ((0, 0), (1, 0)), ((1, 1),)]
    k = v.choose((0, 2, 3), "terms")
    ws = v.choose(list(combinations(words, k))[:: 2 if k == 3 else 1], "words") if k else ()
    items = [(w, number(v, f"c{i}", True)) for i, w in enumerate(ws)]
    r = v.call(SP + "get_sparse_operator", operator(v, "fermion", items), 2)
    is_matrix(v, r, combine([(w, parts(v.it, x)) for w, x in items], ladder_matrix, 2), 2, "matrix")


@P.obligation("interaction operators become the matrix of their fermion operator on all their modes; other objects are rejected", targets=[SP + "get_sparse_operator"])
def _(v):
    it = v.it
    n = 2
    o = it.call(v.fn(OPS), [number(v, "constant", True), tensor(v, "h", n, 2, True), tensor(v, "g", n, 4, True)], {})
    f = operator(v, "fermion", [])
    given, calls = [], []
    v.contract(CV + "get_fermion_operator", lambda it, a, k: (given.append(a[0]), f)[1])
    M = v.opaque("matrix")
    v.contract(SP + "jordan_wigner_sparse", lambda it, a, k: (calls.append(dict(zip(["fermion_operator", "n_qubits"], a), **k)), M)[1])
    size = v.choose((None, 2, 3), "size")
    r = v.call(SP + "get_sparse_operator", o, *([] if size is None else [size]))
    v.same(r, M, "the matrix")
    v.prove(len(given) == 1 and given[0] is o or given[0].ref == o.ref, "of the fermion operator of the argument")
    v.prove(len(calls) == 1 and calls[0]["fermion_operator"].ref == f.ref and calls[0].get("n_qubits") == (size or n), "on all its modes")
    for bad in ("X0", 3, None, v.list([])):
        v.raises(TypeError, lambda: v.call(SP + "get_sparse_operator", bad), "not an operator")


@P.obligation("basis states of given occupied modes; Hartree-Fock states; indices of particle number sectors", targets=[SP + "jw_configuration_state", SP + "jw_hartree_fock_state", SP + "jw_number_indices", SP + "jw_number_restrict_operator"], bound="up to 4 modes")
def _(v):
    it = v.it
    n = v.choose((1, 2, 3, 4), "modes")
    for k in range(n + 1):
        occ = v.choose(list(combinations(range(n), k)), f"occupied {k}")
        for r, o in ((v.call(SP + "jw_configuration_state", v.list(list(occ)), n), occ), (v.call(SP + "jw_hartree_fock_state", k, n), tuple(range(k)))):
            x = it.as_seq(r).concrete()
            v.prove(len(x) == 2 ** n, "length")
            for i in range(2 ** n):
                v.prove(to_z3_real(x[i]) == (1 if all(bit(i, q, n) == (q in o) for q in range(n)) else 0), "amplitudes")
        idx = it.as_seq(v.call(SP + "jw_number_indices", k, n)).concrete()
        v.prove(sorted(idx) == [i for i in range(2 ** n) if bin(i).count("1") == k], "sector")
        if n <= 2:
            vals = [v.real(f"m{i}") for i in range(4 ** n)]
            a = it.new_arr(vals, (2 ** n, 2 ** n))
            for args in ((a, k, n), (a, k)):
                r = v.call(SP + "jw_number_restrict_operator", *args)
                v.prove(r.shape == (len(idx), len(idx)), "shape of the block")
                for p, q in cart(range(len(idx)), repeat=2):
                    v.prove(to_z3_real(it.getitem(r, (p, q))) == vals[idx[p] * 2 ** n + idx[q]], "block of the operator")


@P.obligation("expectation values: conjugate(v) M v for row and column vectors, trace(rho M) for density matrices", targets=[SP + "expectation", SP + "inner_product", SP + "get_density_matrix"], bound="dimension 2 and 4, any complex entries")
def _(v):
    it = v.it
    d = v.choose((2, 4), "dimension")
    z = [[Poly.gen(f"z:m{i}{j}") for j in range(d)] for i in range(d)]
    op = SPM.new(it, "csc", (d, d), [(i, j, z[i][j]) for j in range(d) for i in range(d)], True)
    a = [Poly.gen(f"z:a{i}") for i in range(d)]
    b = [Poly.gen(f"z:b{i}") for i in range(d)]
    val = lambda x: sum((x[i].conj() * z[i][j] * x[j] for i in range(d) for j in range(d)), ZERO)
    v.poly_eq(v.call(SP + "expectation", op, it.new_arr(a, (d,))), val(a), "row vector")
    v.poly_eq(v.call(SP + "expectation", op, it.new_arr(a, (d, 1))), val(a), "column vector")
    v.poly_eq(v.call(SP + "inner_product", it.new_arr(a, (d,)), it.new_arr(b, (d,))), sum((x.conj() * y for x, y in zip(a, b)), ZERO), "inner product")
    v.raises(ValueError, lambda: v.call(SP + "expectation", op, "state"), "another state")


@P.obligation("density matrices of mixtures and expectation values in them", targets=[SP + "expectation", SP + "get_density_matrix"], bound="two states of dimension 2, any complex amplitudes and real weights")
def _(v):
    it = v.it
    small(v)
    d = 2
    st = [[number(v, f"s{k}{i}", True) for i in range(d)] for k in range(2)]
    w = [v.real("w0"), v.real("w1")]
    r = v.call(SP + "get_density_matrix", v.list([it.new_arr(s, (d,)) for s in st]), v.list(w))
    if not isinstance(r, SPM.VSp):
        raise Unsupported("not a sparse matrix of the model")
    got = SPM.dense(it, r)
    rho = {}
    for i, j in cart(range(d), repeat=2):
        x = ZERO2
        for k in range(2):
            p, q = parts(it, st[k][i]), parts(it, st[k][j])
            x = plus(x, times((w[k], z3.RealVal(0)), times(p, (q[0], -q[1]))))
        rho[i, j] = x
        same_number(v, parts(it, got.get((i, j), 0)), x, f"entry {i}, {j}")


@P.obligation("expectation value in a density matrix", targets=[SP + "expectation"], bound="dimension 2, any entries")
def _(v):
    it = v.it
    small(v)
    d = 2
    m, rho = ([[number(v, f"{x}{i}{j}", True) for j in range(d)] for i in range(d)] for x in "mr")
    a, b = (SPM.new(it, "csc", (d, d), [(i, j, z[i][j]) for j in range(d) for i in range(d)], True) for z in (m, rho))
    want = ZERO2
    for i, j in cart(range(d), repeat=2):
        want = plus(want, times(parts(it, rho[i][j]), parts(it, m[j][i])))
    same_number(v, parts(it, v.call(SP + "expectation", a, b)), want, "trace")


# ------------------------------------------------------------------ matrices to Pauli terms
for _n in (1, 2):
    def _mk(n):
        @P.obligation(f"Pauli expansion of a {2 ** n} x {2 ** n} matrix denotes the matrix", targets=[ZU + "get_qubitop_from_matrix"], bound=f"{n} qubits, any complex entries", budget=200)
        def _(v):
            it = v.it
            small(v)
            d = 2 ** n
            m = [[number(v, f"m{i}_{j}", True) for j in range(d)] for i in range(d)]
            got = []
            res = v.opaque("operator")

            def make(it, a, k):
                got.append(dict(zip(["coeffs", "labels"], a), **k))
                return res
            v.contract(ZU + "get_qubitop_from_coeffs_and_labels", make)
            r = v.call(ZU + "get_qubitop_from_matrix", v.list([v.list(x) for x in m]) if v.choose((0, 1), "array") == 0 else it.new_arr([x for y in m for x in y], (d, d)))
            v.same(r, res, "operator of the coefficients and labels")
            cs, ls = (it.as_seq(got[0][x]).concrete() for x in ("coeffs", "labels"))
            labels = [tuple(it.as_seq(l).concrete()) for l in ls]
            v.prove(len(cs) == len(ls) and all(len(l) == n and all(x in (0, 1, 2, 3) for x in l) for l in labels), "labels")
            out = combine([(tuple((q, "IXYZ"[int(x)]) for q, x in enumerate(l) if x), parts(it, c_)) for l, c_ in zip(labels, cs)], pauli_matrix, n)
            for i, j in cart(range(d), repeat=2):
                same_number(v, out.get((i, j), ZERO2), parts(it, m[i][j]), f"entry {i}, {j}")
    _mk(_n)


@P.obligation("matrices that are not square of dimension 2^n are rejected", targets=[ZU + "get_qubitop_from_matrix"])
def _(v):
    n, m = v.choose(((2, 3), (3, 3), (3, 2), (6, 6), (1, 2), (5, 5), (4, 2)), "shape")
    a = v.list([v.list([v.real(f"m{i}_{j}") for j in range(m)]) for i in range(n)])
    try:
        v.call(ZU + "get_qubitop_from_matrix", a)
    except PyExc:
        v.prove(True, "rejected")
        return
    v.prove(False, "rejected")


@P.obligation("operator of coefficients and labels: 1, 2, 3 at position i are X, Y, Z on qubit i", targets=[ZU + "get_qubitop_from_coeffs_and_labels"], bound="up to 3 rows of up to 3 labels, any coefficients that are not negligible", budget=100)
def _(v):
    it = v.it
    small(v)
    n = v.choose((1, 2, 3), "qubits")
    k = v.choose((0, 1, 2), "rows")
    rows = [v.choose(list(cart(range(4), repeat=n)) if k == 1 else [tuple(range(1, n + 1)), (0,) * n, (3,) + (0,) * (n - 1), (2,) * n], f"row{i}") for i in range(k)]
    cs = [number(v, f"c{i}", k == 1) for i in range(k)]
    sizable(v, *cs)
    for x in cs:
        v.assume(z3.Or(x.re != 0, x.im != 0) if isinstance(x, SC) else x > 0)
    r = v.call(ZU + "get_qubitop_from_coeffs_and_labels", v.list(cs), v.list([v.list(list(l)) for l in rows]))
    v.prove(isinstance(r, VObj) and r.cls is v.fn(CLS["qubit"]), "a qubit operator")
    want = {}
    for l, x in zip(rows, cs):
        w = tuple((q, "IXYZ"[p]) for q, p in enumerate(l) if p)
        want[w] = plus(want.get(w, ZERO2), parts(it, x))
    got = {tuple(it.as_seq(t).concrete()): parts(it, x) for t, x in it.heap[it.getattr(r, "terms").ref]}
    for w in sorted(set(got) | set(want)):
        same_number(v, got.get(w, ZERO2), want.get(w, ZERO2), f"coefficient of {w}")


# ------------------------------------------------------------------ reversing, retyping, circuits, values
for _k in (0, 1, 2, 3):
    def _mk(k):
        @P.obligation(f"reversing qubit order of a term with {k} factors: qubit q becomes n-1-q, in order; too few qubits are rejected; twice is the identity", targets=[ZU + "reverse_qubit_order"], bound=f"{k} factors on any qubits of any number", budget=100)
        def _(v):
            it = v.it
            small(v)
            q = [v.int(f"q{i}", 0) for i in range(k)]
            v.assume(z3.And(*[a < b for a, b in zip(q, q[1:])]) if k > 1 else True)
            p = [v.choose("XYZ" if k < 3 else "XZ", f"pauli{i}") for i in range(k)]
            c_ = number(v, "c", True)
            sizable(v, c_)
            v.assume(z3.Or(c_.re != 0, c_.im != 0))
            word = tuple(zip(q, p))
            o = operator(v, "qubit", [(word, c_)])
            least = q[-1] + 1 if k else z3.IntVal(0)
            n = v.int("n", 0) if v.choose((0, 1), "explicit") else None
            if n is not None and it.decide(n < least):
                v.raises(ValueError, lambda: v.call(ZU + "reverse_qubit_order", o, n), "too few qubits")
                return
            size = least if n is None else n
            r = v.call(ZU + "reverse_qubit_order", o, *([] if n is None else [n]))

            def check(r, want, why):
                v.prove(isinstance(r, VObj) and r.cls is v.fn(CLS["qubit"]) and r.ref != o.ref, why + ": a new qubit operator")
                items = list(it.heap[it.getattr(r, "terms").ref])
                v.prove(len(items) == 1, why + ": one term")
                v.same(it.as_seq(items[0][0]), Seq.of(want), why)
                same_number(v, parts(it, items[0][1]), parts(it, c_), why + ": coefficient")
            check(r, [(size - 1 - x, y) for x, y in reversed(word)], "reversed term")
            check(v.call(ZU + "reverse_qubit_order", r, size), list(word), "reversed twice")
            v.same(Seq.of([t for t, _ in it.heap[it.getattr(o, "terms").ref]]), Seq.of([word]), "operand unchanged")
    _mk(_k)


def names(a, k, *ns):
    return dict(zip(ns, a), **k)


@P.obligation("reversing a sum reverses every term", targets=[ZU + "reverse_qubit_order"], bound="3 terms of one factor on any qubits", budget=100)
def _(v):
    it = v.it
    small(v)
    q = [v.int(f"q{i}", 0) for i in range(3)]
    p = ["X", "Y", v.choose("XZ")]
    v.assume(q[0] != q[2])
    cs = [number(v, f"c{i}", False) for i in range(3)]
    sizable(v, *cs)
    v.assume(z3.And(*[x != 0 for x in cs]))
    o = operator(v, "qubit", [(((a, b),), c_) for a, b, c_ in zip(q, p, cs)])
    n = v.int("n", 0)
    v.assume(z3.And(*[n > x for x in q]))
    r = v.call(ZU + "reverse_qubit_order", o, n)
    items = list(it.heap[it.getattr(r, "terms").ref])
    v.prove(len(items) == 3, "terms")
    for a, b, c_ in zip(q, p, cs):
        mine = [x for t, x in items if it.as_seq(t).concrete()[0][1] == b and it.valid(it.as_seq(t).concrete()[0][0] == n - 1 - a)]
        v.prove(len(mine) == 1, "the term on the mirrored qubit")
        same_number(v, parts(it, mine[0]), (c_, z3.RealVal(0)), "its coefficient")


for _a, _b in (("ising", "qubit"), ("qubit", "ising"), ("qubit", "qubit"), ("fermion", "fermion")):
    def _mk(a, b):
        @P.obligation(f"changing an {a} operator to a {b} operator keeps every term and coefficient", targets=[ZU + "change_operator_type"], bound="up to 2 terms of up to 2 factors on any qubits, coefficients that are not negligible", budget=100)
        def _(v):
            it = v.it
            small(v)
            k = v.choose((0, 1, 2), "terms")
            items = []
            for i in range(k):
                l = v.choose((0, 1, 2), f"factors{i}") if k == 1 else i + 1
                q = [v.int(f"q{i}{j}", 0) for j in range(l)]
                acts = [v.choose((1, 0)) if a == "fermion" else "Z" if "ising" in (a, b) else v.choose("XYZ") for _ in range(l)]
                if l == 2 and a != "fermion":
                    v.assume(q[0] < q[1])
                c_ = number(v, f"c{i}", True)
                sizable(v, c_)
                v.assume(z3.Or(c_.re != 0, c_.im != 0))
                items.append((tuple(zip(q, acts)), c_))
            o = operator(v, a, items)
            r = v.call(ZU + "change_operator_type", o, v.fn(CLS[b]))
            v.prove(isinstance(r, VObj) and r.cls is v.fn(CLS[b]) and r.ref != o.ref, "an operator of that type")
            got = list(it.heap[it.getattr(r, "terms").ref])
            v.prove(len(got) == k, "terms")
            for (t, x), (s, y) in zip(got, items):
                v.same(it.as_seq(t), Seq.of(list(s)), "term")
                same_number(v, parts(it, x), parts(it, y), "coefficient")
            v.same(Seq.of([t for t, _ in it.heap[it.getattr(o, "terms").ref]]), Seq.of([t for t, _ in items]), "operand unchanged")
    _mk(_a, _b)


@P.obligation("weighted sums of given expectation values, over an operator and over a list of operators", targets=[ZU + "evaluate_qubit_operator", ZU + "evaluate_qubit_operator_list"], bound="operators of up to 3 terms; any coefficients and values")
def _(v):
    it = v.it
    ks = v.choose(((0,), (1,), (3,), (2, 1), (1, 0, 2)), "terms")
    ops, cs = [], []
    for j, k in enumerate(ks):
        x = [number(v, f"c{j}_{i}", True) for i in range(k)]
        cs += x
        ops.append(operator(v, "qubit", [(((i, "Z"),), y) for i, y in enumerate(x)]))
    e = [v.real(f"e{i}") for i in range(len(cs) + 1)]
    ev = it.new_obj(v.fn(C + "measurement:ExpectationValues"), {"values": it.new_arr(e, (len(e),)), "correlations": None, "estimator_covariances": None})
    want = z3.RealVal(0)
    for x, y in zip(cs, e):
        want = want + x.re * y
    seen = []
    v.contract(C + "utils:ValueEstimate", lambda it, a, k: (seen.append(names(a, k, "value", "precision")), v.opaque(f"estimate{len(seen)}"))[1])
    fs = [(ZU + "evaluate_qubit_operator_list", v.list(ops))] + ([(ZU + "evaluate_qubit_operator", ops[0])] if len(ops) == 1 else [])
    for f, o in fs:
        r = v.call(f, o, ev)
        v.prove(bool(seen) and is_opaque(r, f"estimate{len(seen)}") and seen[-1].get("precision") is None, "an estimate without precision")
        v.prove(to_z3_real(seen[-1]["value"]) == want, "value")


@P.obligation("Pauli circuits of the terms: X, Y, Z of each factor on its qubit, in order", targets=[ZU + "create_circuits_from_qubit_operator"], bound="up to 3 terms of up to 3 factors on any qubits", budget=100)
def _(v):
    it = v.it
    words = []
    for i, p in enumerate(v.choose((("XYZ",), ("", "ZX"), ("Y", "X", "Z"), ()), "Pauli strings")):
        words.append(tuple((v.int(f"q{i}{j}", 0), x) for j, x in enumerate(p)))
    for a, b in combinations(words, 2):
        if len(a) == len(b) == 1:
            pass
    o = operator(v, "qubit", [(w, number(v, f"c{i}", True)) for i, w in enumerate(words)])
    r = it.as_seq(v.call(ZU + "create_circuits_from_qubit_operator", o)).concrete()
    v.prove(r is not None and len(r) == len(words), "one circuit per term")
    for c_, w in zip(r, words):
        ops = it.as_seq(v.attr(c_, "operations")).concrete()
        v.prove(ops is not None and len(ops) == len(w), "one gate per factor")
        for g, (q, p) in zip(ops, w):
            v.prove(v.attr(v.attr(g, "gate"), "name") == p, "the Pauli")
            v.same(it.as_seq(v.attr(g, "qubit_indices")), Seq.of([q]), "on its qubit")


@P.obligation("expectation value of an operator in a wavefunction: reversed first if asked", targets=[ZU + "get_expectation_value"], bound="1 to 3 qubits, any amplitudes")
def _(v):
    it = v.it
    n = v.choose((1, 2, 3), "qubits")
    amp = it.new_arr([SC(v.real(f"a{i}"), v.real(f"b{i}")) for i in range(2 ** n)], (2 ** n,))
    o, rev, M, E = v.opaque("operator"), v.opaque("reversed"), v.opaque("matrix"), v.opaque("value")
    log = []
    v.contract(ZU + "reverse_qubit_order", lambda it, a, k: (log.append(("reverse", names(a, k, "qubit_operator", "n_qubits"))), rev)[1])
    v.contract(SP + "get_sparse_operator", lambda it, a, k: (log.append(("matrix", names(a, k, "operator", "n_qubits"))), M)[1])
    v.contract(SP + "expectation", lambda it, a, k: (log.append(("value", names(a, k, "operator", "state"))), E)[1])
    W = Iface("wavefunction", attrs={"amplitudes": lambda it, s: amp, "n_qubits": lambda it, s: n})
    wf = v.opaque("state", W)
    how = v.choose((None, False, True), "reverse")
    r = v.call(ZU + "get_expectation_value", o, wf, *([] if how is None else [how]))
    v.same(r, E, "the expectation value")
    want = ([("reverse", {"qubit_operator": o, "n_qubits": n})] if how else []) + [("matrix", {"operator": rev if how else o, "n_qubits": n}), ("value", {"operator": M, "state": amp})]
    v.prove([x for x, _ in log] == [x for x, _ in want], "steps")
    for (_, a), (_, b) in zip(log, want):
        for key in b:
            if key == "state":
                if not isinstance(a[key], VArr):
                    raise Unsupported("state")
                v.prove(it.arr_vals(a[key]) == it.arr_vals(amp), "amplitudes")
            else:
                v.same(a.get(key), b[key], key)




# ------------------------------------------------------------------ dictionaries and files
FILES = {"qubit": [IO + x for x in ("convert_qubitop_to_dict", "convert_dict_to_qubitop", "save_qubit_operator", "load_qubit_operator")],
         "ising": [IO + x for x in ("convert_isingop_to_dict", "convert_dict_to_isingop", "save_ising_operator", "load_ising_operator")],
         "interaction": [IO + x for x in ("convert_interaction_op_to_dict", "convert_dict_to_interaction_op", "save_interaction_operator", "load_interaction_operator")],
         "rdm": [IO + x for x in ("convert_interaction_rdm_to_dict", "convert_dict_to_interaction_rdm", "save_interaction_rdm", "load_interaction_rdm")]}


def routes(v, o, fs):
    """what comes back: from the dictionary, from its JSON text, from a file by name and from an open file"""
    conv, back, save, load = fs
    d = v.call(conv, o)
    yield v.call(back, d), "dictionary"
    m = v.it.models
    yield v.call(back, m["json.loads"](v.it, [m["json.dumps"](v.it, [v.call(conv, o)], {})], {})), "JSON text"
    v.call(save, o, "op.json")
    yield v.call(load, "op.json"), "file"
    yield v.call(load, v.it.call(v.it.builtins["open"], ["op.json", "r"], {})), "open file"


def same_operator(v, r, kind, items, why):
    it = v.it
    v.prove(isinstance(r, VObj) and r.cls is v.fn(CLS[kind]), why + ": type")
    got = list(it.heap[it.getattr(r, "terms").ref])
    v.prove(len(got) == len(items), why + ": terms")
    for (t, x), (s, y) in zip(got, items):
        v.same(it.as_seq(t), Seq.of(list(s)), why + ": term")
        same_number(v, parts(it, x), parts(it, y), why + ": coefficient")


def some_terms(v, kind, k, tag=""):
    items = []
    for i in range(k):
        l = v.choose((0, 1, 2), f"factors{tag}{i}") if k == 1 else i
        q = [v.int(f"q{tag}{i}{j}", 0) for j in range(l)]
        acts = ["Z" if kind == "ising" else v.choose("XYZ", f"pauli{tag}{i}{j}") for j in range(l)]
        if l == 2:
            v.assume(q[0] < q[1])
        c_ = number(v, f"c{tag}{i}", v.choose((0, 1), f"complex{tag}{i}") == 1)
        sizable(v, c_)
        v.assume(z3.Or(c_.re != 0, c_.im != 0) if isinstance(c_, SC) else c_ != 0)
        items.append((tuple(zip(q, acts)), c_))
    return items


for _kind in ("qubit", "ising"):
    def _mk(kind):
        @P.obligation(f"{kind} operators survive dictionaries, JSON, files and open files", targets=FILES[kind] + [IO + "convert_dict_to_operator"], bound="up to 2 terms of up to 2 factors on any qubits, any real or complex coefficients that are not negligible", budget=150)
        def _(v):
            it = v.it
            small(v)
            items = some_terms(v, kind, v.choose((0, 1, 2), "terms"))
            o = operator(v, kind, items)
            for r, why in routes(v, o, FILES[kind]):
                same_operator(v, r, kind, items, why)
            same_operator(v, o, kind, items, "the operator itself")
    _mk(_kind)


@P.obligation("lists of qubit operators survive files and open files, in order", targets=[IO + "save_qubit_operator_set", IO + "load_qubit_operator_set"], bound="up to 3 operators of up to 2 terms", budget=100)
def _(v):
    it = v.it
    small(v)
    ks = v.choose(((), (1,), (1, 0), (2, 1, 1)), "operators")
    items = [some_terms(v, "qubit", k, f"{i}_") if len(ks) == 1 else [(((v.int(f"q{i}_{j}", 0), "XYZ"[(i + j) % 3]),) * (j < 2), number(v, f"c{i}_{j}", j == 0)) for j in range(k)] for i, k in enumerate(ks)]
    for x in items:
        for _, c_ in x:
            sizable(v, c_)
            v.assume(z3.Or(c_.re != 0, c_.im != 0) if isinstance(c_, SC) else c_ != 0)
        if len(x) == 2:
            v.assume(x[0][0][0][0] != x[1][0][0][0])
    os_ = [operator(v, "qubit", x) for x in items]
    v.call(IO + "save_qubit_operator_set", v.list(list(os_)), "set.json")
    for src, why in (("set.json", "file"), (it.call(it.builtins["open"], ["set.json", "r"], {}), "open file")):
        rs = it.as_seq(v.call(IO + "load_qubit_operator_set", src)).concrete()
        v.prove(rs is not None and len(rs) == len(ks), why + ": number of operators")
        for r, x in zip(rs, items):
            same_operator(v, r, "qubit", x, why)


@P.obligation("Pauli strings of a qubit operator", targets=[IO + "get_pauli_strings"], bound="up to 3 terms of up to 3 factors on any qubits")
def _(v):
    it = v.it
    words = []
    for i, p in enumerate(v.choose((("XYZ",), ("", "ZX"), ("Y", "X", "Z"), ()), "Pauli strings")):
        words.append(tuple((v.int(f"q{i}{j}", 0), x) for j, x in enumerate(p)))
    o = operator(v, "qubit", [(w, number(v, f"c{i}", True)) for i, w in enumerate(words)])
    r = it.as_seq(v.call(IO + "get_pauli_strings", o)).concrete()
    v.prove(r is not None and len(r) == len(words), "one string per term")
    st = it.builtins["str"]
    for s, w in zip(r, words):
        want = ""
        for q, p in w:
            want = it.binop("+", it.binop("+", want, p), st.fn(it, [q], {}))
        v.same(s, want, "the Pauli string")


for _kind in ("interaction", "rdm"):
    def _mk(kind):
        @P.obligation({"interaction": "interaction operators", "rdm": "reduced density matrices"}[kind] + " survive dictionaries, JSON, files and open files", targets=FILES[kind] + [C + "utils:convert_array_to_dict", C + "utils:convert_dict_to_array"], bound="1 or 2 modes, any real or complex constant and tensors", budget=150)
        def _(v):
            it = v.it
            n = v.choose((1, 2), "modes")
            z = [v.choose((0, 1), f"complex{i}") == 1 for i in range(3)]
            h, g = tensor(v, "h", n, 2, z[0]), tensor(v, "g", n, 4, z[1])
            const = number(v, "constant", z[2])
            hv, gv = list(it.arr_vals(h)), list(it.arr_vals(g))
            cls = v.fn(OPS if kind == "interaction" else C + "openfermion.ops.representations:InteractionRDM")
            o = it.call(cls, [const, h, g] if kind == "interaction" else [h, g], {})
            for r, why in routes(v, o, FILES[kind]):
                v.prove(isinstance(r, VObj) and r.cls is cls, why + ": type")
                for name, vals, rank in (("one_body_tensor", hv, 2), ("two_body_tensor", gv, 4)):
                    a = v.attr(r, name)
                    if not isinstance(a, VArr):
                        raise Unsupported("tensor")
                    v.prove(tuple(a.shape) == (n,) * rank, f"{why}: shape of {name}")
                    for x, y in zip(it.arr_vals(a), vals):
                        same_number(v, parts(it, x), parts(it, y), f"{why}: {name}")
                if kind == "interaction":
                    same_number(v, parts(it, v.attr(r, "constant")), parts(it, const), why + ": constant")
    _mk(_kind)


for _kind in ("qubit", "fermion"):
    def _mk(kind):
        @P.obligation(f"{kind} operators survive save_operator and load_operator; files are not overwritten without permission", targets=[OU + "save_operator", OU + "load_operator", OU + "get_file_path"], bound="binary format; up to 2 terms of up to 2 factors, coefficients that are not negligible", budget=150)
        def _(v):
            it = v.it
            small(v)
            if kind == "qubit":
                items = some_terms(v, kind, v.choose((0, 1, 2), "terms"))
            else:
                items = []
                for i in range(v.choose((0, 1, 2), "terms")):
                    c_ = number(v, f"c{i}", True)
                    sizable(v, c_)
                    v.assume(z3.Or(c_.re != 0, c_.im != 0))
                    items.append((tuple((v.int(f"m{i}{j}", 0), v.choose((1, 0))) for j in range(i + 1)), c_))
            o, other = operator(v, kind, items), operator(v, kind, [((), z3.RealVal(7))])
            d = {} if v.choose((0, 1), "directory") == 0 else {"data_directory": "here"}
            name, again = v.choose((("f", "f.data"), ("f.data", "f"), ("data", "data")), "names")
            v.call(OU + "save_operator", o, name, **d)
            v.raises(v.fn(OU + "OperatorUtilsError"), lambda: v.call(OU + "save_operator", other, again, **d), "no silent overwriting")
            same_operator(v, v.call(OU + "load_operator", again, **d), kind, items, "loaded")
            same_operator(v, o, kind, items, "the operator itself")
            v.call(OU + "save_operator", other, again, allow_overwrite=True, **d)
            same_operator(v, v.call(OU + "load_operator", name, **d), kind, [((), z3.RealVal(7))], "after overwriting")
            v.raises(v.fn(OU + "OperatorUtilsError"), lambda: v.call(OU + "load_operator", None), "no name")
    _mk(_kind)


@P.obligation("objects other than fermion and qubit operators are not saved", targets=[OU + "save_operator"])
def _(v):
    it = v.it
    bad = v.choose((0, 1, 2))
    o = it.call(v.fn(OPS), [z3.RealVal(1), tensor(v, "h", 1, 2, False), tensor(v, "g", 1, 4, False)], {}) if bad == 0 else ["text", 3][bad - 1]
    v.raises(NotImplementedError if bad == 0 else TypeError, lambda: v.call(OU + "save_operator", o, "f"), "rejected")


# ------------------------------------------------------------------ tensors
@P.obligation("reduced density matrices of Hartree-Fock states: determinants of Kronecker deltas over the occupied spin orbitals", targets=[ZU + "hf_rdm"], bound="up to 2 orbitals")
def _(v):
    it = v.it
    n = v.choose((1, 2), "orbitals")
    a, b = v.choose(list(cart(range(n + 1), repeat=2)), "electrons")
    occ = {2 * i for i in range(a)} | {2 * i + 1 for i in range(b)}
    r = v.call(ZU + "hf_rdm", a, b, n)
    one, two = v.attr(r, "one_body_tensor"), v.attr(r, "two_body_tensor")
    if not isinstance(one, VArr) or not isinstance(two, VArr):
        raise Unsupported("tensor")
    v.prove(one.shape == (2 * n,) * 2 and two.shape == (2 * n,) * 4, "shapes")
    for (p, q), x in zip(cart(range(2 * n), repeat=2), it.arr_vals(one)):
        v.prove(it.eq(x, int(p == q and p in occ)), "one-body entries")
    for (p, q, r_, s), x in zip(cart(range(2 * n), repeat=4), it.arr_vals(two)):
        w = ((p == s) * (q == r_) - (p == r_) * (q == s)) if p in occ and q in occ else 0
        v.prove(it.eq(x, int(w)), "two-body entries")


@P.obligation("number operator, shifted by the wanted number of particles", targets=[ZU + "get_fermion_number_operator"], bound="up to 3 modes")
def _(v):
    it = v.it
    n = v.choose((1, 2, 3), "modes")
    shift = None if v.choose((0, 1), "shift") == 0 else v.int("particles", 1)
    r = v.call(ZU + "get_fermion_number_operator", n, *([] if shift is None else [shift]))
    v.prove(isinstance(r, VObj) and r.cls is v.fn(OPS), "an interaction operator")
    same_number(v, parts(it, v.attr(r, "constant")), (z3.RealVal(0) if shift is None else -z3.ToReal(shift), z3.RealVal(0)), "constant")
    one, two = v.attr(r, "one_body_tensor"), v.attr(r, "two_body_tensor")
    if not isinstance(one, VArr) or not isinstance(two, VArr):
        raise Unsupported("tensor")
    v.prove(one.shape == (n,) * 2 and two.shape == (n,) * 4, "shapes")
    for (p, q), x in zip(cart(range(n), repeat=2), it.arr_vals(one)):
        same_number(v, parts(it, x), (z3.RealVal(int(p == q)), z3.RealVal(0)), "one-body entries")
    for x in it.arr_vals(two):
        same_number(v, parts(it, x), ZERO2, "two-body entries")
