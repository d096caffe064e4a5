"""C01: a gate applied to given qubits acts on exactly those qubits, in that order."""
from itertools import permutations
from pyvc.contract import Property
from .spec import *

P = Property("C01", trusted=["numpy/sympy zeros, eye, kron, transpose, @ denote the linear-algebra operations (concrete shapes)"])
OP = C + "circuits._gates:GateOperation"
U_ = C + "circuits._unitary_tools:"


def lifted(m, qs, n):
    """index definition: qubit 0 is the most significant bit of a basis index"""
    k = len(qs)
    out = []
    for i in range(2 ** n):
        bi = [(i >> (n - 1 - q)) & 1 for q in range(n)]
        row = []
        for j in range(2 ** n):
            bj = [(j >> (n - 1 - q)) & 1 for q in range(n)]
            if any(bi[q] != bj[q] for q in range(n) if q not in qs):
                row.append(ZERO)
            else:
                r = sum(bi[q] << (k - 1 - a) for a, q in enumerate(qs))
                s = sum(bj[q] << (k - 1 - a) for a, q in enumerate(qs))
                row.append(m[r][s])
        out.append(row)
    return out


def gate(v, m, symbolic):
    """opaque gate: interface contract of Gate (matrix, free_symbols, num_qubits)"""
    arr = to_arr(v, m)
    sym = v.opaque("sym")
    ifc = Iface("Gate", attrs={"matrix": lambda it, t: arr,
                               "free_symbols": lambda it, t: it.new_list([sym] if symbolic else []),
                               "num_qubits": lambda it, t: len(m).bit_length() - 1})
    return v.opaque("gate", ifc)


def make(n, k, symbolic):
    kind = "symbolic" if symbolic else "numeric"

    @P.obligation(f"lifted {kind} {k}-qubit matrix on every ordered choice of qubits, n={n}",
                  targets=[OP + ".lifted_matrix", U_ + "_lift_matrix", U_ + "_permutation_matrix",
                           U_ + "_permutation_making_qubits_adjacent", U_ + "_lift_matrix_sympy" if symbolic else U_ + "_lift_matrix_numpy"],
                  budget=200, bound=f"n={n}, k={k}; all matrices, all injective qubit tuples")
    def ob(v):
        m = poly_matrix("m", 2 ** k)
        for qs in permutations(range(n), k):
            op = v.call(OP, gate(v, m, symbolic), tuple(qs))
            v.mat_eq(v.method(op, "lifted_matrix", n), lifted(m, qs, n), f"lifted matrix on qubits {qs} of {n}")


def make_apply(n, k, symbolic):
    kind = "symbolic" if symbolic else "numeric"

    @P.obligation(f"apply of a {kind} {k}-qubit gate to an arbitrary {n}-qubit vector",
                  targets=[OP + ".apply", OP + ".lifted_matrix"], budget=200,
                  bound=f"n={n}, k={k}; all matrices, vectors and injective qubit tuples")
    def ob(v):
        m = poly_matrix("m", 2 ** k)
        for qs in permutations(range(n), k):
            vec = [Poly.gen(f"z:a{i}") for i in range(2 ** n)]
            arr = v.it.new_arr(vec, (2 ** n,))
            op = v.call(OP, gate(v, m, symbolic), tuple(qs))
            r = v.method(op, "apply", arr)
            want = mm(lifted(m, qs, n), [[x] for x in vec])
            v.prove(v._entries(r)[0] == (2 ** n,), "the result is a vector of the same length")
            v.mat_eq([[x] for x in v.it.arr_vals(r)], want, f"apply on qubits {qs} of {n}")
            v.mat_eq([[x] for x in v.it.arr_vals(arr)], [[x] for x in vec], "the input vector is not modified")


for _sym in (False, True):
    for _n in (1, 2, 3, 4, 5, 6):
        for _k in (1, 2, 3):
            if _k <= _n and not (_n == 6 and _k == 3):
                make(_n, _k, _sym)
    for _n, _k in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2)):
        make_apply(_n, _k, _sym)


@P.obligation("apply rejects vectors whose length is not a power of two", targets=[OP + ".apply"],
              bound="lengths 3, 5, 6, 7, 12")
def _(v):
    m = poly_matrix("m", 2)
    for ln in (3, 5, 6, 7, 12):
        arr = v.it.new_arr([Poly.gen(f"z:a{i}") for i in range(ln)], (ln,))
        op = v.call(OP, gate(v, m, False), (0,))
        v.raises(ValueError, lambda: v.method(op, "apply", arr), f"length {ln} is rejected")
