"""C02: built-in gates implement their documented unitary."""
from pyvc.contract import Property
from .spec import *

P = Property("C02", trusted=["sympy.Matrix / sympy.cos / sympy.sin / sympy.exp / sympy.simplify denote the mathematical functions",
                             "machine floats read as the exact numbers they stand for (1/sqrt 2, pi)"])
B = C + "circuits._builtin_gates:"


def make(name, npar, spec):
    @P.obligation(f"{name}: documented matrix, unitary, size, self-inverse flag", targets=[B + name, C + "circuits._gates:MatrixFactoryGate.matrix",
                  C + "circuits._gates:MatrixFactoryGate.dagger"])
    def ob(v):
        ts = [v.gen(f"t{i}") for i in range(npar)]
        ref = v.fn(B + name)
        g = v.call(ref, *ts) if npar else ref
        m = v.attr(g, "matrix")
        want = spec(*ts)
        v.mat_eq(m, want, f"{name}.matrix equals its definition for every parameter value")
        r = rows(v, m)
        n = len(want)
        v.mat_eq(mm(r, adj(r)), eye(n), f"{name} is unitary for every parameter value")
        v.same(v.attr(g, "num_qubits"), n.bit_length() - 1, f"{name}.num_qubits matches the matrix size")
        v.same(v.attr(g, "name"), name, f"{name} carries its own name")
        v.same(v.attr(g, "params"), tuple(ts), f"{name}.params are the given parameters")
        h = v.attr(g, "is_hermitian")
        d = v.attr(g, "dagger")
        if h is True:
            v.mat_eq(adj(r), r, f"{name} declared self-inverse is Hermitian")
        v.mat_eq(v.attr(d, "matrix"), adj(want), f"matrix of {name}.dagger is the adjoint")
        by_name = v.call(B + "builtin_gate_by_name", name)
        g2 = v.call(by_name, *ts) if npar else by_name
        v.mat_eq(v.attr(g2, "matrix"), want, f"builtin_gate_by_name({name!r}) denotes the same gate")
    return ob


for _n, (_k, _s) in gate_table().items():
    make(_n, _k, _s)
