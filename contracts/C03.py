"""C03: dagger and control wrappers compose to the right unitary at any nesting.

Structural induction over gate expressions: the wrapped gate is an arbitrary value satisfying the
interface contract of Gate (contracts/gates.py); ControlledGate, Dagger and MatrixFactoryGate are
verified to satisfy the same contract again.
"""
from pyvc.contract import Property
from .spec import *
from . import gates as G

P = Property("C03", trusted=["matrix lemmas of contracts/gates.py (block-diagonal and adjoint identities)"])
GM = C + "circuits._gates:"


def ctl(v, g, k):
    return v.call(GM + "ControlledGate", g, k)


def num(v, o):
    return v.attr(o, "num_qubits")


def same_mat(v, o, term, why):
    m = v.attr(o, "matrix")
    v.prove(v.it.embed(m) == term, why)


def same_params(v, o, g, why):
    v.prove(v.it.embed(v.attr(o, "params")) == G.PARAMS(g.term), why)


@P.obligation("ControlledGate: matrix, qubits, params of k controls around any gate", targets=[GM + "ControlledGate.matrix", GM + "ControlledGate.num_qubits",
              GM + "ControlledGate.params"])
def _(v):
    G.setup(v)
    g, k = G.gate(v), v.int("k", 1)
    c_ = ctl(v, g, k)
    same_mat(v, c_, G.ctrl_spec(G.MAT(g.term), G.NQ(g.term), k), "identity block for every control pattern but all ones, then the gate's matrix")
    v.prove(num(v, c_) == G.NQ(g.term) + k, "number of qubits")
    same_params(v, c_, g, "parameters of the wrapped gate")


@P.obligation("ControlledGate rejects non-positive control counts", targets=[GM + "ControlledGate.__post_init__"])
def _(v):
    G.setup(v)
    g, k = G.gate(v), v.int("k", None, 0)
    v.raises(ValueError, lambda: ctl(v, g, k), "k <= 0 is rejected")


@P.obligation("ControlledGate.controlled adds controls", targets=[GM + "ControlledGate.controlled"])
def _(v):
    G.setup(v)
    g, k, j = G.gate(v), v.int("k", 1), v.int("j", 1)
    c_ = ctl(v, g, k)
    cc = v.method(c_, "controlled", j)
    w = G.NQ(g.term)
    same_mat(v, cc, G.ctrl_spec(G.ctrl_spec(G.MAT(g.term), w, k), w + k, j), "controlled matrix of the controlled matrix")
    v.prove(num(v, cc) == w + k + j, "number of qubits")
    same_params(v, cc, g, "parameters")


@P.obligation("ControlledGate.controlled rejects non-positive counts", targets=[GM + "ControlledGate.controlled"])
def _(v):
    G.setup(v)
    g, k, j = G.gate(v), v.int("k", 1), v.int("j", None, 0)
    c_ = ctl(v, g, k)
    v.raises(ValueError, lambda: v.method(c_, "controlled", j), "j <= 0 is rejected")


@P.obligation("ControlledGate.dagger has the adjoint matrix", targets=[GM + "ControlledGate.dagger"])
def _(v):
    G.setup(v)
    g, k = G.gate(v), v.int("k", 1)
    d = v.attr(ctl(v, g, k), "dagger")
    same_mat(v, d, G.ADJ(G.ctrl_spec(G.MAT(g.term), G.NQ(g.term), k)), "adjoint of the controlled matrix")
    v.prove(num(v, d) == G.NQ(g.term) + k, "number of qubits")
    same_params(v, d, g, "parameters")


@P.obligation("Dagger: adjoint matrix, same qubits and params", targets=[GM + "Dagger.matrix", GM + "Dagger.num_qubits", GM + "Dagger.params"])
def _(v):
    G.setup(v)
    g = G.gate(v)
    d = v.call(GM + "Dagger", g)
    same_mat(v, d, G.ADJ(G.MAT(g.term)), "adjoint matrix")
    v.prove(num(v, d) == G.NQ(g.term), "number of qubits")
    same_params(v, d, g, "parameters")


@P.obligation("Dagger.dagger is the original gate's operator", targets=[GM + "Dagger.dagger"])
def _(v):
    G.setup(v)
    g = G.gate(v)
    dd = v.attr(v.call(GM + "Dagger", g), "dagger")
    same_mat(v, dd, G.MAT(g.term), "dagger of dagger")
    v.prove(num(v, dd) == G.NQ(g.term), "number of qubits")
    same_params(v, dd, g, "parameters")


@P.obligation("Dagger.controlled is the controlled adjoint", targets=[GM + "Dagger.controlled"])
def _(v):
    G.setup(v)
    g, k = G.gate(v), v.int("k", 1)
    d = v.method(v.call(GM + "Dagger", g), "controlled", k)
    same_mat(v, d, G.ctrl_spec(G.ADJ(G.MAT(g.term)), G.NQ(g.term), k), "controlled adjoint")
    v.prove(num(v, d) == G.NQ(g.term) + k, "number of qubits")
    same_params(v, d, g, "parameters")


@P.obligation("Dagger.controlled rejects non-positive counts", targets=[GM + "Dagger.controlled"])
def _(v):
    G.setup(v)
    g, k = G.gate(v), v.int("k", None, 0)
    v.raises(ValueError, lambda: v.method(v.call(GM + "Dagger", g), "controlled", k), "k <= 0 is rejected")


def factory_gate(v, hermitian, n=1):
    """MatrixFactoryGate over an arbitrary matrix factory"""
    m = v.opaque("m", G.MATIF())
    f = v.opaque("factory", Iface("factory", call=lambda it, s, a, k: m))
    p = v.opaque("p0")
    w = v.int("w", 1)
    g = v.call(GM + "MatrixFactoryGate", "name", f, (p,), w, is_hermitian=hermitian)
    return g, m, p, w


@P.obligation("MatrixFactoryGate.controlled and .dagger satisfy the gate contract", targets=[GM + "MatrixFactoryGate.controlled", GM + "MatrixFactoryGate.dagger"])
def _(v):
    G.setup(v)
    for herm in (False, True):
        g, m, p, w = factory_gate(v, herm)
        if herm:
            v.assume(G.ADJ(m.term) == m.term)       # class invariant, established for the built-in gates by C02
        k = v.int("k", 1)
        c_ = v.method(g, "controlled", k)
        same_mat(v, c_, G.ctrl_spec(m.term, w, k), f"controlled matrix (self-inverse: {herm})")
        v.prove(num(v, c_) == w + k, "number of qubits")
        v.same(v.attr(c_, "params"), (p,), "parameters")
        d = v.attr(g, "dagger")
        same_mat(v, d, G.ADJ(m.term), f"dagger matrix (self-inverse: {herm})")
        v.prove(num(v, d) == w, "number of qubits")
        v.same(v.attr(d, "params"), (p,), "parameters")
        dd = v.attr(d, "dagger")
        same_mat(v, dd, m.term, "dagger of dagger")
        cd, dc = v.attr(c_, "dagger"), v.method(d, "controlled", k)
        v.prove(v.it.embed(v.attr(cd, "matrix")) == v.it.embed(v.attr(dc, "matrix")), "dagger and control commute")
        j = v.int("j", None, 0)
        v.raises(ValueError, lambda: v.method(g, "controlled", j), "non-positive control count is rejected")


@P.obligation("calling a gate applies it to the given qubits in order", targets=[GM + "Gate.__call__", GM + "GateOperation"])
def _(v):
    G.setup(v)
    g = G.gate(v)
    q = [v.int(f"q{i}", 0) for i in range(3)]
    for o in (v.call(GM + "Dagger", g), ctl(v, g, 2)):
        op = v.call(o, *q)
        v.same(v.attr(op, "qubit_indices"), tuple(q), "qubit indices")
        v.same(v.attr(op, "gate"), o, "the gate itself")


# the lemmas, for concrete sizes, by ring normal form
for _w in (1, 2):
    for _k in (1, 2):
        @P.obligation(f"concrete sizes: wrapped {_w}-qubit matrix, {_k} controls, nested wrappers", targets=[GM + "ControlledGate.matrix", GM + "Dagger.matrix"],
                      bound=f"{_w}-qubit gate, {_k} controls, all matrices")
        def _(v, _w=_w, _k=_k):
            m = poly_matrix("m", 2 ** _w)
            arr = to_arr(v, m)
            g = v.call(GM + "MatrixFactoryGate", "name", Builtin("factory", lambda it, a, k: arr), (), _w)
            cm = diag(eye(2 ** (_w + _k) - 2 ** _w), m)
            c_ = v.method(g, "controlled", _k)
            v.mat_eq(v.attr(c_, "matrix"), cm, "controlled matrix")
            v.mat_eq(v.attr(v.attr(c_, "dagger"), "matrix"), adj(cm), "dagger of controlled")
            v.mat_eq(v.attr(v.method(v.attr(g, "dagger"), "controlled", _k), "matrix"), adj(cm), "controlled dagger")
            v.mat_eq(v.attr(v.attr(v.attr(c_, "dagger"), "dagger"), "matrix"), cm, "dagger of dagger")
            cc = v.method(c_, "controlled", 1)
            v.mat_eq(v.attr(cc, "matrix"), diag(eye(len(cm)), cm), "one more control")
