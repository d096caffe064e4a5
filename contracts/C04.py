"""C04: binding / replacing parameters is substitution.

sub_symbols is verified per kind of parameter; every container (gate wrappers, operations, circuits of
any length) is verified against its contract.  Gate wrappers: structural induction as in C03.
"""
from pyvc.contract import Property
from .spec import *
from . import gates as G
from .C03 import GM, ctl, factory_gate, same_mat, num

P = Property("C04", trusted=["sympy: Expr.subs(map, simultaneous=True) is simultaneous substitution; free_symbols of an expression",
                             "a matrix factory commutes with substitution in its parameters (matrices of C02 are built from them by arithmetic)",
                             "matrix lemmas of contracts/gates.py (substitution distributes over adjoint and block-diagonal)"])
OM = C + "circuits._operations:"
CM = C + "circuits._circuit:"
WM = C + "circuits._wavefunction_operations:"

SUBS = z3.Function("subs_simultaneous", U, U, U)
GET = z3.Function("map_get", U, U, U, U)
FS = z3.Function("free_symbols_of", U, U)


def subs(it, s, a, k):
    if not (len(a) == 1 and k.get("simultaneous") is True):
        # sequential substitution is a different function
        return SU(z3.Function("subs_sequential", U, U, U)(s.term, it.embed(a[0])), EXPR)
    return SU(SUBS(s.term, it.embed(a[0])), EXPR)


EXPR = Iface("expr", methods={"subs": subs}, classes=("Expr", "Basic"))
SYMB = Iface("symbol", methods={"subs": subs}, classes=("Symbol", "Expr", "Basic"))
NUMB = Iface("number", classes=("Number", "Complex"))
MAPI = Iface("map", methods={"get": lambda it, s, a, k: SU(GET(s.term, it.embed(a[0]), it.embed(a[1] if len(a) > 1 else None)), OPAQUE)})
SUBPAR = z3.Function("substituted", U, U, U)
PAR = Iface("param")


def sub_contract(v):
    """callers of sub_symbols see its contract"""
    def h(it, a, k):
        m = a[1] if len(a) > 1 else k["symbols_map"]
        return SU(SUBPAR(it.embed(a[0]), it.embed(m)), PAR)
    v.contract(OM + "sub_symbols", h)


@P.obligation("substituting in a number returns it unchanged", targets=[OM + "_sub_symbols_in_number", OM + "sub_symbols"])
def _(v):
    p, m = v.opaque("p", NUMB), v.opaque("m", MAPI)
    r = v.call(OM + "sub_symbols", p, m)
    v.prove(v.it.embed(r) == p.term, "numeric parameters are unchanged")


@P.obligation("substituting in a symbol looks it up, keeping it when absent", targets=[OM + "_sub_symbols_in_symbol", OM + "sub_symbols"])
def _(v):
    p, m = v.opaque("p", SYMB), v.opaque("m", MAPI)
    r = v.call(OM + "sub_symbols", p, m)
    v.prove(v.it.embed(r) == GET(m.term, p.term, p.term), "value from the map, default the symbol itself")


@P.obligation("substituting in an expression is simultaneous substitution", targets=[OM + "_sub_symbols_in_expression", OM + "sub_symbols"])
def _(v):
    p, m = v.opaque("p", EXPR), v.opaque("m", MAPI)
    r = v.call(OM + "sub_symbols", p, m)
    v.prove(v.it.embed(r) == SUBS(p.term, m.term), "simultaneous substitution")


def pseq(v, name="params"):
    n = v.int("np_" + name, 0)
    return v.opaque_seq(name, n, PAR), n


def spec_subs(v, ps, m):
    return v.it.map_seq(ps, lambda p: SU(SUBPAR(v.it.embed(p), m.term), PAR))


@P.obligation("MatrixFactoryGate.bind substitutes in every parameter, any number of parameters", targets=[GM + "MatrixFactoryGate.bind", GM + "MatrixFactoryGate.replace_params"])
def _(v):
    sub_contract(v)
    ps, n = pseq(v)
    m, f, nm, w, h = v.opaque("m", MAPI), v.opaque("factory"), v.opaque("name"), v.int("w", 1), v.bool("herm")
    g = v.call(GM + "MatrixFactoryGate", nm, f, ps, w, is_hermitian=h)
    b = v.method(g, "bind", m)
    v.same(v.attr(b, "params"), spec_subs(v, ps, m), "parameters are the substituted ones, in order")
    v.same(v.attr(b, "name"), nm, "name")
    v.same(v.attr(b, "matrix_factory"), f, "matrix factory")
    v.prove(v.attr(b, "num_qubits") == w, "number of qubits")
    v.prove(v.attr(b, "is_hermitian") == h, "self-inverse flag")
    v.same(v.attr(g, "params"), ps, "the original gate is unchanged")


@P.obligation("MatrixFactoryGate.replace_params puts the new parameters in place", targets=[GM + "MatrixFactoryGate.replace_params"])
def _(v):
    ps, n = pseq(v)
    qs, k = pseq(v, "new")
    f, nm, w, h = v.opaque("factory"), v.opaque("name"), v.int("w", 1), v.bool("herm")
    g = v.call(GM + "MatrixFactoryGate", nm, f, ps, w, is_hermitian=h)
    b = v.method(g, "replace_params", qs)
    v.same(v.attr(b, "params"), qs, "new parameters, in order")
    v.same(v.attr(b, "name"), nm, "name")
    v.same(v.attr(b, "matrix_factory"), f, "matrix factory")
    v.prove(v.attr(b, "num_qubits") == w, "number of qubits")
    v.prove(v.attr(b, "is_hermitian") == h, "self-inverse flag")
    v.same(v.attr(g, "params"), ps, "the original gate is unchanged")


@P.obligation("MatrixFactoryGate.matrix calls the factory with the current parameters", targets=[GM + "MatrixFactoryGate.matrix"])
def _(v):
    for k in range(0, 4):
        ps = tuple(v.opaque(f"p{k}_{i}", PAR) for i in range(k))
        F = v.opaque("factory", Iface("factory", call=lambda it, s, a, kw: it.opaque_app("factory_matrix", list(a), G.MATIF())))
        g = v.call(GM + "MatrixFactoryGate", "n", F, ps, 2)
        v.prove(v.it.embed(v.attr(g, "matrix")) == v.it.opaque_app("factory_matrix", list(ps)).term, f"matrix from {k} parameters in order")


@P.obligation("ControlledGate.bind substitutes in the wrapped gate, same controls", targets=[GM + "ControlledGate.bind"])
def _(v):
    G.setup(v)
    g, k, m = G.gate(v), v.int("k", 1), v.opaque("m", MAPI)
    c_ = ctl(v, g, k)
    b = v.method(c_, "bind", m)
    same_mat(v, b, G.SUBM(G.ctrl_spec(G.MAT(g.term), G.NQ(g.term), k), m.term), "substituted matrix")
    v.prove(num(v, b) == G.NQ(g.term) + k, "number of qubits")
    v.prove(v.it.embed(v.attr(b, "params")) == G.SUBP(G.PARAMS(g.term), m.term), "substituted parameters")
    v.prove(v.it.embed(v.attr(c_, "wrapped_gate")) == g.term, "the original is unchanged")
    v.prove(num(v, b) == G.NQ(g.term) + k, "number of qubits: as many controls as before")


@P.obligation("ControlledGate.replace_params replaces in the wrapped gate", targets=[GM + "ControlledGate.replace_params"])
def _(v):
    G.setup(v)
    g, k, q = G.gate(v), v.int("k", 1), v.opaque("q")
    c_ = ctl(v, g, k)
    b = v.method(c_, "replace_params", q)
    same_mat(v, b, G.ctrl_spec(G.MATP(g.term, q.term), G.NQ(g.term), k), "matrix with the new parameters")
    v.prove(v.it.embed(v.attr(b, "params")) == q.term, "new parameters")
    v.prove(num(v, b) == G.NQ(g.term) + k, "number of qubits: as many controls as before")
    v.prove(v.it.embed(v.attr(c_, "wrapped_gate")) == g.term, "the original is unchanged")


@P.obligation("Dagger.bind substitutes in the wrapped gate", targets=[GM + "Dagger.bind"])
def _(v):
    G.setup(v)
    g, m = G.gate(v), v.opaque("m", MAPI)
    d = v.call(GM + "Dagger", g)
    b = v.method(d, "bind", m)
    same_mat(v, b, G.SUBM(G.ADJ(G.MAT(g.term)), m.term), "substituted matrix")
    v.prove(num(v, b) == G.NQ(g.term), "number of qubits")
    v.prove(v.it.embed(v.attr(b, "params")) == G.SUBP(G.PARAMS(g.term), m.term), "substituted parameters")
    v.prove(v.it.embed(v.attr(d, "wrapped_gate")) == g.term, "the original is unchanged")


@P.obligation("Dagger.replace_params replaces in the wrapped gate", targets=[GM + "Dagger.replace_params"])
def _(v):
    G.setup(v)
    g, q = G.gate(v), v.opaque("q")
    d = v.call(GM + "Dagger", g)
    b = v.method(d, "replace_params", q)
    same_mat(v, b, G.ADJ(G.MATP(g.term, q.term)), "matrix with the new parameters")
    v.prove(v.it.embed(v.attr(b, "params")) == q.term, "new parameters")
    v.prove(v.it.embed(v.attr(d, "wrapped_gate")) == g.term, "the original is unchanged")


@P.obligation("GateOperation.bind / replace_params keep the qubits", targets=[GM + "GateOperation.bind", GM + "GateOperation.replace_params", GM + "GateOperation.params"])
def _(v):
    G.setup(v)
    g, m, q, qs = G.gate(v), v.opaque("m", MAPI), v.opaque("q"), v.opaque("qubits")
    op = v.call(GM + "GateOperation", g, qs)
    b = v.method(op, "bind", m)
    v.prove(v.it.embed(v.attr(b, "gate")) == G.GB(g.term, m.term), "the bound gate")
    v.prove(v.it.embed(v.attr(b, "qubit_indices")) == qs.term, "same qubits")
    r = v.method(op, "replace_params", q)
    v.prove(v.it.embed(v.attr(r, "gate")) == G.GR(g.term, q.term), "gate with the new parameters")
    v.prove(v.it.embed(v.attr(r, "qubit_indices")) == qs.term, "same qubits")
    v.prove(v.it.embed(v.attr(op, "gate")) == g.term, "original unchanged")
    v.prove(v.it.embed(v.attr(op, "params")) == G.PARAMS(g.term), "params of the operation")


@P.obligation("MultiPhaseOperation.bind / replace_params, any number of phases", targets=[WM + "MultiPhaseOperation.bind", WM + "MultiPhaseOperation.replace_params"])
def _(v):
    sub_contract(v)
    ps, n = pseq(v)
    qs, k = pseq(v, "new")
    m = v.opaque("m", MAPI)
    op = v.call(WM + "MultiPhaseOperation", ps)
    v.same(v.attr(v.method(op, "bind", m), "params"), spec_subs(v, ps, m), "substituted phases, in order")
    v.same(v.attr(v.method(op, "replace_params", qs), "params"), qs, "new phases, in order")
    v.same(v.attr(op, "params"), ps, "original unchanged")


OPB = z3.Function("op_bind", U, U, U)
OPI = Iface("operation")
OPI.methods["bind"] = lambda it, s, a, k: SU(OPB(s.term, it.embed(a[0])), OPI)


@P.obligation("Circuit.bind binds every operation in order, same width, any length", targets=[CM + "Circuit.bind"])
def _(v):
    n, w = v.int("n", 0), v.int("w", 1)
    ops = v.opaque_seq("ops", n, OPI)
    m = v.opaque("m", MAPI)
    c_ = v.call(CM + "Circuit", v.list(ops), w)
    b = v.method(c_, "bind", m)
    v.same(v.it.as_seq(v.attr(b, "operations")), v.it.map_seq(ops, lambda o: SU(OPB(o.term, m.term), OPI)), "bound operations in order")
    v.prove(v.attr(b, "n_qubits") == w, "width")
    v.same(v.it.as_seq(v.attr(c_, "operations")), ops, "original operations")
    v.prove(v.attr(c_, "n_qubits") == w, "original width")
