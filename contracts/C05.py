"""C05: circuit construction, width, concatenation, equality, free symbols: any number of operations."""
from pyvc.contract import Property
from .spec import *

P = Property("C05", trusted=["the lifted matrices are those of C01 (callee contract); the matrix product is associative and preserves length"])
CM = C + "circuits._circuit:"
GM = C + "circuits._gates:"

QN = z3.Function("n_qubit_indices", U, z3.IntSort())
QI = z3.Function("qubit_index", U, z3.IntSort(), z3.IntSort())
FN = z3.Function("n_free_symbols", U, z3.IntSort())
FSYM = z3.Function("free_symbol", U, z3.IntSort(), U)
LIFT = z3.Function("lifted_matrix", U, z3.IntSort(), U)


def qseq(it, s):
    j = z3.Int(it.fresh_name("q"))
    return Seq([Comp(QN(s.term), j, [(True, (Unit(QI(s.term, j)),))])])


def fseq(it, s):
    j = z3.Int(it.fresh_name("f"))
    return Seq([Comp(FN(s.term), j, [(True, (Unit(SU(FSYM(s.term, j), OPAQUE)),))])])


OP = Iface("operation", attrs={"qubit_indices": qseq, "free_symbols": fseq},
           methods={"lifted_matrix": lambda it, s, a, k: SU(LIFT(s.term, a[0] if is_z3(a[0]) else z3.IntVal(a[0])), MATI)},
           classes=("GateOperation",))
MATI = Iface("matrix")


def setup(v):
    it = v.it
    o = z3.Const("o!", U)
    j = z3.Int("j!")
    it.axioms += [z3.ForAll([o], QN(o) >= 1, patterns=[QN(o)]), z3.ForAll([o, j], QI(o, j) >= 0, patterns=[QI(o, j)]),
                  z3.ForAll([o], FN(o) >= 0, patterns=[FN(o)])]


def ops(v, name, lo=0):
    n = v.int("n_" + name, lo)
    f = z3.Function(name, z3.IntSort(), U)
    return v.seq(name, n, lambda i: SU(f(i), OP)), n, f


def circuit(v, s, w=None):
    return v.call(CM + "Circuit", v.list(s), *([] if w is None else [w]))


def seq_of(v, o):
    return v.it.as_seq(v.attr(o, "operations"))


@P.obligation("a declared width is kept, operations are the given ones", targets=[CM + "Circuit.__init__", CM + "Circuit.operations", CM + "Circuit.n_qubits"])
def _(v):
    setup(v)
    s, n, f = ops(v, "ops")
    w = v.int("w", 1)
    l = v.list(s)
    c_ = v.call(CM + "Circuit", l, w)
    v.same(seq_of(v, c_), s, "operations")
    v.prove(v.attr(c_, "n_qubits") == w, "width")
    v.prove(v.attr(c_, "operations").ref != l.ref, "own operation list")
    c2 = v.call(CM + "Circuit", s, n_qubits=w)
    v.same(seq_of(v, c2), s, "operations from any iterable")


@P.obligation("negative widths are rejected", targets=[CM + "Circuit.__init__"])
def _(v):
    setup(v)
    s, n, f = ops(v, "ops")
    w = v.int("w", None, -1)
    v.raises(ValueError, lambda: v.call(CM + "Circuit", v.list(s), w), "negative width")


@P.obligation("fractional widths are rejected", targets=[CM + "Circuit.__init__"])
def _(v):
    setup(v)
    s, n, f = ops(v, "ops")
    w = v.real("w")
    v.assume(z3.ToReal(z3.ToInt(w)) != w)
    v.raises(ValueError, lambda: v.call(CM + "Circuit", v.list(s), w), "fractional width")


@P.obligation("the width of a circuit is one more than its largest qubit index", targets=[CM + "_circuit_size_by_operations", CM + "Circuit.__init__"])
def _(v):
    setup(v)
    s, n, f = ops(v, "ops", 1)
    w = v.attr(circuit(v, s), "n_qubits")
    i, j = z3.Ints("pi pj")
    v.prove(z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < QN(f(i))), QI(f(i), j) + 1 <= w), "every qubit index lies below the width")
    v.prove(z3.Exists([i, j], z3.And(i >= 0, i < n, j >= 0, j < QN(f(i)), QI(f(i), j) + 1 == w)), "some operation reaches it")


@P.obligation("a circuit without operations has width 0", targets=[CM + "_circuit_size_by_operations", CM + "Circuit.__init__"])
def _(v):
    v.prove(v.attr(v.call(CM + "Circuit"), "n_qubits") == 0, "no operations")
    v.prove(v.attr(v.call(CM + "Circuit", v.list([])), "n_qubits") == 0, "empty list")


def mx(a, b):
    return z3.If(a >= b, a, b)


@P.obligation("adding circuits: operations of the first then the second, larger width, operands unchanged", targets=[CM + "Circuit.__add__", CM + "_append_circuit"])
def _(v):
    setup(v)
    (s, n, _f), (t, m, _g) = ops(v, "ops"), ops(v, "more")
    a, b = v.int("wa", 1), v.int("wb", 1)
    x, y = circuit(v, s, a), circuit(v, t, b)
    lx, ly = v.attr(x, "operations"), v.attr(y, "operations")
    r = v.it.binop("+", x, y)
    v.same(seq_of(v, r), s + t, "operations")
    v.prove(v.attr(r, "n_qubits") == mx(a, b), "width")
    v.same(seq_of(v, x), s, "left operand")
    v.same(seq_of(v, y), t, "right operand")
    v.prove(v.attr(x, "n_qubits") == a, "left width")
    v.prove(v.attr(y, "n_qubits") == b, "right width")
    v.prove(v.attr(r, "operations").ref not in (lx.ref, ly.ref), "own operation list")


@P.obligation("adding an operation appends it and widens if needed", targets=[CM + "Circuit.__add__", CM + "_append_operation"])
def _(v):
    setup(v)
    s, n, _f = ops(v, "ops")
    a = v.int("wa", 1)
    x = circuit(v, s, a)
    q0, q1, q2 = v.int("q0", 0), v.int("q1", 0), v.int("q2", 0)
    op = v.call(GM + "GateOperation", v.opaque("gate"), (q0, q1, q2))
    r = v.it.binop("+", x, op)
    v.same(seq_of(v, r), s + Seq.of([op]), "operations")
    v.prove(v.attr(r, "n_qubits") == mx(a, mx(q0, mx(q1, q2)) + 1), "width")
    v.same(seq_of(v, x), s, "left operand")
    v.prove(v.attr(x, "n_qubits") == a, "left width")


@P.obligation("addition is associative", targets=[CM + "Circuit.__add__", CM + "_append_circuit"])
def _(v):
    setup(v)
    cs = []
    for nm in ("p", "q", "r"):
        s, n, _f = ops(v, nm)
        cs.append(circuit(v, s, v.int("w" + nm, 1)))
    add_ = lambda x, y: v.it.binop("+", x, y)
    l, r = add_(add_(cs[0], cs[1]), cs[2]), add_(cs[0], add_(cs[1], cs[2]))
    v.same(seq_of(v, l), seq_of(v, r), "operations")
    v.prove(v.attr(l, "n_qubits") == v.attr(r, "n_qubits"), "width")


def free_symbols_shape(shape):
    @P.obligation(f"free symbols are listed once each in order of first use, operations with {shape} symbols", targets=[CM + "Circuit.free_symbols"],
                  bound="operations with the given numbers of symbols; the symbols may coincide")
    def _(v):
        k, syms, opl = 0, [], []
        for c_ in shape:
            fs = [v.opaque(f"s{k + i}") for i in range(c_)]
            k += c_
            syms += fs
            opl.append(v.opaque(f"op{len(opl)}", Iface("operation", attrs={"free_symbols": lambda it, s, fs=fs: tuple(fs)})))
        c_ = v.call(CM + "Circuit", v.list(opl), 1)
        got = v.it.as_seq(v.attr(c_, "free_symbols")).concrete()
        want = []
        for s in syms:
            if not any(v.it.decide(s.term == w.term) for w in want):
                want.append(s)
        v.same(Seq.of(got), Seq.of(want), "distinct symbols in order of first use")


for _shape in ((), (1,), (2,), (0, 1), (1, 1), (2, 1), (1, 2), (1, 1, 1), (1, 0, 2)):
    free_symbols_shape(_shape)


@P.obligation("circuits are equal exactly when widths and operations are", targets=[CM + "Circuit.__eq__"])
def _(v):
    setup(v)
    s, n, f = ops(v, "ops")
    t, m, g = ops(v, "more")
    a, b = v.int("wa", 1), v.int("wb", 1)
    x, y = circuit(v, s, a), circuit(v, t, b)
    e = to_z3_bool(v.it.eq(x, y))
    i = z3.Int("pi")
    want = z3.And(a == b, n == m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f(i) == g(i))))
    v.prove(z3.Implies(e, want), "equal circuits have equal widths and operations")
    v.prove(z3.Implies(want, e), "equal widths and operations make equal circuits")


@P.obligation("the unitary is the product of lifted operations, later operations to the left", targets=[CM + "Circuit.to_unitary"],
              bound="at most 5 operations (any operations, any width)")
def _(v):
    setup(v)
    MUL = z3.Function("matmul", U, U, U)
    MATI.ops["@"] = lambda it, x, y: SU(MUL(it.embed(x), it.embed(y)), MATI)
    f = z3.Function("op", z3.IntSort(), U)
    l = [SU(f(i), OP) for i in range(5)]
    w = v.int("w", 1)
    a, b, c_ = z3.Consts("ma mb mc", U)
    v.it.axioms.append(z3.ForAll([a, b, c_], MUL(MUL(a, b), c_) == MUL(a, MUL(b, c_)), patterns=[MUL(MUL(a, b), c_), MUL(a, MUL(b, c_))]))
    for n in range(1, 6):
        u = v.attr(v.call(CM + "Circuit", v.list(l[:n]), w), "to_unitary")
        u = v.call(u)
        want = LIFT(l[0].term, w)
        for o in l[1:n]:
            want = MUL(LIFT(o.term, w), want)
        v.prove(v.it.embed(u) == want, f"product of {n} lifted matrices in time order")
