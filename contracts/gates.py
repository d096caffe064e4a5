"""Interface contract of `Gate` (the induction hypothesis for wrapped gates) and matrix lemmas.

Matrices of unknown size are terms over
  D(n, m)   block-diagonal matrix  diag(identity of size n, m)
  ADJ(m)    adjoint,   SUB(m, s)  substitution of the symbol map s
with the lemmas (checked for concrete sizes by C03's ring obligations):
  D(a, D(b, m)) = D(a+b, m)      ADJ(D(a, m)) = D(a, ADJ m)     ADJ(ADJ m) = m
  SUB(D(a, m), s) = D(a, SUB(m, s))   SUB(ADJ m, s) = ADJ(SUB(m, s))  [real-valued symbol maps]
"""
import z3
from .spec import *
from pyvc.values import *
from pyvc.interp import _pow2

Int = z3.IntSort()
D = z3.Function("D", Int, U, U)
ADJ = z3.Function("ADJ", U, U)
SUBM = z3.Function("SUB", U, U, U)
MAT = z3.Function("MAT", U, U)
NQ = z3.Function("NQ", U, Int)
PARAMS = z3.Function("PARAMS", U, U)
FREE = z3.Function("FREE", U, U)
GC = z3.Function("g_controlled", U, Int, U)
GD = z3.Function("g_dagger", U, U)
GB = z3.Function("g_bind", U, U, U)
GR = z3.Function("g_replace", U, U, U)
SUBP = z3.Function("SUBparams", U, U, U)
MATP = z3.Function("MATwith", U, U, U)      # matrix of gate g with its parameters replaced by p


def MATIF():
    return Iface("matrix", methods={"adjoint": lambda it, s, a, k: SU(ADJ(s.term), MATIF())})


def lemmas(it):
    a, b = z3.Ints("la lb")
    m, s = z3.Consts("lm ls", U)
    FA = z3.ForAll
    it.axioms += [
        FA([a, b, m], D(a, D(b, m)) == D(a + b, m), patterns=[D(a, D(b, m))]),
        FA([a, m], ADJ(D(a, m)) == D(a, ADJ(m)), patterns=[ADJ(D(a, m))]),
        FA([m], ADJ(ADJ(m)) == m, patterns=[ADJ(ADJ(m))]),
        FA([a, m, s], SUBM(D(a, m), s) == D(a, SUBM(m, s)), patterns=[SUBM(D(a, m), s)]),
        FA([m, s], SUBM(ADJ(m), s) == ADJ(SUBM(m, s)), patterns=[SUBM(ADJ(m), s)]),
    ]
    g = z3.Const("lg", U)
    k = z3.Int("lk")
    it.axioms += [
        FA([g], NQ(g) >= 1, patterns=[NQ(g)]),
        # interface contract of Gate
        FA([g, k], z3.And(MAT(GC(g, k)) == D(_pow2(NQ(g) + k) - _pow2(NQ(g)), MAT(g)), NQ(GC(g, k)) == NQ(g) + k,
                          PARAMS(GC(g, k)) == PARAMS(g)), patterns=[GC(g, k)]),
        FA([g], z3.And(MAT(GD(g)) == ADJ(MAT(g)), NQ(GD(g)) == NQ(g), PARAMS(GD(g)) == PARAMS(g)), patterns=[GD(g)]),
        FA([g, s], z3.And(MAT(GB(g, s)) == SUBM(MAT(g), s), NQ(GB(g, s)) == NQ(g), PARAMS(GB(g, s)) == SUBP(PARAMS(g), s)),
           patterns=[GB(g, s)]),
        FA([g, s], z3.And(MAT(GR(g, s)) == MATP(g, s), NQ(GR(g, s)) == NQ(g), PARAMS(GR(g, s)) == s), patterns=[GR(g, s)]),
    ]


OPQ = Iface("params")


def gate_iface():
    def controlled(it, s, a, k):
        n = a[0] if a else k["num_control_qubits"]
        # precondition of Gate.controlled: at least one control (otherwise rejected)
        if not it.decide(it.cmp(">=", n, 1)):
            raise PyExc(ExcInst(ValueError, ("controls",)))
        return SU(GC(s.term, n if is_z3(n) else z3.IntVal(n)), GATE)
    return Iface("Gate", attrs={
        "matrix": lambda it, s: SU(MAT(s.term), MATIF()),
        "num_qubits": lambda it, s: NQ(s.term),
        "params": lambda it, s: SU(PARAMS(s.term), OPQ),
        "free_symbols": lambda it, s: SU(FREE(PARAMS(s.term)), OPQ),
        "dagger": lambda it, s: SU(GD(s.term), GATE),
    }, methods={
        "controlled": controlled,
        "bind": lambda it, s, a, k: SU(GB(s.term, it.embed(a[0] if a else k["symbols_map"])), GATE),
        "replace_params": lambda it, s, a, k: SU(GR(s.term, it.embed(a[0] if a else k["new_params"])), GATE),
    }, classes=("Gate",), maybe=("MatrixFactoryGate", "ControlledGate", "Dagger"))


GATE = gate_iface()


def setup(v):
    """models of the matrix library on opaque matrices, lemmas, gate interface"""
    it = v.it
    lemmas(it)
    diag0 = it.models.get("sympy.Matrix.diag")
    eye0 = it.models.get("sympy.eye")

    def eye(it, a, k):
        if is_z3(a[0]):
            return SU(z3.Function("EYE", Int, U)(a[0]), Iface("eye"))
        return eye0(it, a, k)

    def diag(it, a, k):
        if len(a) == 2 and isinstance(a[1], SU):
            if isinstance(a[0], SU) and a[0].iface.name == "eye":
                return SU(D(a[0].term.arg(0), a[1].term), MATIF())
            if isinstance(a[0], VArr) and it.arr_vals(a[0]) == [1 if i == j else 0 for i in range(a[0].shape[0]) for j in range(a[0].shape[0])]:
                return SU(D(z3.IntVal(a[0].shape[0]), a[1].term), MATIF())
        return diag0(it, a, k)
    it.models["sympy.eye"] = eye
    it.models["sympy.diag"] = it.models["sympy.Matrix.diag"] = diag


def gate(v, name="g"):
    return v.opaque(name, GATE)


def ctrl_spec(m, w, k):
    """matrix of the gate with matrix m on w qubits controlled by k qubits"""
    return D(_pow2(w + k) - _pow2(w), m)


def mat(v, g):
    m = v.attr(g, "matrix")
    return m
