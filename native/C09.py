"""Bounded contracts for C09 (gate decompositions)."""
import itertools, math
import numpy as np, sympy
import ref, gen
from native_lib import clause
from zquantum.core import circuits as zc
from zquantum.core.decompositions import U3GateToRotation, decompose_operations, decompose_zquantum_circuit

RULE = U3GateToRotation()


def upto_phase(t, got, want, what):
    got, want = np.asarray(got, dtype=complex), np.asarray(want, dtype=complex)
    t.eq(got.shape, want.shape, f"{what}: shape")
    i = np.argmax(np.abs(want))
    p = got.flat[i] / want.flat[i]
    t.ok(abs(abs(p) - 1) < 1e-8, f"{what}: modulus of the phase")
    t.close(got, want * p, f"{what}: unitary up to one global phase", 1e-8)


def u3(t, symbolic=True):
    ps = [gen.param(t.rng, symbolic) for _ in range(3)]
    return gen.G(zc.U3(*ps), ref.GATES["U3"][2], ps, f"U3{tuple(ps)}")


def mixed(t, n, length):
    out = []
    for _ in range(length):
        if t.rng.random() < .5:
            out.append(gen.Op(u3(t), t.rng.sample(range(n), 1)))
        else:
            out += gen.ops(t.rng, n, 1, custom=True)
    return out


def claims_u3(g):
    return g.name == "U3" or isinstance(g, zc._gates.ControlledGate) and g.wrapped_gate.name == "U3"


@clause("decomposed circuit: same width, same unitary up to one phase, nothing left to decompose", budget=60)
def _(t):
    for _ in range(t.n(60)):
        n = t.rng.randint(1, 3)
        mo = [o for o in mixed(t, n, t.rng.randint(0, 4)) if not (isinstance(o.op.gate, zc._gates.ControlledGate) and claims_u3(o.op.gate))]
        w = t.rng.choice([None, n, n + 1])
        ops = [o.op for o in mo]
        c = zc.Circuit(ops, n_qubits=w) if w else zc.Circuit(ops)
        keep = (c.n_qubits, list(c.operations))
        e = gen.env(t.rng)
        with t.case(f"{gen.text(mo)} width {c.n_qubits}", trivial=not mo):
            d = decompose_zquantum_circuit(c, [RULE])
            t.eq(d.n_qubits, c.n_qubits, "width")
            t.eq((c.n_qubits, list(c.operations)), keep, "the circuit is not modified")
            t.ok(not any(RULE.predicate(o) for o in d.operations), "no operation is still claimed")
            t.ok(not any(claims_u3(o.gate) for o in d.operations), "no U3 left")
            rest = list(d.operations)
            for o in mo:
                if claims_u3(o.op.gate):
                    t.eq([(x.gate.name, x.qubit_indices) for x in rest[:3]], [("RZ", o.qs), ("RY", o.qs), ("RZ", o.qs)], "rotations in place of the U3")
                    rest = rest[3:]
                else:
                    t.ok(rest[0] is o.op, f"{o.text} is passed through unchanged and in order")
                    rest = rest[1:]
            t.eq(rest, [], "nothing else")
            if c.n_qubits:
                u = np.eye(2 ** c.n_qubits, dtype=complex)
                for o in d.operations:
                    u = ref.lift(gen.evalm(o.gate.matrix, e), o.qubit_indices, c.n_qubits) @ u
                upto_phase(t, u, gen.unitary(mo, c.n_qubits, e), "decomposition")
            t.eq(decompose_zquantum_circuit(c, []), c, "no rules: the same circuit")


@clause("U3 at every special angle", budget=40)
def _(t):
    A = [0, math.pi / 2, math.pi, -math.pi, 2 * math.pi, -0.7, 3 * math.pi, 4 * math.pi, 1.3, 7.5, 1e-3]
    for i, (a, b, c) in enumerate(itertools.product(A, repeat=3)):
        if not t.thorough and i % 9 not in (0, 4):
            continue
        with t.case(f"U3({a}, {b}, {c})", trivial=(a, b, c) == (0, 0, 0)):
            ops = decompose_operations([zc.U3(a, b, c)(0)], [RULE])
            u = np.eye(2, dtype=complex)
            for o in ops:
                u = np.array(o.gate.matrix.evalf(), dtype=complex) @ u
            upto_phase(t, u, ref.GATES["U3"][2](a, b, c), "decomposition")


@clause("controlled U3: controlled rotations whose product is the U3 up to a phase, exact when phi + lambda = 0", budget=40)
def _(t):
    for i in range(t.n(30)):
        k = t.rng.choice([1, 1, 2, 3])
        ps = [t.rng.uniform(-4, 4) for _ in range(3)]
        exact = i % 2 == 0
        if exact:
            ps[2] = -ps[1]
        qs = t.rng.sample(range(k + 2), k + 1)
        with t.case(f"U3{tuple(ps)}.controlled({k}){tuple(qs)}"):
            g = zc.U3(*ps).controlled(k)
            ops = decompose_operations([g(*qs)], [RULE])
            t.ok(not any(RULE.predicate(o) for o in ops), "no operation is still claimed")
            u = np.eye(2, dtype=complex)
            for o in ops:
                t.eq(o.qubit_indices, tuple(qs), "qubits")
                t.eq((o.gate.num_control_qubits, o.gate.num_qubits), (k, k + 1), "controls")
                u = np.array(o.gate.wrapped_gate.matrix.evalf(), dtype=complex) @ u
            upto_phase(t, u, ref.GATES["U3"][2](*ps), "controlled part")
            if exact:
                v = np.eye(2 ** (k + 1), dtype=complex)
                for o in ops:
                    v = np.array(o.gate.matrix.evalf(), dtype=complex) @ v
                upto_phase(t, v, ref.controlled(ref.GATES["U3"][2](*ps), k), "whole controlled gate")


@clause("controlled U3: same unitary up to one global phase", budget=20)
def _(t):
    # fixed inputs: the relative phase exp(i (phi+lambda)/2) of the control is lost (known finding)
    for ps, k in (((0.3, 0.5, 0.7), 1), ((1.0, 2.0, -0.5), 1), ((0.3, 0.5, 0.7), 2)):
        with t.case(f"U3{ps}.controlled({k})"):
            v = np.eye(2 ** (k + 1), dtype=complex)
            for o in decompose_operations([zc.U3(*ps).controlled(k)(*range(k + 1))], [RULE]):
                v = ref.lift(np.array(o.gate.matrix.evalf(), dtype=complex), o.qubit_indices, k + 1) @ v
            upto_phase(t, v, ref.controlled(ref.GATES["U3"][2](*ps), k), "decomposition")


class Table:
    """rule over opaque operations"""

    def __init__(self, table, kind):
        self.table, self.kind, self.seen = table, kind, []

    def predicate(self, op):
        self.seen.append(op)
        return op in self.table

    def production(self, op):
        r = self.table[op]
        return {"list": list, "tuple": tuple, "iter": iter, "gen": lambda x: (y for y in x)}[self.kind](r)


def expected(ops, rules):
    for r in rules:
        ops = [y for o in ops for y in (r.table[o] if o in r.table else [o])]
    return ops


@clause("rules are applied in order, each to the whole output of the previous one", budget=20)
def _(t):
    for _ in range(t.n(400)):
        al = "abcdefg"
        rules = [Table({x: [t.rng.choice(al) for _ in range(t.rng.randint(0, 3))] for x in t.rng.sample(al, t.rng.randint(0, 4))}, t.rng.choice(["list", "tuple", "iter", "gen"]))
                 for _ in range(t.rng.randint(0, 4))]
        ops = [t.rng.choice(al) for _ in range(t.rng.randint(0, 6))]
        with t.case(f"{ops} {[r.table for r in rules]}", trivial=not ops or not rules):
            keep = list(ops)
            want = expected(ops, rules)
            got = decompose_operations(t.rng.choice([list, tuple, iter])(ops), t.rng.choice([list, tuple])(rules))
            t.ok(isinstance(got, list), "a list")
            t.eq(got, want, "decomposed operations")
            t.eq(ops, keep, "operations not modified")
            for i, r in enumerate(rules):
                t.ok(set(r.seen) <= set(expected(ops, rules[:i])), f"rule {i} sees the output of the rules before it")


class Swap:
    predicate = staticmethod(lambda o: o.gate == zc.SWAP)

    @staticmethod
    def production(o):
        a, b = o.qubit_indices
        return [zc.CNOT(a, b), zc.CNOT(b, a), zc.CNOT(a, b)]


class Cnot:
    predicate = staticmethod(lambda o: o.gate == zc.CNOT)

    @staticmethod
    def production(o):
        a, b = o.qubit_indices
        yield zc.H(b)
        yield zc.CZ(a, b)
        yield zc.U3(math.pi / 2, 0, math.pi)(b)


@clause("chains of correct rules preserve the unitary", budget=40)
def _(t):
    for _ in range(t.n(30)):
        n = t.rng.randint(2, 4)
        ops = []
        for _o in range(t.rng.randint(1, 6)):
            g = t.rng.choice([zc.SWAP, zc.CNOT, zc.U3(0.3, -1, 2), zc.T, zc.X.controlled(1), zc.RX(0.4)])
            ops.append(g(*t.rng.sample(range(n), g.num_qubits)))
        for rules in ([Swap, Cnot, RULE], [RULE, Cnot, Swap], [Cnot, RULE], [Swap, RULE, Cnot], [Swap, Swap]):
            with t.case(f"{[str(o) for o in ops]} {[getattr(r, '__name__', 'U3') for r in rules]}"):
                c = zc.Circuit(ops, n_qubits=n)
                d = decompose_zquantum_circuit(c, rules)
                t.eq(d.n_qubits, n, "width")

                def uni(x):
                    u = np.eye(2 ** n, dtype=complex)
                    for o in x:
                        u = ref.lift(np.array(o.gate.matrix.evalf(), dtype=complex), o.qubit_indices, n) @ u
                    return u
                upto_phase(t, uni(d.operations), uni(ops), "decomposition")
                last = rules[-1]
                t.ok(not any(last.predicate(o) for o in d.operations), "the last rule claims nothing")
