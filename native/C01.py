"""Bounded contracts for C01 (lifting gates to n qubits, applying them)."""
import itertools, math
import numpy as np, sympy
import ref
from native_lib import clause
from zquantum.core import circuits as zc


def custom(m, name="custom_gate"):
    return zc.CustomGateDefinition(name, sympy.Matrix(m), ())()


@clause("numeric gate on every ordered choice of qubits", budget=40)
def _(t):
    for n in range(1, t.n(6, 7)):
        for k in range(1, min(n, 3) + 1):
            tuples = list(itertools.permutations(range(n), k))
            if len(tuples) > t.n(24, 130):
                tuples = t.rng.sample(tuples, t.n(24, 130))
            u = ref.rand_unitary(t.np_rng, 2 ** k)
            g = custom(u)
            v = ref.rand_state(t.np_rng, n)
            for qs in tuples:
                with t.case(f"n={n} qubits={qs}"):
                    op = g(*qs)
                    want = ref.lift(u, qs, n)
                    t.close(ref.npm(op.lifted_matrix(n)), want, "lifted matrix")
                    v0 = v.copy()
                    t.close(op.apply(v), want @ v0, "apply")
                    t.ok(np.array_equal(v, v0), "input state modified")
                    t.eq(tuple(op.qubit_indices), qs, "qubit indices")


@clause("built-in and wrapped gates, numeric and symbolic", budget=40)
def _(t):
    th = sympy.Symbol("theta")
    cases = [("X", ()), ("RX", (0.7,)), ("RZ", (1.9,)), ("CNOT", ()), ("CPHASE", (0.4,)), ("XX", (1.3,)), ("U3", (0.1, 0.5, -2.0)), ("ISWAP", ())]
    for name, p in cases:
        for wrap in ("plain", "dagger", "c1", "c2", "c1dag"):
            for symbolic in (False, True):
                if symbolic and not p:
                    continue
                par = tuple(p)
                if symbolic:
                    par = (th,) + tuple(p[1:])
                base = zc.builtin_gate_by_name(name)
                g = base(*par) if p else base
                m = ref.GATES[name][2](*p)
                if "c1" in wrap:
                    g, m = g.controlled(1), ref.controlled(m, 1)
                if "c2" in wrap:
                    g, m = g.controlled(2), ref.controlled(m, 2)
                if "dag" in wrap:
                    g, m = g.dagger, m.conj().T
                k = g.num_qubits
                n = k + t.rng.choice([0, 1, 2] if k < 3 else [0, 1])
                if n > 4:
                    n = max(k, 4)
                qs = tuple(t.rng.sample(range(n), k))
                if symbolic and n > 3:
                    continue
                with t.case(f"{name}{par} {wrap} on {qs} of {n}"):
                    op = g(*qs)
                    got = op.lifted_matrix(n)
                    got = ref.npm(sympy.Matrix(got).subs({th: p[0]}).evalf()) if symbolic else ref.npm(got)
                    want = ref.lift(m, qs, n)
                    t.close(got, want, "lifted matrix")
                    v = ref.rand_state(t.np_rng, n)
                    v0 = v.copy()
                    r = op.apply(v)
                    r = np.array(sympy.Matrix(list(np.array(r).ravel())).subs({th: p[0]}).evalf(), dtype=complex).ravel() if symbolic else r
                    t.close(np.array(r).ravel(), want @ v0, "apply")
                    t.ok(np.array_equal(v, v0), "input modified")


@clause("symbolic state vectors")
def _(t):
    a = sympy.symbols("a0:8")
    for n in (1, 2, 3):
        for k in (1, 2):
            if k > n:
                continue
            for qs in itertools.permutations(range(n), k):
                u = ref.rand_unitary(t.np_rng, 2 ** k)
                vec = np.array(a[:2 ** n], dtype=object)
                with t.case(f"n={n} qubits={qs} symbolic vector"):
                    r = custom(u)(*qs).apply(vec)
                    vals = t.np_rng.randn(2 ** n)
                    sub = dict(zip(a, vals))
                    got = np.array([complex(sympy.sympify(x).subs(sub)) for x in np.array(r).ravel()])
                    t.close(got, ref.lift(u, qs, n) @ vals, "apply to a symbolic vector")
                    t.ok(list(vec) == list(a[:2 ** n]), "input modified")


@clause("vectors of wrong length are rejected")
def _(t):
    th = sympy.Symbol("theta")
    for ln in list(range(3, 40)):
        if ln & (ln - 1) == 0:
            continue
        for g, nm in ((zc.X, "X"), (zc.CNOT, "CNOT"), (zc.RX(th), "RX(theta)")):
            q = (0,) if g.num_qubits == 1 else (1, 0)
            with t.case(f"{nm} length {ln}"):
                t.raises(ValueError, lambda: g(*q).apply(np.ones(ln) / math.sqrt(ln)), "length not a power of two")


@clause("gates on many qubits: gaps and ends", budget=30)
def _(t):
    for n in (7, 8, 9):
        for _ in range(t.n(3, 8)):
            k = t.rng.choice([1, 2, 3])
            qs = tuple(t.rng.sample(range(n), k))
            if max(qs) - min(qs) > 6:
                continue
            u = ref.rand_unitary(t.np_rng, 2 ** k)
            v = ref.rand_state(t.np_rng, n)
            with t.case(f"n={n} qubits={qs}"):
                # tensor form of the action, without building the full matrix
                w = np.tensordot(u.reshape([2] * (2 * k)), v.reshape([2] * n), axes=(list(range(k, 2 * k)), list(qs)))
                w = np.moveaxis(w, list(range(k)), list(qs)).reshape(-1)
                t.close(custom(u)(*qs).apply(v.copy()), w, "apply")


@clause("the same qubits again: other gates, widths and states in between", budget=25)
def _(t):
    for _ in range(t.n(40)):
        n = t.rng.randint(2, 4)
        k = t.rng.choice([1, 1, 2, min(3, n)])
        qs = tuple(t.rng.sample(range(n), k))
        us = [ref.rand_unitary(t.np_rng, 2 ** k) for _ in range(3)]
        gs = [custom(u) for u in us]                    # one name, different matrices
        mats = list(zip(gs, us)) + [(gs[0].dagger, us[0].conj().T)]
        if k == 1:
            x = t.rng.uniform(-7, 7)
            mats += [(zc.RX(x), ref.GATES["RX"][2](x)), (zc.RX(-x), ref.GATES["RX"][2](-x)), (zc.Y, ref.GATES["Y"][2]()), (zc.RX(2 * math.pi + x), ref.GATES["RX"][2](2 * math.pi + x))]
        steps = [t.rng.choice(mats) for _ in range(5)]
        with t.case(f"{qs} of {n}: {[str(g)[:40] for g, _ in steps]}"):
            for g, u in steps:
                order = t.rng.choice([qs, qs, qs[::-1], tuple(t.rng.sample(range(n), k))])
                w = n + t.rng.choice([0, 0, 1])
                op = g(*order)
                want = ref.lift(u, order, w)
                t.close(ref.npm(op.lifted_matrix(w)), want, f"lifted matrix on {order} of {w}")
                kind = t.rng.choice(["complex", "int", "float", "list", "same"])
                v = ref.rand_state(t.np_rng, w)
                if kind in ("int", "list"):
                    v = np.eye(2 ** w, dtype=int)[t.rng.randrange(2 ** w)]
                elif kind == "float":
                    v = t.np_rng.randn(2 ** w)
                keep = np.array(v, dtype=complex)
                arg = list(v) if kind == "list" else v
                r = op.apply(arg)
                t.close(np.array(r, dtype=complex), want @ keep, f"apply to a {kind} vector")
                if kind == "same":
                    t.close(np.array(op.apply(r), dtype=complex), want @ want @ keep, "applied twice")
                t.ok(np.array_equal(np.array(arg, dtype=complex), keep), "state modified")
