"""Bounded contracts for C03 (dagger / control wrappers)."""
import itertools
import numpy as np, sympy
import ref, gen
from native_lib import clause
from zquantum.core import circuits as zc


def check(t, g, e):
    m = g.matrix(e)
    t.close(gen.evalm(g.gate.matrix, e), m, "matrix")
    q = len(m).bit_length() - 1
    t.eq(g.gate.num_qubits, q, "num_qubits")
    t.eq(list(g.gate.params), list(g.params), "params")
    t.eq(set(g.gate.free_symbols), g.symbols, "free symbols")
    d = g.gate.dagger
    t.close(gen.evalm(d.matrix, e), m.conj().T, "matrix of .dagger")
    t.eq(d.num_qubits, q, "num_qubits of .dagger")
    t.eq(list(d.params), list(g.params), "params of .dagger")
    t.close(gen.evalm(d.dagger.matrix, e), m, "matrix of .dagger.dagger")
    for k in (1, 2) if q < 3 else (1,):
        c = g.gate.controlled(k)
        t.close(gen.evalm(c.matrix, e), ref.controlled(m, k), f"matrix of .controlled({k})")
        t.eq(c.num_qubits, q + k, "num_qubits of controlled")
        t.eq(list(c.params), list(g.params), "params of controlled")
    t.close(gen.evalm(g.gate.matrix, e), m, "gate unchanged by deriving others")


@clause("every built-in gate under every short chain of wrappers", budget=60)
def _(t):
    e = gen.env(t.rng)
    chains = [c for n in range(0, 4) for c in itertools.product(("d", "c1", "c2"), repeat=n)]
    names = sorted(ref.GATES)
    for name in names:
        for chain in t.rng.sample(chains, t.n(7, 40)):
            k, q, f = ref.GATES[name]
            ps = gen.params(t.rng, k, t.rng.random() < .4)
            g0 = zc.builtin_gate_by_name(name)
            g = gen.G(g0(*ps) if k else g0, f, ps, f"{name}{tuple(ps)}")
            if q + sum(int(c[1]) for c in chain if c != "d") > 4:
                continue
            with t.case(f"{g.text} {chain} at {sorted((str(a), b) for a, b in e.items() if a in g.symbols)}"):
                for c in chain:
                    if c == "d":
                        g = gen.G(g.gate.dagger, lambda *a, f=g.fn: f(*a).conj().T, g.params, "")
                    else:
                        kk = int(c[1])
                        g = gen.G(g.gate.controlled(kk), lambda *a, f=g.fn, kk=kk: ref.controlled(f(*a), kk), g.params, "")
                check(t, g, e)


@clause("random nested gates, custom gates included", budget=40)
def _(t):
    for _ in range(t.n(60)):
        g = gen.gate(t.rng, depth=5, max_qubits=4, symbolic=t.rng.random() < .3)
        e = gen.env(t.rng)
        with t.case(f"{g.text}"):
            check(t, g, e)


@clause("non-positive control counts are rejected")
def _(t):
    th = sympy.Symbol("theta")
    for nm, g in (("X", zc.X), ("RX(theta)", zc.RX(th)), ("T.dagger", zc.T.dagger), ("X.controlled(2)", zc.X.controlled(2)),
                  ("RZ(1).controlled(3)", zc.RZ(1).controlled(3)), ("S.dagger.controlled(1)", zc.S.dagger.controlled(1)),
                  ("custom", gen.custom_defs()[3][0]())):
        for k in (0, -1, -2, -5):
            with t.case(f"{nm}.controlled({k})"):
                t.raises(ValueError, lambda: g.controlled(k), "non-positive control count")
        with t.case(f"ControlledGate({nm}, 0)"):
            t.raises(ValueError, lambda: zc.ControlledGate(g, 0), "non-positive control count")
