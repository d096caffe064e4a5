"""Bounded contracts for C02 (built-in gate matrices)."""
import math, itertools
import numpy as np, sympy
import ref
from native_lib import clause
from zquantum.core import circuits as zc


def make(name, p):
    ref_ = zc.builtin_gate_by_name(name)
    return ref_(*p) if ref.GATES[name][0] else ref_


@clause("numeric parameters: matrix, unitarity, size, flags")
def _(t):
    for name, (k, q, f) in t.rng.sample(list(ref.GATES.items()), len(ref.GATES)):
        ps = list(itertools.product(ref.ANGLES, repeat=k)) if k < 2 else [tuple(t.rng.choice(ref.ANGLES) if t.rng.random() < .5
                                         else t.rng.uniform(-9, 9) for _ in range(k)) for _ in range(t.n(25))]
        if k == 1:
            ps += [(t.rng.uniform(-15, 15),) for _ in range(t.n(8))]
        for p in ps:
            with t.case(f"{name}{p}"):
                g = make(name, p)
                m = ref.npm(g.matrix)
                t.close(m, f(*p), f"matrix of {name}{p}")
                t.close(m @ m.conj().T, np.eye(2 ** q), "unitary")
                t.eq(g.num_qubits, q, "num_qubits")
                t.eq(g.name, name, "name")
                t.eq(tuple(g.params), tuple(p), "params")
                if g.is_hermitian:
                    t.close(m, m.conj().T, "declared self-inverse")
                    t.ok(g.dagger is g or g.dagger == g, "dagger of a self-inverse gate is itself")
                t.close(ref.npm(g.dagger.matrix), f(*p).conj().T, "dagger matrix")
                t.eq(list(g.free_symbols), [], "no free symbols")


@clause("symbolic parameters evaluate to the documented matrix")
def _(t):
    for name, (k, q, f) in t.rng.sample(list(ref.GATES.items()), len(ref.GATES)):
        if not k:
            continue
        syms = sympy.symbols("theta_0:%d" % k, real=t.rng.random() < .5)
        g = make(name, syms)
        for _ in range(t.n(3)):
            vals = [t.rng.uniform(-7, 7) for _ in range(k)]
            with t.case(f"{name}{syms} at {vals}"):
                t.close(ref.npm(sympy.Matrix(g.matrix).subs(dict(zip(syms, vals))).evalf()), f(*vals), "value of the symbolic matrix")
                t.close(ref.npm(g.bind(dict(zip(syms, vals))).matrix), f(*vals), "bound matrix")
                t.eq(set(g.free_symbols), set(syms), "free symbols")
                expr = make(name, [s + 1 for s in syms])
                t.close(ref.npm(expr.bind(dict(zip(syms, vals))).matrix), f(*[v + 1 for v in vals]), "parameter expression")


@clause("exact, integer, tiny and huge parameters", budget=25)
def _(t):
    pool = [sympy.pi, sympy.pi / 3, -sympy.pi / 7, 2 * sympy.pi, 5 * sympy.pi / 2, sympy.Rational(7, 2), -sympy.sqrt(2), sympy.Integer(0), sympy.Float(.25),
            0, 1, -3, 100, 1e-9, -1e-7, 1e3, 4 * math.pi + .1, -6 * math.pi, np.float64(.3), np.int64(2)]
    for name, (k, q, f) in t.rng.sample(list(ref.GATES.items()), len(ref.GATES)):
        if not k:
            continue
        for p in ([(x,) for x in t.rng.sample(pool, t.n(8, len(pool)))] if k == 1 else [tuple(t.rng.choice(pool) for _ in range(k)) for _ in range(t.n(8, 40))]):
            with t.case(f"{name}{p}"):
                g = make(name, p)
                want = f(*[float(x) for x in p])
                t.close(ref.npm(g.matrix), want, "matrix")
                t.close(ref.npm(make(name, p).matrix), want, "matrix of the gate made again")
                t.close(ref.npm(g.dagger.matrix), want.conj().T, "dagger matrix")
                t.ok(all(a is b or a == b for a, b in zip(g.params, p)), "params")
                syms = sympy.symbols("theta_0:%d" % k)
                t.close(ref.npm(make(name, syms).bind(dict(zip(syms, p))).matrix), want, "bound")
