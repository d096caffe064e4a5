"""Bounded contracts for C04 (binding and replacing parameters)."""
import copy
import math
import numpy as np, sympy
import ref, gen
from native_lib import clause
from zquantum.core import circuits as zc
from zquantum.core.circuits import _gates

SY = gen.SYMS
OUT = sympy.Symbol("unrelated")


def smap(rng):
    """symbol map: numbers, expressions over the same symbols (swaps included), unknown symbols"""
    m = {}
    r = rng.random()
    if r < .15:
        a, b = rng.sample(list(SY), 2)
        m = {a: b, b: a}
    elif r < .25:
        a, b, c = rng.sample(list(SY), 3)
        m = {a: b, b: c, c: a}
    elif r < .3:
        m = {}
    else:
        for s in rng.sample(list(SY), rng.randint(1, len(SY))):
            m[s] = rng.choice([rng.uniform(-3, 3), 0, 1, np.float64(0.3), sympy.pi / 3, sympy.Symbol("gamma"), rng.choice(SY) * 2 + 1,
                               rng.choice(SY) + rng.choice(SY), sympy.Rational(1, 3), -rng.choice(SY), OUT, -1.25])
    if rng.random() < .4:
        m[OUT] = rng.uniform(-1, 1)
    items = list(m.items())
    rng.shuffle(items)
    return dict(items)


def sub(p, m):
    if isinstance(p, sympy.Expr):
        d = {s: sympy.Dummy() for s in m}
        return p.xreplace(d).xreplace({d[s]: sympy.sympify(v) for s, v in m.items()})
    return p


def free(ps):
    out = set()
    for p in ps:
        if isinstance(p, sympy.Expr):
            out |= p.free_symbols
    return out


def env2(m, e):
    e = dict(e)
    e[OUT] = 0.77
    out = dict(e)
    for s, v in m.items():
        out[s] = gen.val(v, e)
    return out, e


def skeleton(g):
    if isinstance(g, _gates.ControlledGate):
        return ("C", g.num_control_qubits, skeleton(g.wrapped_gate))
    if isinstance(g, _gates.Dagger):
        return ("D", skeleton(g.wrapped_gate))
    return (type(g).__name__, g.name, g.matrix_factory, g.num_qubits, g.is_hermitian, len(g.params))


def same_value(a, b, e):
    return abs(gen.val(a, e) - gen.val(b, e)) < 1e-9


def check_params(t, got, want, e, what):
    t.ok(isinstance(got, tuple), f"{what}: params are a tuple")
    t.eq(len(got), len(want), f"{what}: number of params")
    for i, (a, b) in enumerate(zip(got, want)):
        t.eq(free((a,)), free((b,)), f"{what}: free symbols of param {i} ({a} / {b})")
        t.ok(same_value(a, b, e), f"{what}: param {i} is {a}, expected {b}")


@clause("gate binding is substitution", budget=50)
def _(t):
    for _ in range(t.n(110)):
        g, m, e = gen.gate(t.rng, depth=3, max_qubits=3), smap(t.rng), gen.env(t.rng)
        with t.case(f"{g.text}.bind({m})", trivial=not g.symbols):
            before = (skeleton(g.gate), g.gate.params, dict(m))
            b = g.gate.bind(m)
            e2, e1 = env2(m, e)
            want = [sub(p, m) for p in g.params]
            check_params(t, b.params, want, e1, "bound gate")
            t.eq(set(b.free_symbols), free(want), "free symbols of the bound gate")
            t.eq(len(list(b.free_symbols)), len(free(want)), "each free symbol once")
            t.eq(skeleton(b), before[0], "wrapper structure, names and definitions")
            t.close(gen.evalm(b.matrix, e1), g.matrix(e2), "matrix of the bound gate")
            t.eq(b.num_qubits, g.gate.num_qubits, "number of qubits")
            t.eq((skeleton(g.gate), g.gate.params, m), before, "original gate and symbol map unchanged")
            for p, q in zip(g.params, b.params):
                if not isinstance(p, sympy.Expr):
                    t.ok(p == q and type(p) is type(q), f"numeric parameter {p!r} became {q!r}")


@clause("gate replace_params puts the new parameters in place", budget=30)
def _(t):
    for _ in range(t.n(110)):
        g, e = gen.gate(t.rng, depth=3, max_qubits=3), gen.env(t.rng)
        new = tuple(gen.params(t.rng, len(g.params), True))
        with t.case(f"{g.text}.replace_params({new})", trivial=not new):
            before = (skeleton(g.gate), g.gate.params)
            b = g.gate.replace_params(new)
            t.eq(b.params, new, "params")
            t.ok(all(x is y or type(x) is type(y) for x, y in zip(b.params, new)), "params keep their types")
            t.eq(skeleton(b), before[0], "structure")
            t.close(gen.evalm(b.matrix, e), g.fn(*[gen.val(p, e) for p in new]), "matrix with the new parameters")
            t.eq((skeleton(g.gate), g.gate.params), before, "original unchanged")


def multiphase(rng, n):
    return zc.MultiPhaseOperation(tuple(gen.param(rng) for _ in range(2 ** n)))


@clause("circuit and operation binding, multi-phase operations included", budget=60)
def _(t):
    for _ in range(t.n(45)):
        n = t.rng.randint(1, 4)
        mo = gen.ops(t.rng, n, t.rng.randint(0, 5))
        lst = [o.op for o in mo]
        mp = {}
        for _ in range(t.rng.choice([0, 0, 1, 2])):
            i = t.rng.randint(0, len(lst))
            lst.insert(i, multiphase(t.rng, n))
        width = n + t.rng.choice([0, 0, 1, 2])
        c, m, e = zc.Circuit(lst, n_qubits=width), smap(t.rng), gen.env(t.rng)
        with t.case(f"{lst} width {width} bind {m}", trivial=not lst):
            before = list(c.operations)
            before_params = [o.params for o in before]
            m0 = dict(m)
            b = c.bind(m)
            e2, e1 = env2(m, e)
            t.ok(isinstance(b, zc.Circuit) and b is not c, "a new circuit")
            t.eq(b.n_qubits, width, "width")
            t.eq(len(b.operations), len(lst), "number of operations")
            seen = []
            for i, (x, y) in enumerate(zip(before, b.operations)):
                t.ok(type(x) is type(y), f"type of operation {i}")
                t.eq(y.qubit_indices, x.qubit_indices, f"qubits of operation {i}")
                want = [sub(p, m) for p in x.params]
                check_params(t, y.params, want, e1, f"operation {i}")
                t.eq(set(y.free_symbols), free(want), f"free symbols of operation {i}")
                if isinstance(x, zc.GateOperation):
                    t.eq(skeleton(y.gate), skeleton(x.gate), f"gate structure of operation {i}")
                    if x.gate.num_qubits <= 2:
                        t.close(gen.evalm(y.gate.matrix, e1), gen.evalm(x.gate.matrix, e2), f"matrix of operation {i}")
                xb = x.bind(m)
                t.eq(xb, y, f"operation {i} bound on its own")
                seen += [s for s in sorted(free(want), key=str) if s not in seen]
            t.eq(set(b.free_symbols), set(seen), "free symbols of the bound circuit")
            t.eq(len(b.free_symbols), len(seen), "each free symbol once")
            t.ok(len(c.operations) == len(before) and all(a is b_ for a, b_ in zip(c.operations, before)), "original operations untouched")
            t.eq([o.params for o in c.operations], before_params, "original parameters untouched")
            t.eq(m, m0, "symbol map untouched")


@clause("binding a circuit substitutes in its unitary", budget=40)
def _(t):
    for _ in range(t.n(14)):
        n = t.rng.randint(1, 3)
        mo = gen.ops(t.rng, n, t.rng.randint(1, 3))
        c, m, e = zc.Circuit([o.op for o in mo], n_qubits=n), smap(t.rng), gen.env(t.rng)
        with t.case(f"{gen.text(mo)} on {n} bind {m}"):
            e2, e1 = env2(m, e)
            t.close(gen.evalm(c.bind(m).to_unitary(), e1), gen.unitary(mo, n, e2), "unitary of the bound circuit")


@clause("multi-phase operations: replace, bind, apply, reject non-real", budget=20)
def _(t):
    for _ in range(t.n(60)):
        n = t.rng.randint(0, 3)
        op, m, e = multiphase(t.rng, n), smap(t.rng), gen.env(t.rng)
        new = tuple(gen.param(t.rng) for _ in range(2 ** n))
        with t.case(f"{op} bind {m} replace {new}"):
            old = op.params
            r = op.replace_params(new)
            t.eq(r.params, new, "replaced params")
            t.eq(op.params, old, "original params")
            t.eq(op.qubit_indices, tuple(range(n)), "acts on all qubits")
            full = {s: t.rng.uniform(-2, 2) for s in set(SY)}
            b = op.bind(full)
            want = np.array([gen.val(p, full) for p in old])
            t.close(np.array([complex(x) for x in b.params]), want, "fully bound parameters")
            psi = ref.rand_state(t.np_rng, n)
            keep = psi.copy()
            t.close(np.asarray(b.apply(psi)), psi * np.exp(1j * want), "phases applied entrywise", tol=1e-9)
            t.close(psi, keep, "state not modified")
            t.raises(ValueError, lambda: op.replace_params(tuple(new[:-1]) + (1 + 2j,)), "complex parameter is rejected")
            t.raises(ValueError, lambda: op.replace_params((sympy.Float(1) * sympy.I + 2,) * 0 + (0.5j,) * len(new)), "imaginary parameters are rejected")


@clause("sequential and simultaneous binding of disjoint maps agree; swaps swap", budget=20)
def _(t):
    for _ in range(t.n(50)):
        g, e = gen.gate(t.rng, depth=2, max_qubits=3), gen.env(t.rng)
        ss = list(SY)
        t.rng.shuffle(ss)
        k = t.rng.randint(0, 4)
        m1 = {s: t.rng.uniform(-2, 2) for s in ss[:k]}
        m2 = {s: t.rng.uniform(-2, 2) for s in ss[k:]}
        with t.case(f"{g.text} {m1} then {m2}", trivial=not g.symbols):
            a = g.gate.bind(m1).bind(m2)
            b = g.gate.bind({**m2, **m1})
            t.close(gen.evalm(a.matrix, e), g.matrix({**m1, **m2}), "matrix after two binds")
            t.close(gen.evalm(b.matrix, e), g.matrix({**m1, **m2}), "matrix after one bind")
            t.eq(list(a.free_symbols), [], "no symbols left")
            t.eq(g.gate.bind({}).params, g.gate.params, "binding nothing")


@clause("every wrapper sequence keeps its structure under bind and replace_params", budget=40)
def _(t):
    import itertools
    bases = [gen.custom_defs()[0], gen.custom_defs()[1], gen.custom_defs()[-1]] + [(n, k, None) for n, (k, q, f) in sorted(ref.GATES.items())]
    steps = {"D": lambda g: g.dagger, "C1": lambda g: g.controlled(1), "C2": lambda g: g.controlled(2)}
    seqs = [s for l in range(4) for s in itertools.product(steps, repeat=l)]
    m = {SY[0]: 0, SY[1]: SY[2], SY[2]: 1.5, SY[3]: SY[1] + SY[2]}
    for d, k, _f in bases:
        ps = [[SY[0], SY[1] + SY[0], SY[4]], [SY[2] * SY[3], 0.25, SY[1]]][t.rng.randint(0, 1)][:k]
        g0 = (d(*ps) if k else d()) if not isinstance(d, str) else (zc.builtin_gate_by_name(d)(*ps) if k else zc.builtin_gate_by_name(d))
        base = g0.bind(m)
        for s in seqs:
            with t.case(f"{g0} {'.'.join(s)}"):
                g, b, r = g0, base, g0.replace_params(tuple([0.5] * k))
                for w in s:
                    g, b, r = steps[w](g), steps[w](b), steps[w](r)
                got = g.bind(m)
                t.eq(skeleton(got), skeleton(b), "structure after bind")
                t.eq(got.params, base.params, "parameters after bind")
                t.eq(got, b, "bound gate")
                got = g.replace_params(tuple([0.5] * k))
                t.eq(skeleton(got), skeleton(r), "structure after replace_params")
                t.eq(got, r, "gate with replaced parameters")
