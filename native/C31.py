"""Bounded contracts for C31 (Hubbard models, number operators, coupled-cluster generators)."""
import itertools
import numpy as np
import ops as O
from native_lib import clause
from zquantum.core.openfermion import FermionOperator
from zquantum.core.openfermion.hamiltonians import general_hubbard
from zquantum.core.openfermion.hamiltonians.hubbard import fermi_hubbard
from zquantum.core.openfermion.hamiltonians.special_operators import number_operator
from zquantum.core.openfermion.circuits.unitary_cc import (uccsd_convert_amplitude_format, uccsd_generator, uccsd_singlet_generator, uccsd_singlet_get_packed_amplitudes, uccsd_singlet_paramsize)
from zquantum.core.openfermion.utils.indexing import down_index, up_index, up_then_down


def order(word, x, out):
    """add x * word to the normal-ordered sum out"""
    for k in range(len(word) - 1):
        (i, a), (j, b) = word[k], word[k + 1]
        if a == b:
            if i == j:
                return
            if i < j:
                return order(word[:k] + (word[k + 1], word[k]) + word[k + 2:], -x, out)
        elif a < b:
            if i == j:
                order(word[:k] + word[k + 2:], x, out)
            return order(word[:k] + (word[k + 1], word[k]) + word[k + 2:], -x, out)
    out[word] = out.get(word, 0) + x


def nf(items):
    out = {}
    for w, x in items:
        order(tuple(w), x, out)
    return out


def same(t, op, items, why):
    t.ok(isinstance(op, FermionOperator), f"{why}: a fermion operator")
    got, want = nf(op.terms.items()), nf(items)
    scale = 1 + max([abs(x) for x in want.values()] + [0])
    bad = {w: (got.get(w, 0), want.get(w, 0)) for w in set(got) | set(want) if abs(got.get(w, 0) - want.get(w, 0)) > 1e-7 * scale}
    t.ok(not bad, f"{why}: {len(bad)} coefficients differ, e.g. {sorted(bad.items())[:3]} (got, expected)")


N = lambda i: ((i, 1), (i, 0))


def edges(X, Y, periodic):
    out = set()
    for c, r in itertools.product(range(X), range(Y)):
        for dc, dr in ((1, 0), (0, 1)):
            a, b = c + dc, r + dr
            if periodic:
                a, b = a % X, b % Y
            if a < X and b < Y and (a, b) != (c, r):
                out.add(frozenset((c + X * r, a + X * b)))
    return [tuple(sorted(e)) for e in out]


def repulsion(i, j, u, phs):
    d = .5 if phs else 0
    return [(N(i) + N(j), u), (N(i), -d * u), (N(j), -d * u), ((), d * d * u)]


def model(X, Y, t, u, mu, h, periodic, spinless, phs):
    out = []
    for i, j in edges(X, Y, periodic):
        for a, b in [(i, j)] if spinless else [(2 * i, 2 * j), (2 * i + 1, 2 * j + 1)]:
            out += [(((a, 1), (b, 0)), -t), (((b, 1), (a, 0)), -t)]
        if spinless:
            out += repulsion(i, j, u, phs)
    for i in range(X * Y):
        if spinless:
            out.append((N(i), -mu))
        else:
            out += repulsion(2 * i, 2 * i + 1, u, phs) + [(N(2 * i), -mu - h), (N(2 * i + 1), -mu + h)]
    return out


@clause("Hubbard models: all edges, sites and boundary conditions of the grid", budget=60)
def _(t):
    r = t.rng
    val = lambda: r.choice([0, 1, -1, 2, .5, r.uniform(-3, 3), r.uniform(-3, 3), 1e3 * r.random()])
    shapes = [(x, y) for x in range(1, 6) for y in range(1, 6) if x * y <= 12] + [(7, 1), (1, 7), (6, 2), (2, 6)]
    for X, Y in shapes:
        for periodic, spinless, phs in itertools.product((True, False), repeat=3):
            a = [val() for _ in range(4)]
            with t.case(f"{X} x {Y}, t, U, mu, h = {a}, periodic={periodic}, spinless={spinless}, particle-hole={phs}", trivial=X * Y < 2):
                op = fermi_hubbard(X, Y, a[0], a[1], a[2], a[3], periodic, spinless, phs)
                same(t, op, model(X, Y, *a, periodic, spinless, phs), "model")
                t.ok(all(0 <= i < X * Y * (1 if spinless else 2) for w in op.terms for i, _ in w), "modes of the grid")
    for _ in range(t.n(200)):
        X, Y = r.choice(shapes)
        a = [val() for _ in range(4)]
        f = [r.random() < .5 for _ in range(3)]
        with t.case(f"{X} x {Y}, {a}, {f}, by name"):
            op = fermi_hubbard(X, Y, coulomb=a[1], tunneling=a[0], magnetic_field=a[3], chemical_potential=a[2], particle_hole_symmetry=f[2], spinless=f[1], periodic=f[0])
            same(t, op, model(X, Y, *a, *f), "model")
            same(t, fermi_hubbard(X, Y, a[0], a[1]), model(X, Y, a[0], a[1], 0, 0, True, False, False), "defaults")
    for X, Y, spinless in ((2, 2, False), (3, 3, True), (3, 1, False)):
        n = X * Y * (1 if spinless else 2)
        for f in itertools.product((True, False), repeat=2):
            a = [r.uniform(-2, 2) for _ in range(4)]
            with t.case(f"matrix of {X} x {Y}, {a}, {f}, spinless={spinless}"):
                m = O.matrix(fermi_hubbard(X, Y, *a, periodic=f[0], spinless=spinless, particle_hole_symmetry=f[1]), n)
                t.close(m, m.conj().T, "self-adjoint")
                num = sum(O.factor_matrix("fermion", (i, 1), n) @ O.factor_matrix("fermion", (i, 0), n) for i in range(n))
                t.close(m @ num, num @ m, "conserves the number of particles")


@clause("number and interaction operators", budget=20)
def _(t):
    r = t.rng
    for _ in range(t.n(150)):
        n = r.randrange(0, 7)
        c = r.choice([1.0, -2, .5j, r.uniform(-3, 3), complex(r.random(), r.random())])
        with t.case(f"{n} modes, coefficient {c}", trivial=n < 2):
            same(t, number_operator(n), [(N(i), 1) for i in range(n)], "all modes")
            same(t, number_operator(n, None, c), [(N(i), c) for i in range(n)], "all modes, coefficient")
            for i in range(n):
                same(t, number_operator(n, i, c), [(N(i), c)], f"mode {i}")
                same(t, number_operator(n, mode=i), [(N(i), 1)], f"mode {i}, unit coefficient")
                same(t, general_hubbard.number_operator(i, c), [(N(i), c)], f"site {i}")
                same(t, general_hubbard.number_operator(i, particle_hole_symmetry=True), [(N(i), 1), ((), -.5)], f"shifted, site {i}")
                j = r.randrange(n)
                same(t, general_hubbard.interaction_operator(i, j, c), [(N(i) + N(j), c)], f"interaction of {i}, {j}")
                same(t, general_hubbard.interaction_operator(i, j, particle_hole_symmetry=True), repulsion(i, j, 1, True), f"shifted interaction of {i}, {j}")
            for p in (1, 0, 2, "x"):
                t.raises(ValueError, lambda: number_operator(3, 0, parity=p), f"parity {p}")
    for n in range(1, 40):
        with t.case(f"orders of {n} modes", trivial=n < 3):
            t.eq([up_then_down(m, n) for m in list(range(0, n, 2)) + list(range(1, n, 2))], list(range(n)), "up then down")
            t.eq((up_index(n), down_index(n)), (2 * n, 2 * n + 1), "spin orbitals")


def excite(pairs, x, anti=True):
    w = sum((((i, 1), (j, 0)) for i, j in pairs), ())
    return [(w, x)] + ([(tuple((m, 1 - a) for m, a in reversed(w)), -x)] if anti else [])


@clause("coupled-cluster generators from any amplitudes", budget=40)
def _(t):
    r = t.rng
    for _ in range(t.n(300)):
        n = r.randrange(1, 7)
        anti = r.random() < .7
        ix = lambda k: [r.randrange(n) for _ in range(k)]
        S = [[ix(2), r.uniform(-2, 2)] for _ in range(r.randrange(4))]
        D = [[ix(4), r.uniform(-2, 2)] for _ in range(r.randrange(4))]
        if S and r.random() < .3:
            S.append([list(S[0][0]), r.uniform(-2, 2)])
        if D and r.random() < .3:
            D.append([list(reversed(D[0][0])), r.uniform(-2, 2)])
        want = sum((excite([p], x, anti) for p, x in S), []) + sum((excite([p[:2], p[2:]], x, anti) for p, x in D), [])
        with t.case(f"{S}, {D}, anti-Hermitian={anti}", trivial=not want):
            before = repr((S, D))
            g = uccsd_generator(S, D, anti) if not anti or r.random() < .5 else uccsd_generator(S, D)
            same(t, g, want, "from lists")
            t.eq(repr((S, D)), before, "amplitudes unchanged")
            a, b = np.zeros((n,) * 2), np.zeros((n,) * 4)
            for p, x in S:
                a[tuple(p)] += x
            for p, x in D:
                b[tuple(p)] += x
            s, d = uccsd_convert_amplitude_format(a, b)
            t.eq({tuple(int(q) for q in p): x for p, x in s}, {p: a[p] for p in itertools.product(range(n), repeat=2) if a[p]}, "single amplitudes of an array")
            t.eq({tuple(int(q) for q in p): x for p, x in d}, {p: b[p] for p in itertools.product(range(n), repeat=4) if b[p]}, "double amplitudes of an array")
            same(t, uccsd_generator(a, b, anti_hermitian=anti), want, "from arrays")
            if anti:
                h = nf(g.terms.items())
                t.ok(all(abs(h.get(w, 0) + v) < 1e-9 for w, v in nf([(tuple((m, 1 - q) for m, q in reversed(w)), np.conj(x)) for w, x in g.terms.items()]).items()), "anti-Hermitian")


@clause("singlet generators: spin-summed excitations, their squares and products", budget=60)
def _(t):
    r = t.rng
    systems = [(n, e) for n in (2, 4, 6, 8) for e in range(0, n + 1)] + [(10, 2), (10, 8), (12, 2)]
    for n, e in systems:
        occ = (e + 1) // 2
        ps = [(occ + p, q) for p in range(n // 2 - occ) for q in range(occ)]
        k = len(ps)
        size = 2 * k + k * (k - 1) // 2
        x = [r.uniform(-2, 2) for _ in range(size)]
        if size and r.random() < .4:
            x[r.randrange(size)] = 0.0
        with t.case(f"{e} electrons in {n} spin orbitals, amplitudes {x}", trivial=not size):
            t.eq(uccsd_singlet_paramsize(n, e), size, "number of amplitudes")
            for anti in (True, False):
                want = []
                for (a, i), t1, t2 in zip(ps, x, x[k:]):
                    for s in (0, 1):
                        want += excite([(2 * a + s, 2 * i + s)], t1, anti) + excite([(2 * a + s, 2 * i + s), (2 * a + 1 - s, 2 * i + 1 - s)], t2, anti)
                for ((a, i), (b, j)), t2 in zip(itertools.combinations(ps, 2), x[2 * k:]):
                    for s, u in itertools.product((0, 1), repeat=2):
                        want += excite([(2 * a + s, 2 * i + s), (2 * b + u, 2 * j + u)], t2, anti)
                for amp in (x, np.array(x)):
                    before = list(amp)
                    same(t, uccsd_singlet_generator(amp, n, e, anti), want, f"generator (anti-Hermitian={anti})")
                    t.eq(list(amp), before, "amplitudes unchanged")
            same(t, uccsd_singlet_generator(x, n, e), uccsd_singlet_generator(x, n, e, anti_hermitian=True).terms.items(), "anti-Hermitian by default")
            if n <= 8:
                a, b = np.zeros((n,) * 2), np.zeros((n,) * 4)
                # spatial amplitudes in arrays: what the packing must pick up
                for (v, o), t1, t2 in zip(ps, x, x[k:]):
                    for s in (0, 1):
                        a[2 * v + s, 2 * o + s] = t1
                        b[2 * v + s, 2 * o + s, 2 * v + 1 - s, 2 * o + 1 - s] = t2
                for ((v, o), (w, q)), t2 in zip(itertools.combinations(ps, 2), x[2 * k:]):
                    for s, u in itertools.product((0, 1), repeat=2):
                        b[2 * v + s, 2 * o + s, 2 * w + u, 2 * q + u] = t2
                t.eq([float(y) for y in uccsd_singlet_get_packed_amplitudes(a, b, n, e)], x, "packed amplitudes")
                c = r.random()
                other = np.array([[r.random() for _ in range(n)] for _ in range(n)])
                y = [float(z) for z in uccsd_singlet_get_packed_amplitudes(other, c * b, n, e)]
                t.eq(y, [other[2 * v, 2 * o] for v, o in ps] + [c * z for z in x[k:]], "packed amplitudes of other arrays")
    for n in (1, 3, 5):
        with t.case(f"odd number of spin orbitals {n}"):
            t.raises(ValueError, lambda: uccsd_singlet_paramsize(n, 2), "paramsize")
            t.raises(ValueError, lambda: uccsd_singlet_generator([0.1] * 5, n, 2), "generator")
    for n, e in ((4, 2), (6, 2), (6, 4)):
        with t.case(f"spin of the generator of {e} electrons in {n} spin orbitals"):
            x = [r.uniform(-1, 1) for _ in range(uccsd_singlet_paramsize(n, e))]
            g = O.matrix(uccsd_singlet_generator(x, n, e), n)
            F = lambda i, a: O.factor_matrix("fermion", (i, a), n)
            up = sum(F(2 * p, 1) @ F(2 * p + 1, 0) for p in range(n // 2))
            sz = sum(F(2 * p, 1) @ F(2 * p, 0) - F(2 * p + 1, 1) @ F(2 * p + 1, 0) for p in range(n // 2)) / 2
            num = sum(F(i, 1) @ F(i, 0) for i in range(n))
            for m, why in ((num, "number of particles"), (sz, "z component of spin"), (up @ up.conj().T - sz + sz @ sz, "total spin")):
                t.close(g @ m, m @ g, f"commutes with the {why}")
            t.close(g, -g.conj().T, "anti-Hermitian")
