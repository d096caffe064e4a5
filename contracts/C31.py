"""C31: lattice Hamiltonians and coupled-cluster generators.

Oracle: the defining sums - over the edges and sites of the grid graph, over excitations between orbitals - written as
ladder words and compared after normal ordering (operators are equal when their normal forms are)."""
from itertools import combinations, product as cart
from pyvc.contract import Property
from pyvc.loops import Act
from .spec import *
from .C16 import CLS, number, parts, plus, small, times
from .C17 import entry, same_number, tensor, zint
from .C18 import ONE2, ZERO2, in_normal_form, num, sizable, turn

P = Property("C31")
OF = C + "openfermion."
HU, SP, GH, CC, IX = (OF + x + ":" for x in ("hamiltonians.hubbard", "hamiltonians.special_operators", "hamiltonians.general_hubbard", "circuits.unitary_cc", "utils.indexing"))


def away(v, *xs):
    """not negligible (terms below the tolerance are dropped from sums)"""
    for x in xs:
        v.assume(z3.Or(x >= z3.Q(1, 1000), x <= z3.Q(-1, 1000)))


def word_sum(v, o, why):
    """{word: coefficient} of a fermion operator with concrete factors"""
    it = v.it
    v.prove(isinstance(o, VObj) and o.cls is v.fn(CLS["fermion"]), why + ": a fermion operator")
    out = {}
    for t, x in it.heap[it.getattr(o, "terms").ref]:
        w = it.as_seq(t).concrete()
        if w is None or not all(isinstance(f, tuple) and isinstance(f[0], int) and isinstance(f[1], int) for f in w):
            raise Unsupported("factors of a fermion operator")
        w = tuple(w)
        out[w] = plus(out.get(w, ZERO2), parts(it, x))
    return out


def add(out, w, x):
    out[w] = plus(out[w], x) if w in out else x


def same_operator(v, o, want, why):
    a, b = in_normal_form(word_sum(v, o, why)), in_normal_form(want)
    for w in sorted(set(a) | set(b)):
        same_number(v, a.get(w, ZERO2), b.get(w, ZERO2), f"{why}: coefficient of {w}")


def re(x):
    return (to_z3_real(x), z3.RealVal(0))


def n_(i):
    return ((i, 1), (i, 0))


def edges(X, Y, periodic):
    out = set()
    for cx, cy in cart(range(X), range(Y)):
        for dx, dy in ((1, 0), (0, 1)):
            nx, ny = cx + dx, cy + dy
            if periodic:
                nx, ny = nx % X, ny % Y
            if nx < X and ny < Y and (nx, ny) != (cx, cy):
                out.add(frozenset((cx + X * cy, nx + X * ny)))
    return sorted(tuple(sorted(e)) for e in out)


def interaction(out, i, j, u, phs):
    add(out, n_(i) + n_(j), u)
    if phs:
        half = times(num(-H2), u)
        add(out, n_(i), half)
        add(out, n_(j), half)
        add(out, (), times(num(H2 * H2), u))


def model(X, Y, t, U_, mu, h, periodic, spinless, phs):
    out = {}
    for i, j in edges(X, Y, periodic):
        for a, b in ([(i, j)] if spinless else [(2 * i, 2 * j), (2 * i + 1, 2 * j + 1)]):
            add(out, ((a, 1), (b, 0)), turn(t, 2))
            add(out, ((b, 1), (a, 0)), turn(t, 2))
        if spinless:
            interaction(out, i, j, U_, phs)
    for i in range(X * Y):
        if spinless:
            add(out, n_(i), turn(mu, 2))
        else:
            interaction(out, 2 * i, 2 * i + 1, U_, phs)
            add(out, n_(2 * i), turn(plus(mu, h), 2))
            add(out, n_(2 * i + 1), plus(turn(mu, 2), h))
    return out


HUB = [HU + x for x in ("fermi_hubbard", "_spinful_fermi_hubbard_model", "_spinless_fermi_hubbard_model", "_hopping_term", "_coulomb_interaction_term", "_right_neighbor", "_bottom_neighbor")] + [SP + "number_operator", IX + "up_index", IX + "down_index"]

for _x, _y in ((1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3), (4, 1), (1, 4), (4, 2), (2, 4)):
    for _spinless in (False, True):
        if _x * _y > (9 if _spinless else 6):
            continue
        def _mk(X, Y, spinless):
            @P.obligation(f"{'spinless' if spinless else 'spinful'} Hubbard model on a {X} x {Y} grid: every edge, site and boundary condition of its definition", targets=HUB,
                          bound=f"{X} x {Y} sites; any amplitudes whose partial sums are not negligible", budget=300)
            def _(v):
                it = v.it
                small(v)
                t, u, mu, h = (v.real(x) for x in ("t", "U", "mu", "h"))
                for x in (t, u):
                    v.assume(x >= 1)
                v.assume(mu >= 20 * u)
                v.assume(h >= 20 * mu)
                periodic = v.choose((True, False), "periodic")
                phs = v.choose((False, True), "particle-hole symmetric")
                how = v.choose(("keywords", "defaults"), "arguments") if periodic and not phs and not spinless else "keywords"
                if how == "keywords":
                    r = v.call(HU + "fermi_hubbard", X, Y, t, u, chemical_potential=mu, magnetic_field=h, periodic=periodic, spinless=spinless, particle_hole_symmetry=phs)
                    want = model(X, Y, re(t), re(u), re(mu), re(h), periodic, spinless, phs)
                else:
                    r = v.call(HU + "fermi_hubbard", X, Y, t, u)
                    want = model(X, Y, re(t), re(u), re(0), re(0), True, False, False)
                same_operator(v, r, want, "model")
        _mk(_x, _y, _spinless)


# ------------------------------------------------------------------ any lattice
class Sums:
    """contract of fermion operators built from terms: the sequence of (ladder word, coefficient) added up so far"""
    def __init__(self, v):
        self.v, self.it = v, v.it
        v.it.act_ops = {("sum", "+"): self.plus}
        v.contract(CLS["fermion"], self.make)

    def make(self, it, a, k):
        d = dict(zip(["term", "coefficient"], a), **k)
        if d.get("term") is None:
            return Act("sum", "zero", Seq())
        return Act("sum", "zero", Seq.of([(d["term"], d.get("coefficient", 1))]))

    def plus(self, it, a, b):
        if not all(isinstance(x, Act) and x.tag == "sum" for x in (a, b)):
            raise Unsupported("sum of operators")
        return Act("sum", "zero", a.seq + b.seq)

    def interaction(self, it, a, k):
        d = dict(zip(["n_sites", "i", "j", "coefficient", "particle_hole_symmetry"], a), **k)
        i, j, u, phs = (d[x] for x in ("i", "j", "coefficient", "particle_hole_symmetry"))
        if not isinstance(phs, bool):
            raise Unsupported("flag")
        return Act("sum", "zero", Seq.of(interaction_words(i, j, u, phs)))

    def per_index(self, o):
        """what an arbitrary iteration adds: (number of iterations, index, [(condition, [(word, coefficient)])])"""
        if not isinstance(o, Act) or o.tag != "sum" or len(o.seq.segs) != 1 or not isinstance(o.seq.segs[0], Comp):
            raise Unsupported("operator is not one sum over sites")
        g = o.seq.segs[0]
        return g.n, g.idx, g.cases


def interaction_words(i, j, u, phs):
    w = [(n_(i) + n_(j), u)]
    if phs:
        w += [(n_(i), -u / 2), (n_(j), -u / 2), ((), u / 4)]
    return w


def euclid(v, a, q, m, X):
    """a = q * X + m with 0 <= m < X: then a // X = q and a % X = m (uniqueness of Euclidean division, proved as a lemma below)"""
    v.assume(z3.Implies(z3.And(a == q * X + m, 0 <= m, m < X, X >= 1), z3.And(a % X == m, a / X == q)))


@P.obligation("lemma: quotient and remainder are unique", targets=[])
def _(v):
    X, q, m, q2, m2 = (z3.Int(x) for x in ("X", "q", "m", "q2", "m2"))
    v.assume(z3.And(X >= 1, 0 <= m, m < X, 0 <= m2, m2 < X, q * X + m == q2 * X + m2))
    # (q - q2) * X = m2 - m lies strictly between -X and X
    d = z3.Int("d")
    v.assume(d == q - q2)
    v.prove(d * X == m2 - m, "difference")
    v.assume(d * X == m2 - m)
    for s in (1, -1):
        v.prove(z3.Implies(s * d >= 1, s * d * X >= X), "a multiple of X that is not 0 is at least X")
        v.assume(z3.Implies(s * d >= 1, s * d * X >= X))
    v.prove(z3.And(q == q2, m == m2), "unique")


def same_words(v, got, want, why):
    """two lists of (word, coefficient) add up to the same: words are matched syntactically up to equal indices"""
    it = v.it
    groups = []
    for sign, items in ((1, got), (-1, want)):
        for w, x in items:
            fs = it.as_seq(w).concrete()
            if fs is None or not all(isinstance(f, tuple) and isinstance(f[1], int) for f in fs):
                raise Unsupported("word")
            x = to_z3_real(x)
            for g in groups:
                if len(g[0]) == len(fs) and all(a[1] == b[1] for a, b in zip(g[0], fs)) and it.valid(z3.And(*[zint(a[0]) == zint(b[0]) for a, b in zip(g[0], fs)])):
                    g[1] = g[1] + sign * x
                    break
            else:
                groups.append([fs, sign * x])
    for w, x in groups:
        v.prove(x == 0, f"{why}: coefficient of a word with actions {[f[1] for f in w]}")


WIDTHS = {"1": lambda X: X == 1, "2": lambda X: X == 2, "3 or more": lambda X: X >= 3}

for _spinless, _phs, _periodic, _width in cart((False, True), (False, True), (False, True), WIDTHS):
    if True:
        if True:
            def _mk(spinless, phs, periodic, width):
                @P.obligation(f"{'spinless' if spinless else 'spinful'} Hubbard model{', particle-hole symmetric' if phs else ''}, {'periodic' if periodic else 'open'}: what an arbitrary site of a grid of width {width} and any height adds", targets=HUB, budget=200)
                def _(v):
                    it = v.it
                    X, Y, c_, r = v.int("X", 1), v.int("Y", 1), v.int("column", 0), v.int("row", 0)
                    v.assume(WIDTHS[width](X))
                    t, u, mu, h = (v.real(x) for x in ("t", "U", "mu", "h"))
                    S = Sums(v)
                    v.contract(HU + "_coulomb_interaction_term", S.interaction)
                    o = v.call(HU + "fermi_hubbard", X, Y, t, u, chemical_potential=mu, magnetic_field=h, periodic=periodic, spinless=spinless, particle_hole_symmetry=phs)
                    n, idx, cases = S.per_index(o)
                    v.prove(zint(n) == X * Y, "one contribution per site")
                    v.assume(z3.And(c_ < X, r < Y, idx == r * X + c_))
                    # facts of integer arithmetic (products of unknowns)
                    euclid(v, idx, r, c_, X)
                    euclid(v, idx + 1, r, c_ + 1, X)
                    euclid(v, idx + 1, r + 1, z3.IntVal(0), X)
                    v.assume(z3.Implies(r + 1 < Y, (r + 1) * X + X <= X * Y))
                    v.assume(z3.Implies(r + 1 == Y, X * Y == r * X + X))
                    v.assume(z3.Implies(r >= 1, r * X >= X))
                    v.assume(z3.Implies(r == 0, r * X == 0))
                    right = z3.If(c_ + 1 < X, idx + 1, idx + 1 - X)
                    down = z3.If(r + 1 < Y, idx + X, idx + X - X * Y)
                    has_right = z3.Or(c_ + 1 < X, z3.And(z3.BoolVal(periodic), X >= 3))
                    has_down = z3.Or(r + 1 < Y, z3.And(z3.BoolVal(periodic), Y >= 3))
                    if it.decide(has_right):
                        hr = [right]
                    else:
                        hr = []
                    hd = [down] if it.decide(has_down) else []
                    want = []
                    for j in hr + hd:
                        for a, b in [(idx, j)] if spinless else [(2 * idx, 2 * j), (2 * idx + 1, 2 * j + 1)]:
                            want += [(((a, 1), (b, 0)), -t), (((b, 1), (a, 0)), -t)]
                        if spinless:
                            want += interaction_words(idx, j, u, phs)
                    if spinless:
                        want += [(n_(idx), -mu)]
                    else:
                        want += interaction_words(2 * idx, 2 * idx + 1, u, phs) + [(n_(2 * idx), -mu - h), (n_(2 * idx + 1), -mu + h)]
                    for cond, items in cases:
                        if it.decide(to_z3_bool(cond)):
                            if not all(isinstance(u_, Unit) for u_ in items):
                                raise Unsupported("terms of a site")
                            same_words(v, [u_.v for u_ in items], want, "site")
                            break
                    else:
                        raise Unsupported("no case")
            _mk(_spinless, _phs, _periodic, _width)


@P.obligation("lemma: the edges right of and below the sites are the edges of the grid, each once", targets=[])
def _(v):
    X, Y = v.int("X", 1), v.int("Y", 1)
    periodic = v.bool("periodic")
    site = [(v.int(f"c{i}", 0), v.int(f"r{i}", 0)) for i in range(2)]
    for c_, r in site:
        v.assume(z3.And(c_ < X, r < Y))
    ends = []
    for (c_, r), kind in zip(site, (v.choose("rd", "first"), v.choose("rd", "second"))):
        if kind == "r":
            v.assume(z3.Or(c_ + 1 < X, z3.And(periodic, X >= 3)))
            ends.append((kind, (c_, r), (z3.If(c_ + 1 < X, c_ + 1, 0), r)))
        else:
            v.assume(z3.Or(r + 1 < Y, z3.And(periodic, Y >= 3)))
            ends.append((kind, (c_, r), (c_, z3.If(r + 1 < Y, r + 1, 0))))
    eq = lambda a, b: z3.And(a[0] == b[0], a[1] == b[1])
    (k1, a1, b1), (k2, a2, b2) = ends
    v.prove(z3.Not(eq(a1, b1)), "an edge joins two sites")
    same = z3.Or(z3.And(eq(a1, a2), eq(b1, b2)), z3.And(eq(a1, b2), eq(b1, a2)))
    v.prove(z3.Implies(same, z3.And(z3.BoolVal(k1 == k2), eq(a1, a2))), "no edge twice")


@P.obligation("interaction term: the product of the (shifted) number operators times its coefficient", targets=[HU + "_coulomb_interaction_term", SP + "number_operator"], bound="sites 0 to 2, any coefficient")
def _(v):
    small(v)
    u = v.real("U")
    away(v, u)
    i, j = v.choose([(0, 1), (1, 0), (2, 0), (1, 1)], "sites")
    phs = v.choose((False, True), "particle-hole symmetric")
    want = {}
    interaction(want, i, j, re(u), phs)
    same_operator(v, v.call(HU + "_coulomb_interaction_term", 3, i, j, u, phs), want, "interaction")


@P.obligation("number operators: one mode or all of them, any coefficient; other statistics are rejected", targets=[SP + "number_operator", GH + "number_operator", GH + "interaction_operator"], bound="up to 4 modes, any coefficient that is not negligible")
def _(v):
    it = v.it
    small(v)
    c_ = v.real("c")
    away(v, c_)
    n = v.choose(range(5), "modes")
    f = SP + "number_operator"
    same_operator(v, v.call(f, n), {n_(i): ONE2 for i in range(n)}, "all modes, unit coefficient")
    same_operator(v, v.call(f, n, coefficient=c_), {n_(i): re(c_) for i in range(n)}, "all modes")
    for i in range(n):
        same_operator(v, v.call(f, n, i, c_), {n_(i): re(c_)}, "one mode")
        same_operator(v, v.call(f, n, mode=i), {n_(i): ONE2}, "one mode, unit coefficient")
        same_operator(v, v.call(GH + "number_operator", i, c_), {n_(i): re(c_)}, "number operator of a site")
        same_operator(v, v.call(GH + "number_operator", i, particle_hole_symmetry=True), {n_(i): ONE2, (): num(-H2)}, "shifted number operator")
        for j in range(n):
            same_operator(v, v.call(GH + "interaction_operator", i, j, c_), {n_(i) + n_(j): re(c_)}, "interaction of sites")
            want = {}
            interaction(want, i, j, ONE2, True)
            same_operator(v, v.call(GH + "interaction_operator", i, j, particle_hole_symmetry=True), want, "shifted interaction")
    for p in (1, 0, 2):
        v.raises(ValueError, lambda: v.call(f, 2, 0, parity=p), "parity")


@P.obligation("orbital indices: up and down spin orbitals interleaved; up-then-down order sorts even before odd modes", targets=[IX + "up_index", IX + "down_index"])
def _(v):
    i = v.int("i", 0)
    v.prove(zint(v.call(IX + "up_index", i)) == 2 * i, "up")
    v.prove(zint(v.call(IX + "down_index", i)) == 2 * i + 1, "down")


@P.obligation("up-then-down order: even modes first, then odd ones", targets=[IX + "up_then_down"], bound="up to 9 modes")
def _(v):
    for n in range(1, 10):
        order = list(range(0, n, 2)) + list(range(1, n, 2))
        for k, m in enumerate(order):
            v.prove(v.it.eq(v.call(IX + "up_then_down", m, n), k) is True, f"mode {m} of {n}")


# ------------------------------------------------------------------ coupled cluster
def excitation(out, pairs, x, anti):
    """x * product of a+_i a_j, minus its conjugate"""
    w = sum((((i, 1), (j, 0)) for i, j in pairs), ())
    add(out, w, x)
    if anti:
        add(out, tuple((m, 1 - a) for m, a in reversed(w)), turn(x, 2))


@P.obligation("coupled-cluster generator from lists of amplitudes: every excitation minus its conjugate", targets=[CC + "uccsd_generator"], bound="up to 3 amplitudes on orbitals 0 to 5 (repeated ones too), any values that are not negligible", budget=100)
def _(v):
    it = v.it
    small(v)
    anti = v.choose((True, False), "anti-Hermitian")
    S, D = v.choose([((), ()), (((0, 1),), ()), (((2, 0), (3, 1)), ((2, 0, 3, 1),)), ((), ((2, 0, 3, 1), (4, 0, 5, 1), (4, 2, 5, 3))), (((1, 0), (0, 1)), ()), (((4, 0), (4, 0), (5, 1)), ((2, 1, 3, 0), (2, 1, 3, 0)))], "excitations")
    t1 = [v.real(f"s{i}") for i in range(len(S))]
    t2 = [v.real(f"d{i}") for i in range(len(D))]
    for i, x in enumerate(t1 + t2):
        v.assume(x >= 4 ** i)
    v.assume(z3.And(*[b >= 3 * a for l in (t1, t2) for a, b in zip(l, l[1:])]))
    lists = [v.list([v.list([v.list(list(ix)), x]) for ix, x in zip(I, T)]) for I, T in ((S, t1), (D, t2))]
    r = v.call(CC + "uccsd_generator", *lists, *([] if anti else [False]))
    want = {}
    for ix, x in zip(S, t1):
        excitation(want, [ix], re(x), anti)
    for ix, x in zip(D, t2):
        excitation(want, [ix[:2], ix[2:]], re(x), anti)
    same_operator(v, r, want, "generator")


@P.obligation("amplitudes as arrays stand for their non-zero entries", targets=[CC + "uccsd_convert_amplitude_format", CC + "uccsd_generator"], bound="2 orbitals, up to 4 non-zero entries, any values", budget=100)
def _(v):
    it = v.it
    small(v)
    n = 2
    A, B = v.choose([([], []), ([(1, 0)], []), ([(0, 1), (1, 1)], [(1, 0, 1, 0)]), ([], [(0, 0, 1, 1), (1, 0, 0, 1), (0, 1, 1, 0)])], "entries")
    vals = {ix: v.real("x" + "".join(map(str, ix))) for ix in A + B}
    for i, x in enumerate(vals.values()):
        v.assume(x >= 1)
    for a, b in combinations(list(vals.values()), 2):
        v.assume(b >= 8 * a)
    arr = lambda k: it.new_arr([vals.get(ix, 0) for ix in cart(range(n), repeat=k)], (n,) * k)
    s, d = v.call(CC + "uccsd_convert_amplitude_format", arr(2), arr(4))
    for l, I in ((s, A), (d, B)):
        got = [it.as_seq(x).concrete() for x in it.as_seq(l).concrete()]
        got = [(tuple(it.as_seq(a).concrete()), x) for a, x in got]
        v.prove(sorted(ix for ix, _ in got) == sorted(I), "non-zero entries")
        for ix, x in got:
            v.prove(to_z3_real(x) == vals[ix], "amplitude")
    want = {}
    for ix in A:
        excitation(want, [ix], re(vals[ix]), True)
    for ix in B:
        excitation(want, [ix[:2], ix[2:]], re(vals[ix]), True)
    same_operator(v, v.call(CC + "uccsd_generator", arr(2), arr(4)), want, "generator")


SYSTEMS = ((2, 1), (4, 1), (4, 2), (4, 3), (4, 4), (6, 2), (6, 3), (6, 4), (8, 4), (8, 2))


def pairs_of(n, e):
    occ = (e + 1) // 2
    return [(occ + p, q) for p in range(n // 2 - occ) for q in range(occ)]


@P.obligation("number of singlet amplitudes: one per pair, one per square and one per pair of pairs; odd numbers of spin orbitals are rejected", targets=[CC + "uccsd_singlet_paramsize"], bound="up to 12 spin orbitals and any number of electrons in them")
def _(v):
    for n in range(0, 14, 2):
        for e in range(0, n + 1):
            k = len(pairs_of(n, e))
            v.prove(v.it.eq(v.call(CC + "uccsd_singlet_paramsize", n, e), 2 * k + k * (k - 1) // 2) is True, f"{n}, {e}")
    v.raises(ValueError, lambda: v.call(CC + "uccsd_singlet_paramsize", 3, 2), "odd number of spin orbitals")
    v.raises(ValueError, lambda: v.call(CC + "uccsd_singlet_generator", v.list([]), 3, 2), "odd number of spin orbitals")


for _n, _e in SYSTEMS:
    if (_n, _e) == (8, 4):
        continue

    def _mk(n, e):
        @P.obligation(f"singlet generator of {e} electrons in {n} spin orbitals: spin-summed excitations, their squares and products, minus conjugates", targets=[CC + "uccsd_singlet_generator", IX + "up_index", IX + "down_index"],
                      bound="any amplitudes that are not negligible", budget=200)
        def _(v):
            it = v.it
            small(v)
            anti = v.choose((True, False), "anti-Hermitian")
            ps = pairs_of(n, e)
            k = len(ps)
            x = [v.real(f"x{i}") for i in range(2 * k + k * (k - 1) // 2)]
            for y in x:
                v.assume(y >= 1)
            v.assume(z3.And(*[b >= 2 * a for a, b in zip(x, x[1:])]))
            want = {}
            for (a, i), t1, t2 in zip(ps, x, x[k:]):
                for s in (0, 1):
                    excitation(want, [(2 * a + s, 2 * i + s)], re(t1), anti)
                    excitation(want, [(2 * a + s, 2 * i + s), (2 * a + 1 - s, 2 * i + 1 - s)], re(t2), anti)
            for ((a, i), (b, j)), t2 in zip(combinations(ps, 2), x[2 * k:]):
                for s, u in cart((0, 1), repeat=2):
                    excitation(want, [(2 * a + s, 2 * i + s), (2 * b + u, 2 * j + u)], re(t2), anti)
            r = v.call(CC + "uccsd_singlet_generator", v.list(x) if n == 4 else it.new_arr(x, (len(x),)), n, e, *([] if anti else [False]))
            same_operator(v, r, want, "generator")
    _mk(_n, _e)


for _n, _e in ((2, 1), (4, 1), (4, 2), (4, 3), (4, 4), (6, 2), (6, 4)):
    def _mk(n, e):
        @P.obligation(f"packed amplitudes of {e} electrons in {n} spin orbitals: those of every pair, square and pair of pairs in the generator's order", targets=[CC + "uccsd_singlet_get_packed_amplitudes"], bound="any amplitudes")
        def _(v):
            it = v.it
            T = {k: {} for k in (2, 4)}
            arr = {}
            for k in (2, 4):
                for ix in cart(range(n), repeat=k):
                    T[k][ix] = z3.Real("t" + "_".join(map(str, ix)))
                arr[k] = it.new_arr(list(T[k].values()), (n,) * k)
            r = it.as_seq(v.call(CC + "uccsd_singlet_get_packed_amplitudes", arr[2], arr[4], n, e)).concrete()
            ps = pairs_of(n, e)
            want = [T[2][2 * a, 2 * i] for a, i in ps] + [T[4][2 * a, 2 * i, 2 * a + 1, 2 * i + 1] for a, i in ps] + [T[4][2 * a, 2 * i, 2 * b, 2 * j] for (a, i), (b, j) in combinations(ps, 2)]
            v.prove(len(r) == len(want), "number of amplitudes")
            for i, (x, y) in enumerate(zip(r, want)):
                v.prove(to_z3_real(x) == y, f"amplitude {i}")
    _mk(_n, _e)
