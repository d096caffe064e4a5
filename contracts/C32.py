"""C32: molecular integrals, reduced Hamiltonians and density matrices.

Oracle: the second-quantized operator as a sum of ladder words; states of the core are projected out factor by factor, operators
are compared in normal form or by their matrix elements between occupation-number states; expectation values are a linear
functional on normal-ordered words."""
from itertools import combinations, product as cart
from pyvc.contract import Property
from .spec import *
from .C16 import CLS, number, parts, plus, small, times
from .C17 import OPS, entry, normal_form, same_number, tensor, zint
from .C18 import ONE2, ZERO2, frozen_value, image, images, in_normal_form, num, turn
from .C31 import add, away, re

P = Property("C32")
OF = C + "openfermion."
IO, RDM, MR, MD, RH = (OF + x + ":" for x in ("ops.representations.interaction_operator", "ops.representations.interaction_rdm", "measurements.get_interaction_rdm", "chem.molecular_data", "chem.reduced_hamiltonian"))
MOL = MD + "MolecularData"


def canonical(ix):
    """the eight equal entries of two-electron integrals of real orbitals, in the ordering (p q | r s) = phi_p(x) phi_q(y) phi_r(y) phi_s(x)"""
    p, q, r, s = ix
    return min((p, q, r, s), (q, p, s, r), (s, r, q, p), (r, s, p, q), (p, r, q, s), (r, p, s, q), (s, q, r, p), (q, s, p, r))


def integrals(v, n, symmetric):
    it = v.it
    h, g = {}, {}
    for ix in cart(range(n), repeat=2):
        k = tuple(sorted(ix)) if symmetric else ix
        h[ix] = z3.Real("h" + "_".join(map(str, k)))
    for ix in cart(range(n), repeat=4):
        k = canonical(ix) if symmetric else ix
        g[ix] = z3.Real("g" + "_".join(map(str, k)))
    arr = lambda t, k: it.new_arr(list(t.values()), (n,) * k)
    return h, g, arr(h, 2), arr(g, 4)


def spin_sum(h, g, n, factor=H2):
    """words of sum h a+ a + factor * sum g a+ a+ a a over spins, on spin orbitals 2 p + spin"""
    out = {}
    for p, q in cart(range(n), repeat=2):
        for s in (0, 1):
            add(out, ((2 * p + s, 1), (2 * q + s, 0)), re(h[p, q]))
    for p, q, r, s in cart(range(n), repeat=4):
        for a, b in cart((0, 1), repeat=2):
            add(out, ((2 * p + a, 1), (2 * q + b, 1), (2 * r + b, 0), (2 * s + a, 0)), times(num(factor), re(g[p, q, r, s])))
    return out


def words_of(v, one, two, n):
    out = {}
    for ix in cart(range(n), repeat=2):
        out[(ix[0], 1), (ix[1], 0)] = entry(v, one, ix)
    for p, q, r, s in cart(range(n), repeat=4):
        out[(p, 1), (q, 1), (r, 0), (s, 0)] = entry(v, two, (p, q, r, s))
    return out


def unchanged(v, arr, t, why):
    for ix, x in t.items():
        v.prove(entry(v, arr, ix)[0] == x, why + " unchanged")


def same_words(v, got, want, why):
    a, b = in_normal_form(got), in_normal_form(want)
    for w in sorted(set(a) | set(b)):
        same_number(v, a.get(w, ZERO2), b.get(w, ZERO2), f"{why}: {w}")


for _n in (1, 2, 3):
    for _f, _factor in (("get_tensors_from_integrals", 1), ("spinorb_from_spatial", 2)):
        def _mk(n, f, factor):
            @P.obligation(f"{f} on {n} orbital(s): the spin-summed operator, nothing else", targets=[(IO if factor == 1 else MD) + f], bound=f"{n} orbitals; any real integrals that are not negligible", budget=100)
            def _(v):
                it = v.it
                h, g, H, G = integrals(v, n, False)
                for x in list(h.values()) + list(g.values()):
                    v.assume(x >= z3.Q(1, 1000)) if n > 1 else away(v, x)
                one, two = v.call((IO if factor == 1 else MD) + f, H, G)
                same_words(v, words_of(v, one, two, 2 * n), spin_sum(h, g, n, H2 * factor), "operator")
                for (p, q), x in h.items():
                    for s in (0, 1):
                        v.prove(entry(v, one, (2 * p + s, 2 * q + s))[0] == x, "one-body entry")
                unchanged(v, H, h, "integrals")
                unchanged(v, G, g, "integrals")
        _mk(_n, _f, _factor)


def restricted(words, occupied, empty):
    """the operator between states with the given spin orbitals occupied and empty"""
    for m, occ in [(m, 1) for m in occupied] + [(m, 0) for m in empty]:
        out = {}
        for w, x in words.items():
            fv = frozen_value([("f" if i == m else i, a) for i, a in w], occ)
            if fv is not None:
                add(out, fv[1], x if fv[0] == 1 else turn(x, 2))
        words = out
    return words


SPACES = [(1, (), (0,)), (2, (), (0, 1)), (2, (0,), (1,)), (2, (1,), (0,)), (2, (), (1,)), (3, (0,), (1, 2)), (3, (0, 1), (2,)), (3, (1,), (2, 0)), (3, (2, 0), (1,)), (3, (0,), (2,)), (4, (0, 1), (2, 3)), (4, (2,), (3, 1))]

for _n, _occ, _act in SPACES:
    def _mk(n, occ, act):
        @P.obligation(f"active space {act} with core {occ} of {n} orbitals: the matrix elements of the full operator between states with that core", targets=[IO + "get_active_space_integrals"], bound=f"{n} orbitals; any integrals with the symmetries of real orbitals", budget=200)
        def _(v):
            it = v.it
            h, g, H, G = integrals(v, n, True)
            if occ == () and it.decide(v.bool("no core given")):
                r = v.call(IO + "get_active_space_integrals", H, G, active_indices=v.list(list(act)))
            else:
                r = v.call(IO + "get_active_space_integrals", H, G, v.list(list(occ)), v.list(list(act)))
            con, H2_, G2 = it.as_seq(r).concrete()
            m = len(act)
            h2 = {ix: entry(v, H2_, ix)[0] for ix in cart(range(m), repeat=2)}
            g2 = {ix: entry(v, G2, ix)[0] for ix in cart(range(m), repeat=4)}
            got = spin_sum(h2, g2, m)
            add(got, (), parts(it, con))
            spin = lambda orbitals: [2 * p + s for p in orbitals for s in (0, 1)]
            want = restricted(spin_sum(h, g, n), spin(occ), spin([p for p in range(n) if p not in occ + act]))
            place = {2 * p + s: 2 * i + s for i, p in enumerate(act) for s in (0, 1)}
            same_words(v, got, {tuple((place[i], a) for i, a in w): x for w, x in want.items()}, "operator")
            unchanged(v, H, h, "integrals")
            unchanged(v, G, g, "integrals")
            v.raises(ValueError, lambda: v.call(IO + "get_active_space_integrals", H, G, v.list([0]), v.list([])), "no active orbitals")
    _mk(_n, _occ, _act)


for _n, _occ, _act in ((1, None, None), (2, None, None), (2, (0,), (1,)), (2, None, (1,)), (3, (0,), (2,))):
    def _mk(n, occ, act):
        @P.obligation(f"Hamiltonian of a molecule with {n} orbitals, core {occ}, active {act}: nuclear repulsion plus the (restricted) operator", targets=[MOL + ".get_molecular_hamiltonian", MOL + ".get_active_space_integrals", MOL + ".get_integrals", MD + "spinorb_from_spatial"],
                      bound=f"{n} orbitals; any positive integrals with the symmetries of real orbitals whose restricted entries are not negligible", budget=200)
        def _(v):
            it = v.it
            h, g, H, G = integrals(v, n, True)
            con = v.real("repulsion")
            for x in list(g.values()):
                v.assume(z3.And(x >= 1, x <= 2))
            for x in list(h.values()):
                v.assume(x >= 20)
            mol = it.new_obj(v.fn(MOL), {"_one_body_integrals": H, "_two_body_integrals": G, "nuclear_repulsion": con, "filename": "nowhere"})
            if occ is None and act is None:
                r = v.call(v.attr(mol, "get_molecular_hamiltonian"))
            elif occ is None:
                r = v.call(v.attr(mol, "get_molecular_hamiltonian"), active_indices=v.list(list(act)))
            else:
                r = v.call(v.attr(mol, "get_molecular_hamiltonian"), v.list(list(occ)), v.list(list(act)))
            v.prove(isinstance(r, VObj) and r.cls is v.fn(OPS), "an interaction operator")
            core, active = occ or (), tuple(range(n)) if act is None else act
            m = len(active)
            got = words_of(v, v.attr(r, "one_body_tensor"), v.attr(r, "two_body_tensor"), 2 * m)
            add(got, (), parts(it, v.attr(r, "constant")))
            spin = lambda orbitals: [2 * p + s for p in orbitals for s in (0, 1)]
            want = restricted(spin_sum(h, g, n), spin(core), spin([p for p in range(n) if p not in core + active]))
            place = {2 * p + s: 2 * i + s for i, p in enumerate(active) for s in (0, 1)}
            want = {tuple((place[i], a) for i, a in w): x for w, x in want.items()}
            add(want, (), re(con))
            same_words(v, got, want, "operator")
            unchanged(v, H, h, "integrals")
            unchanged(v, G, g, "integrals")
    _mk(_n, _occ, _act)


@P.obligation("numbers of alpha and beta electrons: their sum and difference", targets=[MOL + ".get_n_alpha_electrons", MOL + ".get_n_beta_electrons"])
def _(v):
    it = v.it
    n, m, k = v.int("electrons", 0), v.int("multiplicity", 1), v.int("k")
    v.assume(n + m - 1 == 2 * k)     # parities agree
    mol = it.new_obj(v.fn(MOL), {"n_electrons": n, "multiplicity": m})
    a, b = (zint(v.call(v.attr(mol, f"get_n_{x}_electrons"))) for x in ("alpha", "beta"))
    v.prove(a + b == n, "sum")
    v.prove(a - b == m - 1, "difference")


for _n in (1, 2, 3):
    def _mk(n):
        @P.obligation(f"Coulomb, exchange and antisymmetrized integrals of {n} orbitals", targets=[MD + "j_mat", MD + "k_mat", MD + "antisymtei"], bound=f"{n} orbitals; any integrals with the symmetries of real orbitals")
        def _(v):
            h, g, H, G = integrals(v, n, True)
            J, K, A = (v.call(MD + x, G) for x in ("j_mat", "k_mat", "antisymtei"))
            for p, q in cart(range(n), repeat=2):
                # chemist notation (pq|rs) = g[p, r, s, q]
                v.prove(entry(v, J, (p, q))[0] == g[p, q, q, p], "J = (pp|qq)")
                v.prove(entry(v, K, (p, q))[0] == g[p, q, p, q], "K = (pq|qp)")
            for p, q, r, s in cart(range(n), repeat=4):
                v.prove(entry(v, A, (p, q, r, s))[0] == g[p, q, s, r] - g[p, q, r, s], "<pq|rs> - <pq|sr>")
            unchanged(v, G, g, "integrals")
    _mk(_n)


# ------------------------------------------------------------------ reduced Hamiltonian
def element(word, bra, ket):
    """<bra| word |ket> of occupation-number states (tuples of 0 and 1)"""
    s, sign = list(ket), 1
    for m, a in reversed(word):
        if s[m] == a:
            return 0
        sign *= (-1) ** sum(s[:m])
        s[m] = a
    return sign if tuple(s) == bra else 0


for _n, _e in ((2, 2), (3, 2), (3, 3), (4, 2), (4, 3)):
    def _mk(n, e):
        @P.obligation(f"reduced Hamiltonian of {e} electrons in {n} modes: no one-body part, same matrix elements between {e}-electron states", targets=[RH + "make_reduced_hamiltonian"], bound=f"{n} modes, any complex tensors", budget=200)
        def _(v):
            it = v.it
            con = number(v, "constant", True)
            H, G = tensor(v, "h", n, 2, True), tensor(v, "g", n, 4, True)
            o = it.call(v.fn(OPS), [con, H, G], {})
            before = words_of(v, H, G, n)
            r = v.call(RH + "make_reduced_hamiltonian", o, e)
            v.prove(isinstance(r, VObj) and r.cls is v.fn(OPS) and r.ref != o.ref, "a new interaction operator")
            one, two = v.attr(r, "one_body_tensor"), v.attr(r, "two_body_tensor")
            for ix in cart(range(n), repeat=2):
                same_number(v, entry(v, one, ix), ZERO2, "no one-body part")
            same_number(v, parts(it, v.attr(r, "constant")), parts(it, con), "constant")
            got = words_of(v, one, two, n)
            states = [s for s in cart((0, 1), repeat=n) if sum(s) == e]
            for bra, ket in cart(states, repeat=2):
                sums = []
                for words in (got, before):
                    x = ZERO2
                    for w, c_ in words.items():
                        k = element(w, bra, ket)
                        if k:
                            x = plus(x, (k * c_[0], k * c_[1]))
                    sums.append(x)
                same_number(v, *sums, f"<{bra}|H|{ket}>")
            for w, x in words_of(v, v.attr(o, "one_body_tensor"), v.attr(o, "two_body_tensor"), n).items():
                same_number(v, x, before[w], "operator unchanged")
    _mk(_n, _e)


# ------------------------------------------------------------------ density matrices
def density(v, n):
    """reduced density matrices of a state: (operator object, functional on normal-ordered words)"""
    it = v.it
    d1 = {ix: number(v, f"D{ix[0]}{ix[1]}", True) for ix in cart(range(n), repeat=2)}
    d2 = {}
    for p, q in combinations(range(n), 2):
        for r, s in combinations(range(n), 2):
            x = number(v, f"D{p}{q}{r}{s}", True)
            y = SC(-x.re, -x.im)
            d2[q, p, s, r] = d2[p, q, r, s] = x
            d2[p, q, s, r] = d2[q, p, r, s] = y
    zero = SC(z3.RealVal(0), z3.RealVal(0))
    arr = lambda t, k: it.new_arr([t.get(ix, zero) for ix in cart(range(n), repeat=k)], (n,) * k)
    o = it.call(v.fn(RDM + "InteractionRDM"), [arr(d1, 2), arr(d2, 4)], {})

    def E(word):
        """expectation value of a word of at most two-body type"""
        out = ZERO2
        for w, k in normal_form(word).items():
            acts = [a for _, a in w]
            ix = tuple(m for m, _ in w)
            if sum(acts) * 2 != len(acts):
                continue
            if len(w) > 4:
                raise Unsupported("three-body word")
            x = ONE2 if not w else parts(it, d1[ix] if len(w) == 2 else d2.get(ix, zero))
            out = plus(out, (k * x[0], k * x[1]))
        return out
    return o, E


def two_body_words(n):
    yield ()
    for p, q in cart(range(n), repeat=2):
        for a, b in ((1, 0), (1, 1), (0, 0)):
            if a != b or p > q:
                yield (p, a), (q, b)
    for (q, p), (s, r) in cart(combinations(range(n), 2), repeat=2):
        yield (p, 1), (q, 1), (r, 0), (s, 0)
    if n <= 2:
        for p in range(n):
            for a in (0, 1):
                yield ((p, a),)
        for p, q in cart(range(n), repeat=2):
            for r in range(q):
                yield (p, 1), (q, 0), (r, 0)
                yield (q, 1), (r, 1), (p, 0)


for _n in (1, 2, 3):
    def _mk(n):
        @P.obligation(f"expectation values of Pauli strings from density matrices on {n} modes: those of the state, for every string in the image of a one- or two-body product", targets=[RDM + "InteractionRDM.get_qubit_expectations", RDM + "InteractionRDM.expectation"],
                      bound=f"{n} modes; any density matrices with the antisymmetry of fermions", budget=300)
        def _(v):
            it = v.it
            small(v)
            o, E = density(v, n)
            img = images(n, "jw")
            words = list(two_body_words(n))
            sums = {w: image(img, w) for w in words}
            strings = sorted({s for x in sums.values() for s in x})
            q = it.new_obj(v.fn(CLS["qubit"]), {"terms": it.new_dict([(s, Fraction(1, 2)) for s in strings])})
            r = v.call(v.attr(o, "get_qubit_expectations"), q)
            v.prove(isinstance(r, VObj) and r.cls is v.fn(CLS["qubit"]) and r.ref != q.ref, "a new qubit operator")
            got = {tuple(it.as_seq(t).concrete()): parts(it, x) for t, x in it.heap[it.getattr(r, "terms").ref]}
            v.prove(set(got) == set(strings), "the strings of the operator")
            for w in words:
                x = ZERO2
                for s, c_ in sums[w].items():
                    x = plus(x, times(c_, got[s]))
                same_number(v, x, E(w), f"expectation value of {w}")
            for t, x in it.heap[it.getattr(q, "terms").ref]:
                same_number(v, parts(it, x), num(H2), "operator unchanged")
            # linear in the operator
            few = strings[:3] + strings[-2:]
            cs = {s: number(v, f"c{i}", True) for i, s in enumerate(few)}
            q = it.new_obj(v.fn(CLS["qubit"]), {"terms": it.new_dict(list(cs.items()))})
            want = ZERO2
            for s, c_ in cs.items():
                want = plus(want, times(parts(it, c_), got[s]))
            same_number(v, parts(it, v.call(v.attr(o, "expectation"), q)), want, "expectation value of a sum")
    _mk(_n)


@P.obligation("strings with a three-body part are rejected, and so are other operators", targets=[RDM + "InteractionRDM.get_qubit_expectations", RDM + "InteractionRDM.expectation"], bound="3 and 4 modes")
def _(v):
    it = v.it
    small(v)
    o, E = density(v, 3)
    err = v.fn(RDM + "InteractionRDMError")
    q = it.new_obj(v.fn(CLS["qubit"]), {"terms": it.new_dict([(((0, "Z"), (1, "Z"), (2, "Z")), 1)])})
    v.raises(err, lambda: v.call(v.attr(o, "expectation"), q), "three-body string")
    for bad in (1, "Z0", it.new_obj(v.fn(CLS["fermion"]), {"terms": it.new_dict([])})):
        v.raises(err, lambda: v.call(v.attr(o, "expectation"), bad), "another operator")


for _n in (1, 2, 3):
    def _mk(n):
        @P.obligation(f"expectation value of an interaction operator on {n} modes: constant plus the contracted tensors", targets=[RDM + "InteractionRDM.expectation"], bound=f"{n} modes, any tensors")
        def _(v):
            it = v.it
            o, E = density(v, n)
            con = number(v, "constant", True)
            H, G = tensor(v, "h", n, 2, True), tensor(v, "g", n, 4, True)
            op = it.call(v.fn(OPS), [con, H, G], {})
            want = parts(it, con)
            for w, x in words_of(v, H, G, n).items():
                want = plus(want, times(x, E(w)))
            same_number(v, parts(it, v.call(v.attr(o, "expectation"), op)), want, "expectation value")
            same_number(v, parts(it, v.attr(op, "constant")), parts(it, con), "operator unchanged")
    _mk(_n)


for _n, _drop in ((1, None), (1, 0), (2, None), (2, 0), (2, 3), (2, 12)):
    def _mk(n, drop):
        @P.obligation(f"density matrices from the expectation values of Pauli strings on {n} qubits{'' if drop is None else f' without string {drop}'}", targets=[MR + "get_interaction_rdm"], bound=f"{n} qubits; any values of any strings", budget=300)
        def _(v):
            it = v.it
            small(v)
            strings = [tuple((i, p) for i, p in enumerate(s) if p != "I") for s in cart("IXYZ", repeat=n)]
            vals = {s: number(v, "q" + "".join(p for _, p in s) + "".join(str(i) for i, _ in s), True) for k, s in enumerate(strings) if k != drop}
            q = it.new_obj(v.fn(CLS["qubit"]), {"terms": it.new_dict(list(vals.items()))})
            r = v.call(MR + "get_interaction_rdm", q, *([n] if it.decide(v.bool("explicit number of qubits")) else []))
            v.prove(isinstance(r, VObj) and r.cls is v.fn(RDM + "InteractionRDM"), "density matrices")
            img = images(n, "jw")

            def value(w):
                x = ZERO2
                for s, c_ in image(img, w).items():
                    if s in vals:
                        x = plus(x, times(c_, parts(it, vals[s])))
                return x
            for p, q_ in cart(range(n), repeat=2):
                same_number(v, entry(v, v.attr(r, "one_body_tensor"), (p, q_)), value(((p, 1), (q_, 0))), f"one-body entry {p}, {q_}")
            for ix in cart(range(n), repeat=4):
                same_number(v, entry(v, v.attr(r, "two_body_tensor"), ix), value(tuple(zip(ix, (1, 1, 0, 0)))), f"two-body entry {ix}")
    _mk(_n, _drop)
