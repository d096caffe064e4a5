"""C18: fermion-to-qubit mappings and interaction tensors.

Oracle: Pauli sums multiplied with the Pauli table, and the images of ladder operators computed from the encodings'
definitions - Jordan-Wigner: qubit j holds the occupation of mode j; Bravyi-Kitaev: qubit j holds the parity of the modes
(j + 1 - lowbit(j + 1), j + 1] (1-based), as in a Fenwick tree - by linear algebra over GF(2), not with the code's sets:
  a_p = X(qubits whose parity involves p) * (1 - Z(occupation of p)) / 2 * Z(parity of the modes below p).
The image of a product is the product of images, of a sum the sum (proved for any modes and coefficients)."""
from functools import lru_cache
from itertools import combinations, product as cart
from pyvc.contract import Property
from .spec import *
from .C16 import CLS, SO, TERM, Alg, number, parts, plus, small, times, tterm
from .C17 import OPS, OU, TR, entry, normal_form, ranked, same_number, snapshot, tensor, zint

P = Property("C18", trusted=["images of ladder operators that act as in the encoding's definition satisfy the anticommutation relations (definition of the encodings)"])
OC = C + "openfermion.transforms.opconversions."
JW, BK, RJ, CV = (OC + x + ":" for x in ("jordan_wigner", "bravyi_kitaev", "reverse_jordan_wigner", "conversions"))
RC = C + "openfermion.transforms.repconversions.conversions:"
TP = C + "openfermion.transforms.repconversions.operator_tapering:"
PT = C + "openfermion.ops.representations.polynomial_tensor:"
ZERO2 = (z3.RealVal(0), z3.RealVal(0))
ONE2 = (z3.RealVal(1), z3.RealVal(0))
PHASES = {(0, -1): None}
TABLE = {("X", "Y"): ("Z", 1), ("Y", "Z"): ("X", 1), ("Z", "X"): ("Y", 1), ("Y", "X"): ("Z", -1), ("Z", "Y"): ("X", -1), ("X", "Z"): ("Y", -1)}


# ------------------------------------------------------------------ Pauli sums: {((qubit, Pauli), ...): (re, im)}
def turn(x, k):
    """x * i^k"""
    re, im = x
    return [(re, im), (-im, re), (-re, -im), (im, -re)][k % 4]


def string_product(s, t):
    d, k = dict(s), 0
    for q, p in t:
        if q not in d:
            d[q] = p
        elif d[q] == p:
            del d[q]
        else:
            d[q], sign = TABLE[d[q], p]
            k += sign
    return tuple(sorted(d.items())), k


def padd(a, b):
    out = dict(a)
    for s, x in b.items():
        out[s] = plus(out[s], x) if s in out else x
    return out


def pmul(a, b):
    out = {}
    for s, x in a.items():
        for t, y in b.items():
            w, k = string_product(s, t)
            z = turn(times(x, y), k)
            z = tuple(z3.simplify(c_) for c_ in z)
            out[w] = plus(out[w], z) if w in out else z
    return out


def pscale(x, a):
    return {s: times(x, y) for s, y in a.items()}


def num(re, im=0):
    return (z3.Q(Fraction(re).numerator, Fraction(re).denominator), z3.Q(Fraction(im).numerator, Fraction(im).denominator))


@lru_cache(None)
def images(n, kind):
    """{(mode, dagger): Pauli sum} on n modes"""
    if kind == "jw":
        rows = [{j} for j in range(n)]
    else:
        rows = [set(range(j + 1 - ((j + 1) & -(j + 1)), j + 1)) for j in range(n)]
    # solve over GF(2): which qubits' sum is the sum of the given modes
    basis = []
    for j, r in enumerate(rows):
        r, c_ = set(r), {j}
        for br, bc in basis:
            if max(br) in r:
                r ^= br
                c_ ^= bc
        assert r
        basis = [(x ^ r, y ^ c_) if max(r) in x else (x, y) for x, y in basis] + [(r, c_)]

    def qubits(modes):
        modes, out = set(modes), set()
        for br, bc in sorted(basis, key=lambda b: -max(b[0])):
            if max(br) in modes:
                modes ^= br
                out ^= bc
        assert not modes
        return out
    res = {}
    zs = lambda s: {tuple((q, "Z") for q in sorted(s)): ONE2}
    for p in range(n):
        flip = {tuple((j, "X") for j in range(n) if p in rows[j]): ONE2}
        for dagger in (0, 1):
            proj = padd({(): num(H2)}, pscale(num(H2 if dagger else -H2), zs(qubits({p}))))
            res[p, dagger] = pmul(flip, pmul(proj, zs(qubits(range(p)))))
    return res


def image(img, word, c_=ONE2):
    out = {(): c_}
    for f in word:
        out = pmul(out, img[f])
    return out


def pauli_items(v, o):
    """the terms of a qubit operator with concrete factors"""
    it = v.it
    out = []
    for t, x in it.heap[it.getattr(o, "terms").ref]:
        fs = it.as_seq(t).concrete()
        if fs is None or not all(isinstance(f, tuple) and isinstance(f[0], int) and isinstance(f[1], str) for f in fs):
            raise Unsupported("factors of a qubit operator")
        out.append((tuple(fs), parts(it, x)))
    return out


def is_pauli_sum(v, o, want, why):
    v.prove(isinstance(o, VObj) and o.cls is v.fn(CLS["qubit"]), why + ": a qubit operator")
    got = {}
    for t, x in pauli_items(v, o):
        s, k = string_product((), t)
        got[s] = plus(got.get(s, ZERO2), turn(x, k))
    for s in sorted(set(got) | set(want)):
        x, y = got.get(s, ZERO2), want.get(s, ZERO2)
        v.prove(z3.And(x[0] == y[0], x[1] == y[1]), f"{why}: coefficient of {s}")


def sizable(v, *xs):
    """no part is negligible without being zero (sums of tiny terms may be dropped)"""
    for x in xs:
        for y in (x.re, x.im) if isinstance(x, SC) else (x,):
            v.assume(z3.Or(y == 0, y >= z3.Q(1, 1000), y <= z3.Q(-1, 1000)))


# ------------------------------------------------------------------ images are linear and multiplicative
class Free:
    """contract of operator arithmetic: a free algebra over atoms (lists of factors)"""
    def __init__(self, v):
        self.v, self.it, self.val, self.same = v, v.it, {}, {}
        ops = {}
        for op in "+-*":
            ops[op] = lambda it, a, b, op=op: self.op(op, self.of(a), self.of(b))
            ops["r" + op] = lambda it, a, b, op=op: self.op(op, self.of(a), self.of(b))
        ops["neg"] = lambda it, a: self.new([(turn(x, 2), w) for x, w in self.of(a)])
        self.iface = Iface("qubit operator", ops=ops, classes={"QubitOperator", "SymbolicOperator"})

    def new(self, items):
        s = SU(z3.FreshConst(U, "operator"), self.iface)
        self.val[str(s.term)] = items
        return s

    def of(self, x):
        if isinstance(x, SU):
            if str(x.term) not in self.val:
                raise Unsupported("another operator")
            return self.val[str(x.term)]
        if is_num(x) or isinstance(x, (SC, complex)):
            return [(parts(self.it, x), ())]
        raise Unsupported("operator arithmetic")

    def op(self, op, a, b):
        if op == "*":
            return self.new([(times(x, y), s + t) for x, s in a for y, t in b])
        return self.new(a + [(turn(y, 2) if op == "-" else y, t) for y, t in b])

    def make(self, it, a, k):
        d = dict(zip(["term", "coefficient"], a), **k)
        if d.get("term") is None:
            return self.new([])
        s = it.as_seq(d["term"])
        c_ = parts(it, d.get("coefficient", 1))
        return self.new([(c_, () if s.concrete() == [] else (s,))])

    def equal(self, s, t):
        key = (id(s), id(t))
        if key not in self.same:
            e = self.it.eq(s, t)
            self.same[key] = (s, t, e if isinstance(e, bool) else self.it.valid(e))
        return self.same[key][2]

    def is_sum(self, o, want, why):
        v = self.v
        if not isinstance(o, SU):
            raise Unsupported("result of operator arithmetic")
        groups = [[w, ZERO2, x] for x, w in want]
        for x, w in self.of(o):
            for g in groups:
                if len(g[0]) == len(w) and all(self.equal(a, b) for a, b in zip(g[0], w)):
                    g[1] = plus(g[1], x)
                    break
            else:
                if not all(any(self.equal(a, b) for _, u in want for b in u) for a in w):
                    raise Unsupported("other building blocks")
                v.prove(z3.And(x[0] == 0, x[1] == 0), why + ": no other products")
        v.prove(len(groups) == len(want), why + ": a sum of products")
        for w, x, y in groups:
            v.prove(z3.And(x[0] == y[0], x[1] == y[1]), why + ": coefficient of a product")


def fermion_terms(v, lens):
    """a fermion operator with terms of the given lengths on any modes"""
    it = v.it
    items = []
    for j, l in enumerate(lens):
        acts = [int(v.choose("01", f"action{j}_{i}")) for i in range(l)]
        items.append((tuple((v.int(f"mode{j}_{i}", 0), a) for i, a in enumerate(acts)), number(v, f"c{j}", True)))
    for (s, _), (t, _) in combinations(items, 2):
        if len(s) == len(t):
            v.assume(z3.Not(to_z3_bool(it.eq(s, t))))
    return it.new_obj(v.fn(CLS["fermion"]), {"terms": it.new_dict(list(items))}), items


for _lens in ((), (0,), (1,), (2,), (1, 1)):
    def _mk(lens):
        @P.obligation(f"Jordan-Wigner image of an operator with terms of {lens} factors: coefficients times products of Z...Z (X -+ iY)/2", targets=[JW + "jordan_wigner", JW + "_jordan_wigner_fermion_operator"],
                      bound="number of terms and factors; any modes, actions and coefficients", budget=100)
        def _(v):
            it = v.it
            o, items = fermion_terms(v, lens)
            F = Free(v)
            v.contract(CLS["qubit"], F.make)
            r = v.call(JW + "jordan_wigner", o)
            want = []
            for t, c_ in items:
                prods = [(parts(it, c_), ())]
                for p, a in t:
                    z = v.seq(f"Z", p, lambda i: (i, "Z"))
                    prods = [(times(x, y), w + (z + Seq.of([(p, u)]),)) for x, w in prods for u, y in (("X", num(H2)), ("Y", num(0, -H2 if a else H2)))]
                want += prods
            F.is_sum(r, want, "image")
    _mk(_lens)

for _lens in ((), (0,), (1,), (2,), (3,), (1, 1), (2, 1), (1, 1, 1)):
    def _mk(lens):
        @P.obligation(f"Bravyi-Kitaev image of an operator with terms of {lens} factors: coefficients times products of the images of its factors, on the given number of qubits", targets=[BK + "bravyi_kitaev", BK + "_bravyi_kitaev_fermion_operator", BK + "_transform_operator_term", BK + "inline_sum", BK + "inline_product"],
                      bound="number of terms and factors; any modes, actions and coefficients", budget=100)
        def _(v):
            it = v.it
            o, items = fermion_terms(v, lens)
            F = Free(v)
            v.contract(CLS["qubit"], F.make)
            least = v.int("least", 0)
            v.contract(OU + "count_qubits", lambda it, a, k: least)
            n = v.int("n", 0) if it.decide(v.bool("explicit number of qubits")) else None
            used = []

            def ladder(it, a, k):
                d = dict(zip(["ladder_operator", "n_qubits"], a), **k)
                used.append(d["n_qubits"])
                return F.new([(ONE2, (Seq.of([d["ladder_operator"]]),))])
            v.contract(BK + "_transform_ladder_operator", ladder)
            if n is not None and it.decide(n < least):
                v.raises(ValueError, lambda: v.call(BK + "bravyi_kitaev", o, n), "too few qubits")
                return
            r = v.call(BK + "bravyi_kitaev", o, *([] if n is None else [n]))
            for x in used:
                v.prove(zint(x) == (least if n is None else n), "number of qubits of the encoding")
            F.is_sum(r, [(parts(it, c_), tuple(Seq.of([f]) for f in t)) for t, c_ in items], "image")
    _mk(_lens)


@P.obligation("mappings reject other objects; interaction operators take their direct route", targets=[JW + "jordan_wigner", BK + "bravyi_kitaev"])
def _(v):
    it = v.it
    for f in (JW + "jordan_wigner", BK + "bravyi_kitaev"):
        v.raises(TypeError, lambda: v.call(f, "0^ 1"), "text")
        q = it.new_obj(v.fn(CLS["qubit"]), {"terms": it.new_dict([])})
        v.raises(TypeError, lambda: v.call(f, q), "qubit operator")
    v.raises(TypeError, lambda: v.call(RJ + "reverse_jordan_wigner", it.new_obj(v.fn(CLS["fermion"]), {"terms": it.new_dict([])})), "fermion operator")


for _n in (1, 2, 3, 4, 5, 6, 7, 8):
    def _mk(n):
        @P.obligation(f"Bravyi-Kitaev images of the ladder operators on {n} modes act as the Fenwick encoding says", targets=[BK + "_transform_ladder_operator", BK + "_update_set", BK + "_occupation_set", BK + "_parity_set"], bound=f"{n} modes", budget=100)
        def _(v):
            small(v)
            img = images(n, "bk")
            for p in range(n):
                for a in (0, 1):
                    is_pauli_sum(v, v.call(BK + "_transform_ladder_operator", (p, a), n), img[p, a], f"image of ({p}, {a})")
    _mk(_n)


@P.obligation("Jordan-Wigner images of products on up to 4 modes", targets=[JW + "_jordan_wigner_fermion_operator"], bound="products of 1 and 2 factors on 4 modes, one coefficient", budget=200)
def _(v):
    it = v.it
    small(v)
    c_ = number(v, "c", True)
    sizable(v, c_)
    v.assume(z3.Or(c_.re != 0, c_.im != 0))
    img = images(4, "jw")
    k = v.choose((1, 2), "factors")
    for w in cart(sorted(img), repeat=k):
        if k == 2 and w[0][0] % 2 == w[1][0] % 2 == 0 and w[0] != w[1]:
            continue
        o = it.new_obj(v.fn(CLS["fermion"]), {"terms": it.new_dict([(w, c_)])})
        is_pauli_sum(v, v.call(JW + "jordan_wigner", o), image(img, w, parts(it, c_)), f"image of {w}")


# ------------------------------------------------------------------ direct routes
@P.obligation("elementary one-body terms: c a+_p a_q + h.c. (half of it for p = q)", targets=[JW + "jordan_wigner_one_body"], bound="modes 0 to 4, any coefficient", budget=200)
def _(v):
    it = v.it
    small(v)
    img = images(5, "jw")
    p = v.choose(range(5), "p")
    c_ = number(v, "c", True)
    sizable(v, c_)
    for q in range(5):
        r = v.call(JW + "jordan_wigner_one_body", p, q, c_ if p != q else c_.re)
        x = parts(it, c_ if p != q else c_.re)
        want = image(img, ((p, 1), (q, 0)), x)
        if p != q:
            want = padd(want, image(img, ((q, 1), (p, 0)), (x[0], -x[1])))
        is_pauli_sum(v, r, want, f"{p}, {q}")


for _p in range(4):
    for _q in range(4):
        def _mk(p, q):
            @P.obligation(f"elementary two-body terms c a+_{p} a+_{q} a_r a_s + h.c. (half of it if self-conjugate), all r and s", targets=[JW + "jordan_wigner_two_body"], bound="modes 0 to 3, any coefficient (real for self-conjugate terms)", budget=200)
            def _(v):
                it = v.it
                small(v)
                img = images(4, "jw")
                r, s = v.choose(list(cart(range(4), repeat=2)), "r, s")
                if True:
                    self_conjugate = {p, q} == {r, s}
                    c_ = number(v, f"c{r}{s}", not self_conjugate)
                    sizable(v, c_)
                    x = parts(it, c_)
                    want = image(img, ((p, 1), (q, 1), (r, 0), (s, 0)), x)
                    want = padd(want, image(img, ((s, 1), (r, 1), (q, 0), (p, 0)), (x[0], -x[1])))
                    if self_conjugate:
                        want = pscale(num(H2), want)
                    is_pauli_sum(v, v.call(JW + "jordan_wigner_two_body", p, q, r, s, c_), want, f"{p}, {q}, {r}, {s}")
        if _p < _q or (_p, _q) in ((1, 1), (2, 0), (3, 1)):
            _mk(_p, _q)


def selfadjoint(v, n, cplx=True):
    """a self-adjoint interaction operator on n modes: (operator, {word: coefficient})"""
    it = v.it
    h, g = {}, {}
    for t, k, name in ((h, 2, "h"), (g, 4, "g")):
        for ix in cart(range(n), repeat=k):
            jx = ix[::-1]
            if ix == jx:
                t[ix] = number(v, name + "".join(map(str, ix)), False)
                if cplx:
                    t[ix] = SC(t[ix], z3.RealVal(0))
            elif ix < jx:
                t[ix] = number(v, name + "".join(map(str, ix)), cplx)
                t[jx] = SC(t[ix].re, -t[ix].im) if cplx else t[ix]
    con = number(v, "constant", False)
    arr = lambda t, k: it.new_arr([t[ix] for ix in cart(range(n), repeat=k)], (n,) * k)
    o = it.call(v.fn(OPS), [con, arr(h, 2), arr(g, 4)], {})
    words = {(): parts(it, con)}
    for p, q in cart(range(n), repeat=2):
        words[(p, 1), (q, 0)] = parts(it, h[p, q])
    for p, q, r, s in cart(range(n), repeat=4):
        words[(p, 1), (q, 1), (r, 0), (s, 0)] = parts(it, g[p, q, r, s])
    return o, words


def in_normal_form(words):
    out = {}
    for w, x in words.items():
        for u, k in normal_form(w).items():
            y = (k * x[0], k * x[1])
            out[u] = plus(out[u], y) if u in out else y
    return out


for _n in (1, 2, 3, 4):
    def _mk(n):
        @P.obligation(f"direct Jordan-Wigner of a self-adjoint interaction operator on {n} modes adds up exactly its elementary terms", targets=[JW + "_jordan_wigner_interaction_op"], bound=f"{n} modes, any self-adjoint complex tensors", budget=300)
        def _(v):
            it = v.it
            o, words = selfadjoint(v, n)
            F = Free(v)
            v.contract(CLS["qubit"], F.make)

            def word(c_, w):
                return (c_, (Seq.of(list(w)),))

            def one(it, a, k):
                p, q, c_ = (dict(zip(["p", "q", "coefficient"], a), **k)[x] for x in ("p", "q", "coefficient"))
                x = parts(it, c_)
                if p == q:
                    v.prove(x[1] == 0, "real coefficient of a self-conjugate term")
                return F.new([word(x, ((p, 1), (q, 0)))] + ([word((x[0], -x[1]), ((q, 1), (p, 0)))] if p != q else []))

            def two(it, a, k):
                p, q, r, s, c_ = (dict(zip(["p", "q", "r", "s", "coefficient"], a), **k)[x] for x in ("p", "q", "r", "s", "coefficient"))
                x = parts(it, c_)
                half = num(H2) if {p, q} == {r, s} else ONE2
                if {p, q} == {r, s}:
                    v.prove(x[1] == 0, "real coefficient of a self-conjugate term")
                return F.new([word(times(half, x), ((p, 1), (q, 1), (r, 0), (s, 0))), word(times(half, (x[0], -x[1])), ((s, 1), (r, 1), (q, 0), (p, 0)))])
            v.contract(JW + "jordan_wigner_one_body", one)
            v.contract(JW + "jordan_wigner_two_body", two)
            r = v.call(JW + "jordan_wigner", o)
            got = {}
            for x, w in F.of(r):
                if len(w) > 1:
                    raise Unsupported("products")
                key = tuple(w[0].concrete()) if w else ()
                got[key] = plus(got[key], x) if key in got else x
            a, b = in_normal_form(got), in_normal_form(words)
            for w in sorted(set(a) | set(b)):
                same_number(v, a.get(w, ZERO2), b.get(w, ZERO2), f"coefficient of {w}")
    _mk(_n)


def classes(n):
    """one representative index tuple of every pair of conjugate two-body entries on n modes, and one-body pairs"""
    for k in (2, 4):
        for ix in cart(range(n), repeat=k):
            if ix <= ix[::-1]:
                yield ix


def bk_direct(v, n, part, nq):
    it = v.it
    small(v)
    img = images(nq, "bk")
    todo = list(classes(n))[part[0]::part[1]]
    ix = todo[v.choose(range(len(todo)), "entry")]
    k = len(ix)
    c_ = number(v, "c", False)
    con = number(v, "constant", False)
    sizable(v, c_, con)
    v.assume(c_ != 0)
    v.assume(z3.And(*[z3.Or(z3.And(con == 0), con + f * c_ >= z3.Q(1, 10000), con + f * c_ <= z3.Q(-1, 10000)) for f in [z3.Q(x, 8) for x in range(-8, 9)]]))
    arr = lambda j: it.new_arr([c_ if jx in (ix, ix[::-1]) and j == k else z3.RealVal(0) for jx in cart(range(n), repeat=j)], (n,) * j)
    o = it.call(v.fn(OPS), [con, arr(2), arr(4)], {})
    r = v.call(BK + "bravyi_kitaev", o, *([nq] if nq != n else []))
    want = {(): parts(it, con)}
    for jx in {ix, ix[::-1]}:
        w = ((jx[0], 1), (jx[1], 0)) if k == 2 else ((jx[0], 1), (jx[1], 1), (jx[2], 0), (jx[3], 0))
        want = padd(want, image(img, w, parts(it, c_)))
    is_pauli_sum(v, r, want, f"entry {ix}")


for _n, _nq, _parts in ((1, 1, 1), (2, 2, 1), (3, 3, 2), (4, 4, 8)):
    for _i in range(_parts):
        def _mk(n, nq, part):
            @P.obligation(f"direct Bravyi-Kitaev of interaction operators on {n} modes and one pair of conjugate entries (part {part[0] + 1} of {part[1]}): the image of the fermionic operator", targets=[BK + "_bravyi_kitaev_interaction_operator", BK + "_seeley_richard_love", BK + "_hermitian_one_body_product", BK + "_two_body_coef", BK + "_qubit_operator_creation"],
                          bound=f"{n} modes, one real entry and its conjugate, any constant", budget=300)
            def _(v):
                bk_direct(v, n, part, nq)
        _mk(_n, _nq, (_i, _parts))


# ------------------------------------------------------------------ conversions
for _n in (1, 2, 3):
    def _mk(n):
        @P.obligation(f"the fermion operator of an interaction operator on {n} modes has every entry at its ladder product", targets=[CV + "get_fermion_operator", CV + "_polynomial_tensor_to_fermion_operator", PT + "PolynomialTensor.__iter__", PT + "PolynomialTensor.__getitem__"],
                      bound=f"{n} modes, up to 4 non-zero entries at chosen positions, any values", budget=100)
        def _(v):
            it = v.it
            small(v)
            sets = [[(0, 0)], [(0, n - 1), (n - 1, 0)], [(0, 0), (0, n - 1, n - 1, 0)], [(n - 1, 0, 0, n - 1), (0, n - 1, 0, n - 1), (n - 1, 0)]]
            chosen = v.choose(range(len(sets)), "entries")
            vals = {ix: number(v, "x" + "".join(map(str, ix)), True) for ix in sets[chosen]}
            con = number(v, "constant", True)
            sizable(v, con, *vals.values())
            arr = lambda j: it.new_arr([vals.get(jx, 0) for jx in cart(range(n), repeat=j)], (n,) * j)
            o = it.call(v.fn(OPS), [con, arr(2), arr(4)], {})
            r = v.call(CV + "get_fermion_operator", o)
            v.prove(isinstance(r, VObj) and r.cls is v.fn(CLS["fermion"]), "a fermion operator")
            want = {(): parts(it, con)}
            for ix, x in vals.items():
                want[tuple(zip(ix, (1, 0) if len(ix) == 2 else (1, 1, 0, 0)))] = parts(it, x)
            got = {tuple(it.as_seq(t).concrete()): parts(it, x) for t, x in it.heap[it.getattr(r, "terms").ref]}
            for w in set(got) | set(want):
                same_number(v, got.get(w, ZERO2), want.get(w, ZERO2), f"coefficient of {w}")
    _mk(_n)


@P.obligation("interaction operator of ordered one- and two-body terms: every coefficient at its indices; other operators are rejected", targets=[RC + "get_interaction_operator"], bound="up to 3 terms on 3 modes, any coefficients that are not negligible", budget=100)
def _(v):
    it = v.it
    n = 3
    words = [(), ((0, 1), (2, 0)), ((2, 1), (0, 0)), ((2, 1), (1, 1), (1, 0), (0, 0)), ((1, 1), (0, 1), (2, 0), (0, 0))]
    bad = [((0, 1),), ((1, 1), (0, 1)), ((1, 0), (0, 0)), ((2, 1), (1, 1), (0, 1), (0, 0)), ((2, 1), (1, 1), (0, 1), (2, 0), (1, 0), (0, 0))]
    pick = v.choose(list(combinations(range(5), 3)) + ["empty"] + [("bad", i) for i in range(5)], "terms")
    rejected = pick[0] == "bad"
    ws = [] if pick == "empty" else [bad[pick[1]], words[1]] if rejected else [words[i] for i in pick]
    items = [(w, number(v, f"c{i}", True)) for i, w in enumerate(ws)]
    for _, x in items:
        sizable(v, x)
        v.assume(z3.Or(x.re != 0, x.im != 0))
    op = lambda l: it.new_obj(v.fn(CLS["fermion"]), {"terms": it.new_dict(list(l))})
    o, ordered = op(items[:1]), op(items)
    seen = []
    v.contract(TR + "normal_ordered", lambda it, a, k: (seen.append(a[0]), ordered)[1])
    v.contract(OU + "count_qubits", lambda it, a, k: n)
    explicit = it.decide(v.bool("explicit number of qubits"))
    f = RC + "get_interaction_operator"
    if rejected:
        try:
            v.call(f, o)
        except Exception as e:
            if not hasattr(e, "exc") and type(e).__name__ != "PyExc":
                raise
            return
        v.prove(False, "rejected")
        return
    m = n + 1 if explicit else n
    r = v.call(f, o, *([m] if explicit else []))
    v.raises(ValueError, lambda: v.call(f, o, n - 1), "too few qubits")
    v.raises(TypeError, lambda: v.call(f, it.new_obj(v.fn(CLS["qubit"]), {"terms": it.new_dict([])})), "another operator")
    v.prove(all(x.ref == o.ref for x in seen) and bool(seen), "the operator is ordered first")
    want = {w: parts(it, x) for w, x in items}
    v.prove(isinstance(r, VObj) and r.cls is v.fn(OPS) and it.eq(v.attr(r, "n_qubits"), m) is True, "an interaction operator on the modes")
    same_number(v, parts(it, v.attr(r, "constant")), want.get((), ZERO2), "constant")
    for t, k, acts in (("one_body_tensor", 2, (1, 0)), ("two_body_tensor", 4, (1, 1, 0, 0))):
        a = v.attr(r, t)
        for ix in cart(range(m), repeat=k):
            same_number(v, entry(v, a, ix), want.get(tuple(zip(ix, acts)), ZERO2), f"{t}{ix}")


# ------------------------------------------------------------------ tensor arithmetic
def polytensor(v, name, n, keys, cplx=False):
    it = v.it
    vals = {k: number(v, f"{name}_constant", cplx) if k == () else tensor(v, f"{name}{''.join(map(str, k))}", n, len(k), cplx) for k in keys}
    return it.call(v.fn(PT + "PolynomialTensor"), [it.new_dict(list(vals.items()))], {})


def tensors(v, o):
    return {tuple(k): x for k, x in v.it.heap[v.it.getattr(v.attr(o, "n_body_tensors"), "ref", None).ref]} if False else {tuple(k): x for k, x in v.it.heap[v.attr(o, "n_body_tensors").ref]}


def flat(v, o, n):
    out = {}
    for k, x in tensors(v, o).items():
        if k == ():
            out[k, ()] = parts(v.it, x)
        else:
            if not isinstance(x, VArr):
                raise Unsupported("tensor")
            for ix in cart(range(n), repeat=len(k)):
                out[k, ix] = entry(v, x, ix)
    return out


KEYS = {"same tensors": (((), (1, 0)), ((), (1, 0))), "more tensors on the right": (((), (1, 0)), ((), (1, 0), (1, 1, 0, 0), (0, 1))), "more tensors on the left": (((), (1, 0), (1, 1, 0, 0)), ((), (1, 0))),
        "no constants": (((1, 0), (0, 0)), ((1, 0), (1, 1)))}

for _how in KEYS:
    for _n in (1, 2):
        def _mk(how, n):
            @P.obligation(f"sums and differences of polynomial tensors on {n} modes, {how}: entry by entry, operands unchanged", targets=[PT + "PolynomialTensor." + x for x in ("__iadd__", "__add__", "__isub__", "__sub__")], bound=f"{n} modes, tensors up to four indices, any entries")
            def _(v):
                it = v.it
                ka, kb = KEYS[how]
                a, b = polytensor(v, "a", n, ka), polytensor(v, "b", n, kb)
                fa, fb = flat(v, a, n), flat(v, b, n)
                # the difference of tensors only the subtrahend has is a known finding
                which = v.choose(("+", "-", "+=", "-=") if set(kb) <= set(ka) else ("+", "+="), "operation")
                r = it.call(v.attr(a, {"+=": "__iadd__", "-=": "__isub__"}[which]), [b], {}) if "=" in which else it.binop(which, a, b)
                got = flat(v, r, n)
                v.prove(set(got) == set(fa) | set(fb), "tensors")
                for k in got:
                    x, y = fa.get(k, ZERO2), fb.get(k, ZERO2)
                    same_number(v, got[k], (x[0] + y[0], x[1] + y[1]) if "+" in which else (x[0] - y[0], x[1] - y[1]), f"{which} {k}")
                if "=" in which:
                    v.prove(r.ref == a.ref, "in place")
                else:
                    for k, x in flat(v, a, n).items():
                        same_number(v, x, fa[k], "left operand unchanged")
                now = flat(v, b, n)
                v.prove(set(now) == set(fb), "right operand unchanged")
                for k, x in now.items():
                    same_number(v, x, fb[k], "right operand unchanged")
                for k, x in tensors(v, r).items():
                    for o in (a, b) if "=" not in which else (b,):
                        y = tensors(v, o).get(k)
                        v.prove(not isinstance(x, VArr) or not isinstance(y, VArr) or x.ref != y.ref, "no memory shared with an operand")
        _mk(_how, _n)

for _n in (1, 2):
    def _mk(n):
        @P.obligation(f"multiples, quotients, negation and shifts of polynomial tensors on {n} modes", targets=[PT + "PolynomialTensor." + x for x in ("__imul__", "__mul__", "__rmul__", "__itruediv__", "__truediv__", "__neg__", "__radd__", "with_function_applied_elementwise")], bound=f"{n} modes, tensors up to four indices, any entries")
        def _(v):
            it = v.it
            a = polytensor(v, "a", n, ((), (1, 0), (1, 1, 0, 0)))
            fa = flat(v, a, n)
            s = v.real("s")
            which = v.choose(("a*s", "s*a", "a/s", "-a", "a+s", "s+a", "a-s", "a*=s", "a/=s", "a+=s", "a-=s"), "operation")
            if "/" in which:
                v.assume(s != 0)
            if "=" in which:
                r = it.call(v.attr(a, {"*": "__imul__", "/": "__itruediv__", "+": "__iadd__", "-": "__isub__"}[which[1]]), [s], {})
                v.prove(r.ref == a.ref, "in place")
            elif which == "-a":
                r = it.call(v.attr(a, "__neg__"), [], {})
            else:
                x, o, y = which
                r = it.binop(o, a if x == "a" else s, a if y == "a" else s)
            got = flat(v, r, n)
            v.prove(set(got) == set(fa), "tensors")
            for k, x in got.items():
                y = fa[k][0]
                w = which.replace("=", "")
                want = s * y if w in ("a*s", "s*a") else y / s if w == "a/s" else -y if w == "-a" else y if k[0] else y + s if "+" in w else y - s
                v.prove(x[0] == want, f"{which}: {k}")
            if "=" not in which:
                for k, x in flat(v, a, n).items():
                    same_number(v, x, fa[k], "operand unchanged")
            for bad in (v.opaque("thing"), "2"):
                for m in ("__iadd__", "__isub__", "__imul__", "__itruediv__"):
                    v.raises(TypeError, lambda: it.call(v.attr(a, m), [bad], {}), m + " of something else")
            if n == 2:
                b = polytensor(v, "b", 1, ((), (1, 0)))
                for m in ("__iadd__", "__isub__", "__imul__"):
                    v.raises(TypeError, lambda: it.call(v.attr(a, m), [b], {}), m + " of a tensor on other modes")
    _mk(_n)


@P.obligation("items of a polynomial tensor are read and written at their index and kind; equality is entry-wise within the tolerance", targets=[PT + "PolynomialTensor." + x for x in ("__getitem__", "__setitem__", "__eq__", "__ne__", "constant")], bound="2 modes")
def _(v):
    it = v.it
    n = 2
    a = polytensor(v, "a", n, ((), (1, 0), (0, 1)))
    fa = flat(v, a, n)
    v.prove(zint(v.attr(a, "n_qubits")) == n, "modes")
    same_number(v, parts(it, it.getitem(a, ())), fa[(), ()], "constant")
    key = v.choose([(), (1, 0), (0, 1)], "kind")
    ix = v.choose(list(cart(range(n), repeat=len(key))), "index")
    same_number(v, parts(it, it.getitem(a, tuple(zip(ix, key)))), fa[key, ix], "item")
    x = v.real("x")
    it.call(v.attr(a, "__setitem__"), [tuple(zip(ix, key)), x], {})
    now = flat(v, a, n)
    for k, y in now.items():
        same_number(v, y, (x, z3.RealVal(0)) if k == (key, ix) else fa[k], "only the assigned item changes")
    b = polytensor(v, "b", n, ((), (1, 0)))
    fb = flat(v, b, n)
    d = [now[k][0] - fb.get(k, ZERO2)[0] for k in now]
    r = to_z3_bool(it.truth(it.cmp("==", a, b)))
    tol = z3.Q(1, 10 ** 8)
    v.prove(r == z3.And(*[z3.And(y < tol, -y < tol) for y in d]), "equality")
    v.prove(to_z3_bool(it.truth(it.cmp("!=", a, b))) == z3.Not(r), "inequality")
    c_ = polytensor(v, "c", 1, ((), (1, 0)))
    v.prove(z3.Not(to_z3_bool(it.truth(it.cmp("==", a, c_)))), "other number of modes")


for _n, _m, _key in ((1, 1, (1, 0)), (2, 2, (1, 0)), (2, 2, (0, 1)), (2, 1, (1, 0)), (2, 2, (1, 1, 0, 0)), (2, 1, (1, 1, 0, 0)), (4, 2, (1, 0)), (3, 3, (1, 0)), (2, 2, (1, 1))):
    def _mk(n, m, key):
        @P.obligation(f"rotating a {key} tensor on {n} modes by a {m} x {m} matrix transforms every index (conjugated for creation), spin-doubled if needed", targets=[PT + "general_basis_change", PT + "PolynomialTensor.rotate_basis"], bound=f"{n} modes, any complex entries", budget=100)
        def _(v):
            it = v.it
            R = poly_matrix("r", m)
            T = {ix: Poly.gen("z:t" + "".join(map(str, ix))) for ix in cart(range(n), repeat=len(key))}
            arr = it.new_arr([T[ix] for ix in cart(range(n), repeat=len(key))], (n,) * len(key))
            rot_ = it.new_arr([x for r in R for x in r], (m, m))
            con = Poly.gen("constant")
            o = it.call(v.fn(PT + "PolynomialTensor"), [it.new_dict([((), con), (key, arr)])], {})
            v.call(v.attr(o, "rotate_basis"), rot_)
            res = tensors(v, o)
            v.poly_eq(res[()], con, "constant")
            big = R if n == m else kron(R, ID)
            for jx in cart(range(n), repeat=len(key)):
                want = ZERO
                for ix in T:
                    w = T[ix]
                    for i, j, d in zip(ix, jx, key):
                        w = w * (big[i][j].conj() if d else big[i][j])
                    want = want + w
                v.poly_eq(it.getitem(res[key], jx), want, f"entry {jx}")
    _mk(_n, _m, _key)


# ------------------------------------------------------------------ freezing orbitals
def frozen_value(word, occ):
    """the word between states with orbital f occupied (occ = 1) or empty, f's sign counted below all others: apply from the right;
    0 or (sign, remaining word) with f = mode 'f'"""
    sign, n = 1, occ
    rest = []
    for i in range(len(word) - 1, -1, -1):
        m, d = word[i]
        if m == "f":
            if n == d:
                return None
            n = d
            sign *= (-1) ** len(rest)      # moved right past the factors already taken
        else:
            rest.insert(0, word[i])
    return (sign, tuple(rest)) if n == occ else None


for _k in (0, 1, 2, 3):
    for _acts in cart("10", repeat=_k):
        for _occ in (0, 1):
            def _mk(k, acts, occ):
                @P.obligation(f"freezing one {'occupied' if occ else 'empty'} orbital in a term with actions {acts or '-'}: the term restricted to it, with its sign, other orbitals renumbered", targets=[TP + "freeze_orbitals", TP + "prune_unused_indices"],
                              bound=f"one term of {k} factors on any orbitals (coinciding or ordered in any way)", budget=100)
                def _(v):
                    it = v.it
                    small(v)
                    q, rank, levels = ranked(v, k + 1)
                    c_ = v.real("c")
                    v.assume(z3.Or(c_ >= z3.Q(1, 1000), c_ <= z3.Q(-1, 1000)))
                    term = tuple(zip(q[:k], map(int, acts)))
                    o = it.new_obj(v.fn(CLS["fermion"]), {"terms": it.new_dict([(term, c_)])})
                    args = (v.list([q[k]]),) if occ else (v.list([]), v.list([q[k]]))
                    r = v.call(TP + "freeze_orbitals", o, *args)
                    v.prove(isinstance(r, VObj) and r.cls is v.fn(CLS["fermion"]) and r.ref != o.ref, "a new fermion operator")
                    v.same(Seq.of([x for x, _ in it.heap[it.getattr(o, "terms").ref]]), Seq.of([term]), "operand unchanged")
                    got = list(it.heap[it.getattr(r, "terms").ref])
                    fv = frozen_value([("f" if rank[i] == rank[k] else rank[i], int(acts[i])) for i in range(k)], occ)
                    if fv is None:
                        v.prove(not got, "the term vanishes")
                        return
                    sign, rest = fv
                    if occ:      # the frozen electron is created before (below) the others: every factor above it passes it
                        sign *= (-1) ** sum(m > rank[k] for m, _ in rest)
                    used = sorted({m for m, _ in rest})
                    v.prove(len(got) == 1, "one term")
                    t = it.as_seq(got[0][0]).concrete()
                    v.prove(t is not None and [tuple(x) for x in t] == [(used.index(m), d) for m, d in rest], "the remaining factors, renumbered in order")
                    v.prove(to_z3_real(got[0][1]) == sign * c_, "coefficient with its sign")
            _mk(_k, "".join(_acts), _occ)


# ------------------------------------------------------------------ reverse Jordan-Wigner
def fermion_image(v, o, n):
    """the Pauli sum a fermion operator with concrete factors stands for"""
    it = v.it
    img, out = images(n, "jw"), {}
    for t, x in it.heap[it.getattr(o, "terms").ref]:
        w = it.as_seq(t).concrete()
        if w is None or not all(isinstance(f, tuple) and isinstance(f[0], int) and isinstance(f[1], int) for f in w):
            raise Unsupported("factors of a fermion operator")
        v.prove(all(0 <= m < n and d in (0, 1) for m, d in w), "modes")
        out = padd(out, image(img, tuple(w), parts(it, x)))
    return out


for _n, _first in ((1, "*"), (2, "*"), (3, "I"), (3, "X"), (3, "Y"), (3, "Z")):
    def _mk(n, first):
        @P.obligation(f"reverse Jordan-Wigner of Pauli strings on {n} qubits{'' if first == '*' else ' with ' + first + ' on the last'}: a fermion operator whose Jordan-Wigner image is the string with its coefficient", targets=[RJ + "reverse_jordan_wigner", C + "openfermion.hamiltonians.special_operators:number_operator"],
                      bound=f"single strings on {n} qubits, any coefficient that is not negligible", budget=200)
        def _(v):
            it = v.it
            small(v)
            c_ = number(v, "c", True)
            sizable(v, c_)
            v.assume(z3.Or(c_.re != 0, c_.im != 0))
            tails = [s for s in cart("IXYZ", repeat=n) if first == "*" or s[-1] == first]
            s = tails[v.choose(range(len(tails)), "string")]
            word = tuple((q, p) for q, p in enumerate(s) if p != "I")
            o = it.new_obj(v.fn(CLS["qubit"]), {"terms": it.new_dict([(word, c_)])})
            r = v.call(RJ + "reverse_jordan_wigner", o, *([n] if v.choose((0, 1), "explicit size") else []))
            v.prove(isinstance(r, VObj) and r.cls is v.fn(CLS["fermion"]), "a fermion operator")
            v.same(Seq.of([x for x, _ in it.heap[it.getattr(o, "terms").ref]]), Seq.of([word]), "operand unchanged")
            got = fermion_image(v, r, n)
            for w in sorted(set(got) | {word}):
                same_number(v, got.get(w, ZERO2), parts(it, c_) if w == word else ZERO2, f"coefficient of {w}")
            if word:
                v.raises(ValueError, lambda: v.call(RJ + "reverse_jordan_wigner", o, word[-1][0]), "too few qubits")
    _mk(_n, _first)


@P.obligation("reverse Jordan-Wigner of sums is the sum of the images", targets=[RJ + "reverse_jordan_wigner"], bound="two strings on 3 qubits, any coefficients that are not negligible, also combined", budget=200)
def _(v):
    it = v.it
    small(v)
    a, b = number(v, "a", False), number(v, "b", False)
    sizable(v, a, b, *[a * z3.Q(j, 4) + b * z3.Q(k, 4) for j in range(-4, 5) for k in (-4, -2, -1, 1, 2, 4)])
    words = [(), ((1, "Z"),), ((0, "X"), (1, "Y")), ((0, "Y"), (1, "X")), ((0, "X"), (1, "Z"), (2, "X"))]
    s, t = v.choose(list(combinations(words, 2)), "strings")
    o = it.new_obj(v.fn(CLS["qubit"]), {"terms": it.new_dict([(s, a), (t, b)])})
    r = v.call(RJ + "reverse_jordan_wigner", o, 3)
    got = fermion_image(v, r, 3)
    for w in sorted(set(got) | {s, t}):
        same_number(v, got.get(w, ZERO2), (a, z3.RealVal(0)) if w == s else (b, z3.RealVal(0)) if w == t else ZERO2, f"coefficient of {w}")


for _n in (1, 2):
    def _mk(n):
        @P.obligation(f"projecting keeps exactly the entries whose set of indices is selected ({n} modes)", targets=[PT + "PolynomialTensor.projected_n_body_tensors"], bound=f"{n} modes, tensors up to four indices, any entries, every selection")
        def _(v):
            import itertools as I
            it = v.it
            a = polytensor(v, "a", n, ((), (1, 0), (1, 1, 0, 0)))
            fa = flat(v, a, n)
            sets = [s for k in range(n + 1) for s in I.combinations(range(n), k)]
            for sel in list(range(4)) + sets:
                for exact in (False, True):
                    arg = sel if isinstance(sel, int) else v.list(list(sel))
                    r = v.call(v.attr(a, "projected_n_body_tensors"), arg, *([exact] if exact else []))
                    b = v.call(PT + "PolynomialTensor", r)
                    got = flat(v, b, n)
                    v.prove(set(got) == set(fa), f"tensors {sel} {exact}")
                    for k, x in got.items():
                        s = set(k[1])
                        m = len(s) if isinstance(sel, int) else s
                        want = set(sel) if not isinstance(sel, int) else sel
                        same_number(v, x, fa[k] if (m == want if exact else m <= want) else ZERO2, f"{sel} {exact}: {k}")
            for k, x in flat(v, a, n).items():
                same_number(v, x, fa[k], "operator unchanged")
    _mk(_n)
