"""C17: normal ordering, conjugation and commutators.

Normal ordering of one ladder string is proved on symbolic modes (coinciding or ordered in any way) against rewriting
with the anticommutation relations, whose normal form is unique; normal ordering of an operator is then the sum over its
terms of any such function.  Conjugation is term by term; commutators are proved over any ring-like operators."""
from itertools import combinations, product as cart
from pyvc.contract import Property
from .spec import *
from .C16 import CLS, SO, TERM, Alg, IDENTITY, neg, number, parts, plus, small, times, tterm

P = Property("C17", trusted=["the normal form of a ladder string under the anticommutation relations denotes the same operator (definition of the relations)"])
TR = C + "openfermion.transforms.opconversions.term_reordering:"
OU = C + "openfermion.utils.operator_utils:"
CO = C + "openfermion.utils.commutators:"
OPS = C + "openfermion.ops.representations.interaction_operator:InteractionOperator"


def zint(x):
    if isinstance(x, bool) or not isinstance(x, int) and not (is_z3(x) and x.is_int()):
        raise Unsupported("not an integer")
    return z3.IntVal(x) if isinstance(x, int) else x


def normal_form(word):
    """{ordered word: integer} of a word of (mode, dagger) with concrete modes, by the anticommutation relations"""
    for k in range(len(word) - 1):
        (p, a), (q, b) = word[k:k + 2]
        rest = word[:k], word[k + 2:]
        if (a, p) == (b, q):
            return {}
        if (a, p) < (b, q):          # annihilation left of creation, or ascending modes of one kind
            out = {w: -x for w, x in normal_form(rest[0] + ((q, b), (p, a)) + rest[1]).items()}
            if p == q:
                for w, x in normal_form(rest[0] + rest[1]).items():
                    out[w] = out.get(w, 0) + x
            return {w: x for w, x in out.items() if x}
    return {word: 1}


def ranked(v, n):
    """n symbolic modes in every order and coincidence: (modes, their ranks)"""
    it = v.it
    q = [v.int(f"mode{i}", 0) for i in range(n)]
    levels = []          # representatives in increasing order
    for x in q:
        for k, y in enumerate(levels):
            if it.decide(x == y):
                break
            if it.decide(x < y):
                levels.insert(k, x)
                break
        else:
            levels.append(x)
    rank = []
    for x in q:
        rank.append(next(k for k, y in enumerate(levels) if it.decide(x == y)))
    return q, rank, levels


def ladder(v, kind, actions, n):
    it = v.it
    small(v)
    q, rank, levels = ranked(v, n)
    acts = [int(x) for x in actions]
    co = SC(v.real("c_re"), v.real("c_im"))
    # an intermediate sum below the tolerance may be dropped: not if the coefficient is above it
    v.assume(z3.Or(co.re >= z3.Q(1, 10 ** 8), co.im >= z3.Q(1, 10 ** 8), co.re <= z3.Q(-1, 10 ** 8), co.im <= z3.Q(-1, 10 ** 8)))
    word = tuple(zip(q, acts))
    if kind == "list":
        word = v.list(list(word))
    r = v.call(TR + "normal_ordered_ladder_term", word, co)
    A = Alg(v, "fermion", True)
    v.prove(isinstance(r, VObj) and r.cls is A.cls, "a fermion operator")
    if kind == "list":
        v.same(it.as_seq(word), Seq.of(list(zip(q, acts))), "the given term is unchanged")
    want = normal_form(tuple(zip(rank, acts)))
    c_ = parts(it, co)
    left = dict(want)
    for t, x in A.items(r):
        fs = it.as_seq(t).concrete()
        if fs is None:
            raise Unsupported("factors of a result term")
        key = tuple((next((k for k, y in enumerate(levels) if it.decide(to_z3_bool(it.eq(y, f[0])))), None), f[1]) for f in fs)
        k = left.pop(key, 0)
        x = parts(it, x)
        v.prove(z3.And(x[0] == k * c_[0], x[1] == k * c_[1]), f"coefficient of {key} is {k} times the given one")
    v.prove(not left, f"the terms {sorted(left)} of the normal form are there")


for _n in (0, 1, 2, 3, 4):
    for _acts in cart("10", repeat=_n):
        if _n == 4 and _acts.count("1") not in (1, 2, 3):
            continue

        def _mk(n, acts):
            @P.obligation(f"normal ordering of {n} ladder factors ({', '.join('creation' if x == '1' else 'annihilation' for x in acts) or 'none'}): the terms of the normal form", targets=[TR + "normal_ordered_ladder_term"],
                          bound=f"{n} factors on any modes (coinciding or ordered in any way); coefficient not negligible", budget=200)
            def _(v):
                ladder(v, v.choose(("tuple", "list")) if n == 2 else "tuple", acts, n)
        _mk(_n, _acts)


def named(v, d, names):
    return dict(zip(names, d[0]), **d[1])


for _n in (0, 1, 2, 3):
    def _mk(n):
        @P.obligation(f"normal ordering of an operator with {n} terms: the sum of the ordered terms", targets=[TR + "normal_ordered"], bound=f"{n} terms, any terms and coefficients", budget=120)
        def _(v):
            it = v.it
            A = Alg(v, "fermion", True)
            small(v)
            a, ia = A.op("a", n)
            X, Y = z3.Function("first_ordered", U, U), z3.Function("second_ordered", U, U)
            s = z3.Function("second_weight", U, z3.RealSort())
            want, two = [], n < 2
            for t, x in ia:
                v.assume(X(t.term) != Y(t.term))
                want += [(SU(X(t.term), TERM), parts(it, x))] + ([(SU(Y(t.term), TERM), times(parts(it, x), (s(t.term), z3.RealVal(0))))] if two else [])

            def order(it, p, k):
                d = named(v, (p, k), ["term", "coefficient", "parity"])
                if d.get("parity", -1) != -1:
                    v.prove(False, "fermionic ordering")
                t = tterm(d["term"])
                return it.new_obj(A.cls, {"terms": it.new_dict([(SU(X(t), TERM), d["coefficient"])] + ([(SU(Y(t), TERM), it.binop("*", d["coefficient"], s(t)))] if two else []))})
            v.contract(TR + "normal_ordered_ladder_term", order)
            r = v.call(TR + "normal_ordered", a)
            A.denotes(r, want, "sum", exact=False, dropped=n)
            A.unchanged(a, ia, "operand unchanged")
            v.prove(r.ref != a.ref, "a new operator")
    _mk(_n)


@P.obligation("normal ordering rejects other types and bosonic ordering", targets=[TR + "normal_ordered", TR + "normal_ordered_ladder_term"])
def _(v):
    it = v.it
    for kind in ("qubit", "ising"):
        A = Alg(v, kind, False)
        a, _ = A.op("a", 1)
        v.raises(TypeError, lambda: v.call(TR + "normal_ordered", a), kind + " operator")
    v.raises(TypeError, lambda: v.call(TR + "normal_ordered", v.opaque("thing")), "another object")
    v.raises(TypeError, lambda: v.call(TR + "normal_ordered", "0^ 1"), "text")
    v.raises(ValueError, lambda: v.call(TR + "normal_ordered_ladder_term", ((v.int("m", 0), 0),), v.real("c"), 1), "bosons")


for _kind in ("qubit", "fermion"):
    for _n in (0, 1, 2, 3):
        def _mk(kind, n):
            @P.obligation(f"the conjugate of a {kind} operator with {n} terms: conjugated coefficients of the " + ("reversed terms with creation and annihilation exchanged" if kind == "fermion" else "same terms"), targets=[OU + "hermitian_conjugated"],
                          bound=f"{n} terms" + (", of up to 2 factors" if kind == "fermion" else ", any terms"), budget=120)
            def _(v):
                it = v.it
                A = Alg(v, kind, True)
                if kind == "qubit":
                    a, ia = A.op("a", n)
                    flip = lambda t: t
                else:
                    ia = []
                    words = [w for w in ((), "1", "0", "10", "01", "11")]
                    pick = v.choose([w for w in combinations(range(len(words)), n)], "actions of the terms")
                    for j, w in enumerate(pick):
                        ia.append((tuple((v.int(f"mode{j}_{i}", 0), int(x)) for i, x in enumerate(words[w])), number(v, f"c{j}", True)))
                    a = it.new_obj(A.cls, {"terms": it.new_dict(list(ia))})
                    flip = lambda t: tuple((m, 1 - d) for m, d in reversed(t))
                before = list(ia)
                r = v.call(OU + "hermitian_conjugated", a)
                v.prove(isinstance(r, VObj) and r.cls is A.cls and r.ref != a.ref and it.getattr(r, "terms").ref != it.getattr(a, "terms").ref, "a new operator of the same type")
                conj = lambda x: (parts(it, x)[0], -parts(it, x)[1])
                for o, want, why in ((r, [(flip(t), conj(x)) for t, x in before], "conjugate"), (a, [(t, parts(it, x)) for t, x in before], "operand unchanged"),
                                     (v.call(OU + "hermitian_conjugated", r), [(t, parts(it, x)) for t, x in before], "conjugating twice")):
                    got = A.items(o)
                    v.prove(len(got) == len(want), why + ": number of terms")
                    for t, x in want:
                        mine = [y for u, y in got if it.decide(to_z3_bool(it.eq(u, t)))]
                        v.prove(len(mine) == 1, why + ": term")
                        y = parts(it, mine[0])
                        v.prove(z3.And(y[0] == x[0], y[1] == x[1]), why + ": coefficient")
        _mk(_kind, _n)


@P.obligation("the conjugate of a ladder string of any length is its reversal with creation and annihilation exchanged", targets=[OU + "hermitian_conjugated"])
def _(v):
    it = v.it
    n = v.int("n", 0)
    q, d = v.int_fn("mode", 0), v.int_fn("dagger", 0, 1)
    t = v.seq("factors", n, lambda i: (q(i), d(i)))
    A = Alg(v, "fermion", True)
    co = number(v, "c", True)
    a = it.new_obj(A.cls, {"terms": it.new_dict([(t, co)])})
    r = A.items(v.call(OU + "hermitian_conjugated", a))
    v.prove(len(r) == 1, "one term")
    v.same(it.as_seq(r[0][0]), v.seq("reversed", n, lambda i: (q(n - 1 - i), 1 - d(n - 1 - i))), "factors")
    x = parts(it, r[0][1])
    v.prove(z3.And(x[0] == co.re, x[1] == -co.im), "coefficient")


@P.obligation("conjugation and the Hermiticity test reject other types", targets=[OU + "hermitian_conjugated", OU + "is_hermitian"])
def _(v):
    A = Alg(v, "ising", False)
    a, _ = A.op("a", 1)
    for f in ("hermitian_conjugated", "is_hermitian"):
        for x in (a, "X0", v.int("number")):
            v.raises(TypeError, lambda: v.call(OU + f, x), f + " rejects")


@P.obligation("a fermion or interaction operator is Hermitian exactly if its ordered form equals that of its conjugate; a qubit operator if it equals its conjugate", targets=[OU + "is_hermitian"])
def _(v):
    it = v.it
    kind = v.choose(("qubit", "fermion", "interaction"))
    NF, AD = z3.Function("normal_form", U, U), z3.Function("adjoint", U, U)
    EQ = z3.Function("equal", U, U, z3.BoolSort())
    names = {"qubit": {"QubitOperator"}, "fermion": {"FermionOperator"}, "interaction": {"InteractionOperator", "PolynomialTensor"}}[kind]
    iface = Iface(kind + " operator", classes=names | ({"SymbolicOperator"} if kind != "interaction" else set()), eq=lambda it, s, o: EQ(s.term, o.term))
    v.contract(OU + "hermitian_conjugated", lambda it, a, k: SU(AD(a[0].term), iface))
    v.contract(TR + "normal_ordered", lambda it, a, k: SU(NF(a[0].term), iface))
    o = v.opaque("operator", iface)
    r = to_z3_bool(it.truth(v.call(OU + "is_hermitian", o)))
    x, y = (o.term, AD(o.term)) if kind == "qubit" else (NF(o.term), NF(AD(o.term)))
    v.assume(EQ(x, y) == EQ(y, x))
    v.prove(r == EQ(x, y), "equality with the conjugate")


# commutators over any ring-like values
MUL, SUB, ADD = (z3.Function(x, U, U, U) for x in ("times", "minus", "plus"))


def ring(v, array, name="operator class"):
    box = []

    def binary(f):
        return lambda it, a, b: SU(f(a.term, b.term), box[0])
    box.append(Iface("matrix" if array else "operator", classes={"ndarray"} if array else {name}, ops={"-": binary(SUB), "+": binary(ADD), **({} if array else {"*": binary(MUL)})},
                     methods={"dot": lambda it, s, a, k: SU(MUL(s.term, a[0].term), box[0])} if array else {}))
    box[0].type = v.opaque(name)
    return box[0]


for _array in (False, True):
    def _mk(array):
        @P.obligation(f"commutator and anticommutator of {'matrices' if array else 'operators'} are AB - BA and AB + BA; operands of different types are rejected", targets=[CO + "commutator", CO + "anticommutator"])
        def _(v):
            f = ring(v, array)
            a, b = v.opaque("a", f), v.opaque("b", f)
            ab, ba = MUL(a.term, b.term), MUL(b.term, a.term)
            v.assume(ADD(ab, ba) == ADD(ba, ab))
            r = v.call(CO + "commutator", a, b)
            v.prove(isinstance(r, SU) and r.term == SUB(ab, ba), "AB - BA")
            r = v.call(CO + "anticommutator", a, b)
            v.prove(isinstance(r, SU) and r.term == ADD(ab, ba), "AB + BA")
            g = ring(v, False, "another class")
            v.assume(f.type.term != g.type.term)
            c_ = v.opaque("c", g)
            for n in ("commutator", "anticommutator"):
                v.raises(TypeError, lambda: v.call(CO + n, a, c_), n + " of different types")
    _mk(_array)


for _n, _m in ((0, 1), (1, 1)):
    def _mk(n, m):
        @P.obligation(f"commutators leave operands with {n} and {m} terms unchanged and give new operators", targets=[CO + "commutator", CO + "anticommutator"], bound=f"{n} and {m} terms, any terms and coefficients", budget=120)
        def _(v):
            it = v.it
            A = Alg(v, "qubit", True)
            small(v)

            def simplify(it, a, k):
                d = dict(zip(["self", "term", "coefficient"], a), **k)
                t = tterm(d["term"])
                return it.binop("*", d.get("coefficient", 1), v.real("w")), SU(z3.Function("simplified", U, U)(t), TERM)
            for q in (SO, CLS["qubit"]):
                v.contract(q + "._simplify", simplify)
            a, ia = A.op("a", n)
            b, ib = A.op("b", m)
            r = v.call(CO + v.choose(("commutator", "anticommutator")), a, b)
            A.unchanged(a, ia, "left")
            A.unchanged(b, ib, "right")
            v.prove(r.ref not in (a.ref, b.ref) and it.getattr(r, "terms").ref not in (it.getattr(a, "terms").ref, it.getattr(b, "terms").ref), "a new operator")
    _mk(_n, _m)


@P.obligation("double commutator: [a, [b, c]] in normal order", targets=[CO + "double_commutator"])
def _(v):
    NF = z3.Function("normal_form", U, U)
    f = ring(v, False)
    v.contract(TR + "normal_ordered", lambda it, a, k: SU(NF(a[0].term), f))
    com = lambda x, y: SUB(MUL(x, y), MUL(y, x))
    a, b, c_ = (v.opaque(x, f) for x in "abc")
    # normal forms of equal operators are equal
    x, y, z = z3.Consts("x y z", U)
    r = v.call(CO + "double_commutator", a, b, c_)
    inner = com(b.term, c_.term)
    v.assume(NF(com(a.term, inner)) == NF(com(a.term, NF(inner))))
    v.prove(isinstance(r, SU) and r.term == NF(com(a.term, NF(inner))), "[a, [b, c]]")


@P.obligation("double commutator of hopping operators: the same, whatever modes they share", targets=[CO + "double_commutator"], bound="hopping terms on any two modes each, with coefficients that do not multiply to a negligible one", budget=100)
def _(v):
    """op2 = x (p^ q + q^ p), op3 = y (r^ s + s^ r):  [op2, op3] = xy (i^ j - j^ i) with i, j the unshared modes if exactly one
    is shared, 0 if none is or both are"""
    it = v.it
    q, rank, levels = ranked(v, 4)
    if rank[0] == rank[1] or rank[2] == rank[3]:
        return
    A = Alg(v, "fermion", False)
    x, y = v.real("x"), v.real("y")
    v.assume(z3.Or(x * y >= z3.Q(1, 10 ** 8), x * y <= z3.Q(-1, 10 ** 8)))
    hop = lambda p, q, c_: it.new_obj(A.cls, {"terms": it.new_dict([(((p, 1), (q, 0)), c_), (((q, 1), (p, 0)), c_)])})
    seen = []
    f = v.opaque("result")

    def com(it, a, k):
        seen.append(a)
        return v.opaque("commutator")
    v.contract(CO + "commutator", com)
    v.contract(TR + "normal_ordered", lambda it, a, k: f)
    a = it.new_obj(A.cls, {"terms": it.new_dict([(((v.int("r", 0), 1),), v.real("z"))])})
    r = v.call(CO + "double_commutator", a, hop(q[0], q[1], x), hop(q[2], q[3], y), v.list([q[0], q[1]]), v.list([q[2], q[3]]), True, True)
    shared = [i for i in (0, 1) if rank[i] in rank[2:]]
    if len(shared) != 1:
        got = A.items(r)
        v.prove(not seen and not got, "operators sharing no mode or both commute")
        return
    i = 1 - shared[0]
    j = 2 if rank[3] == rank[shared[0]] else 3
    if not (len(seen) == 1 and isinstance(r, SU) and r.term.eq(f.term) and isinstance(seen[0][1], VObj)):
        raise Unsupported("another way to get the double commutator")
    v.prove(seen[0][0].ref == a.ref, "commutator with the first operator")
    got = A.items(seen[0][1])
    v.prove(len(got) == 2, "two terms")
    for t, c_ in ((((q[i], 1), (q[j], 0)), x * y), (((q[j], 1), (q[i], 0)), -x * y)):
        mine = [w for u, w in got if it.decide(to_z3_bool(it.eq(u, t)))]
        v.prove(len(mine) == 1 and to_z3_real(mine[0]) == c_, "hopping between the unshared modes")


for _kind in ("qubit", "fermion", "ising"):
    def _mk(kind):
        @P.obligation(f"the number of qubits of a {kind} operator is one more than its largest index", targets=[OU + "count_qubits"], bound="up to 3 terms of up to 2 factors, any indices")
        def _(v):
            it = v.it
            A = Alg(v, kind, False)
            lens = v.choose([(), (0,), (1,), (2,), (0, 1), (1, 2), (2, 2), (2, 0, 1)], "factors of the terms")
            act = {"qubit": "X", "ising": "Z", "fermion": 1}[kind]
            terms, all_ = [], []
            for j, l in enumerate(lens):
                q = [v.int(f"index{j}_{i}", 0) for i in range(l)]
                if kind != "fermion":
                    for x, y in zip(q, q[1:]):
                        v.assume(x < y)
                all_ += q
                terms.append((tuple((x, act) for x in q), v.real(f"c{j}")))
            for (s, _), (t, _) in combinations(terms, 2):
                if len(s) == len(t):
                    v.assume(z3.Not(to_z3_bool(it.eq(s, t))))
            a = it.new_obj(A.cls, {"terms": it.new_dict(terms)})
            r = zint(v.call(OU + "count_qubits", a))
            if not all_:
                v.prove(r == 0, "no factors: 0")
                return
            v.prove(z3.And(*[r >= x + 1 for x in all_]), "every index fits")
            v.prove(z3.Or(*[r == x + 1 for x in all_]), "not more than needed")
    _mk(_kind)


@P.obligation("count_qubits of a tensor is its number of modes; other types are rejected; is_identity accepts exactly the single empty term", targets=[OU + "count_qubits", OU + "is_identity"])
def _(v):
    it = v.it
    n = v.int("n", 0)
    o = v.opaque("tensor", Iface("tensor", classes={"PolynomialTensor"}, attrs={"n_qubits": lambda it, s: n}))
    v.prove(zint(v.call(OU + "count_qubits", o)) == n, "modes")
    v.raises(TypeError, lambda: v.call(OU + "count_qubits", v.opaque("thing")), "count_qubits of something else")
    v.raises(TypeError, lambda: v.call(OU + "is_identity", v.opaque("thing")), "is_identity of something else")
    for kind in ("qubit", "fermion"):
        A = Alg(v, kind, False)
        for k in (0, 1, 2):
            a, ia = A.op(f"{kind}{k}", k)
            r = to_z3_bool(it.truth(v.call(OU + "is_identity", a)))
            v.prove(r == (ia[0][0].term == IDENTITY if k == 1 else z3.BoolVal(False)), f"{k} terms")


for _n in (0, 1, 2, 3):
    def _mk(n):
        @P.obligation(f"reordering modes of an operator with {n} factors maps every mode by the order function (or back), coefficients kept", targets=[TR + "reorder"], bound=f"one or two terms with {n} factors, up to 3 modes, any injective order function; coefficients not negligible", budget=200)
        def _(v):
            it = v.it
            A = Alg(v, "fermion", False)
            small(v)
            m = v.choose((1, 2, 3) if n < 3 else (1, 2), "modes")
            idx = v.choose(list(cart(range(m), repeat=n)), "indices")
            back = it.decide(v.bool("reverse"))
            explicit = it.decide(v.bool("explicit number of modes"))
            if not explicit and (not idx or max(idx) != m - 1):
                return
            perm = v.int_fn("order", 0)
            f = [perm(z3.IntVal(i)) for i in range(m)]
            for x, y in combinations(f, 2):
                v.assume(x != y)
            if back:
                p = v.choose([p for p in cart(range(m), repeat=m) if len(set(p)) == m], "order")
                for i, x in enumerate(p):
                    v.assume(f[i] == x)
            co = v.real("c")
            term = tuple((i, j % 2) for j, i in enumerate(idx))
            other = tuple((i, 1 - j % 2) for j, i in enumerate(idx))
            items = [(term, co)] + ([(other, v.real("d"))] if n else [])
            for _, x in items:
                v.assume(z3.Or(x >= z3.Q(1, 10 ** 8), x <= z3.Q(-1, 10 ** 8)))
            a = it.new_obj(A.cls, {"terms": it.new_dict(list(items))})
            calls = []
            fn = v.opaque("order_function", Iface("order function", call=lambda it, s, a, k: (calls.append(tuple(a)), perm(zint(a[0])))[1]))
            r = v.call(TR + "reorder", a, fn, *([m] if explicit else []), **({"reverse": True} if back else {}))
            v.prove(all(len(x) == 2 and it.decide(to_z3_bool(it.eq(x[1], m))) for x in calls), "the order function gets the number of modes")
            image = (lambda i: p.index(i)) if back else (lambda i: f[i])
            got = A.items(r)
            v.prove(len(got) == len(items) and r.cls is A.cls and r.ref != a.ref, "one term per term")
            for t, x in items:
                w = tuple((image(i), d) for i, d in t)
                mine = [y for u, y in got if it.decide(to_z3_bool(it.eq(u, w)))]
                v.prove(len(mine) == 1 and to_z3_real(mine[0]) == x, "the renamed term with its coefficient")
            v.prove([t for t, _ in A.items(a)] == [t for t, _ in items], "operand unchanged")
    _mk(_n)


def tensor(v, name, n, order, cplx):
    """an n x ... x n array of any numbers"""
    return v.it.new_arr([number(v, f"{name}_{'_'.join(map(str, ix))}", cplx) for ix in cart(range(n), repeat=order)], (n,) * order)


def entry(v, a, ix):
    return parts(v.it, v.it.getitem(a, ix))


def same_number(v, x, y, why):
    v.prove(z3.And(x[0] == y[0], x[1] == y[1]), why)


def interaction(v, n, cplx):
    it = v.it
    o = it.call(v.fn(OPS), [number(v, "constant", cplx), tensor(v, "h", n, 2, cplx), tensor(v, "g", n, 4, cplx)], {})
    return o, snapshot(v, o, n)


def snapshot(v, o, n):
    return [parts(v.it, v.attr(o, "constant"))] + [entry(v, v.attr(o, t), ix) for t, k in (("one_body_tensor", 2), ("two_body_tensor", 4)) for ix in cart(range(n), repeat=k)]


for _n in (1, 2, 3, 4):
    def _mk(n):
        @P.obligation(f"normal ordering of an interaction operator on {n} modes: the same operator with descending pairs", targets=[TR + "normal_ordered"], bound=f"{n} modes, any coefficients", budget=200)
        def _(v):
            it = v.it
            o, before = interaction(v, n, False)
            r = v.call(TR + "normal_ordered", o)
            v.prove(isinstance(r, VObj) and r.ref != o.ref and r.cls is v.fn(OPS), "a new interaction operator")
            same_number(v, parts(it, v.attr(r, "constant")), parts(it, v.attr(o, "constant")), "constant")
            h, g, h2, g2 = (v.attr(x, t) for x in (o, r) for t in ("one_body_tensor", "two_body_tensor"))
            for ix in cart(range(n), repeat=2):
                same_number(v, entry(v, h2, ix), entry(v, h, ix), "one-body part")
            forms = {}
            for t, sums in ((g, 0), (g2, 1)):
                for ix in cart(range(n), repeat=4):
                    x = entry(v, t, ix)
                    p, q, a, b = ix
                    if sums and not (p > q and a > b):
                        v.prove(z3.And(x[0] == 0, x[1] == 0), f"no term with indices {ix}")
                    if p == q or a == b:
                        continue
                    s = (1 if p > q else -1) * (1 if a > b else -1)
                    key = (max(p, q), min(p, q), max(a, b), min(a, b))
                    f = forms.setdefault(key, [z3.RealVal(0), z3.RealVal(0)])
                    f[sums] = f[sums] + s * x[0]
            for k, (x, y) in forms.items():
                v.prove(x == y, f"coefficient of the ordered term {k}")
            for x, y in zip(before, snapshot(v, o, n)):
                same_number(v, x, y, "operand unchanged")
    _mk(_n)

for _n in (1, 2, 3):
    def _mk(n):
        @P.obligation(f"the conjugate of an interaction operator on {n} modes: conjugated tensors with reversed indices; twice gives it back", targets=[OU + "hermitian_conjugated"], bound=f"{n} modes, any complex coefficients", budget=120)
        def _(v):
            it = v.it
            o, before = interaction(v, n, True)
            r = v.call(OU + "hermitian_conjugated", o)
            v.prove(isinstance(r, VObj) and r.ref != o.ref and r.cls is v.fn(OPS), "a new interaction operator")
            conj = lambda x: (x[0], -x[1])
            same_number(v, parts(it, v.attr(r, "constant")), conj(parts(it, v.attr(o, "constant"))), "constant")
            for t, k in (("one_body_tensor", 2), ("two_body_tensor", 4)):
                for ix in cart(range(n), repeat=k):
                    same_number(v, entry(v, v.attr(r, t), ix), conj(entry(v, v.attr(o, t), ix[::-1])), t)
            for x, y in zip(before, snapshot(v, o, n)):
                same_number(v, x, y, "operand unchanged")
            for x, y in zip(before, snapshot(v, v.call(OU + "hermitian_conjugated", r), n)):
                same_number(v, x, y, "conjugating twice")
    _mk(_n)


@P.obligation("a matrix is Hermitian exactly if it is within the tolerance of its conjugate transpose", targets=[OU + "is_hermitian", OU + "hermitian_conjugated"], bound="matrices up to 3 x 3, any real entries")
def _(v):
    it = v.it
    n = v.choose((1, 2, 3), "size")
    a = tensor(v, "a", n, 2, False)
    r = to_z3_bool(it.truth(v.call(OU + "is_hermitian", a)))
    d = [entry(v, a, (i, j))[0] - entry(v, a, (j, i))[0] for i, j in cart(range(n), repeat=2)]
    v.prove(r == z3.And(*[z3.And(x < z3.Q(1, 10 ** 8), -x < z3.Q(1, 10 ** 8)) for x in d]), "entries")
    adj = v.call(OU + "hermitian_conjugated", a)
    for i, j in cart(range(n), repeat=2):
        same_number(v, entry(v, adj, (i, j)), entry(v, a, (j, i)), "adjoint")


@P.obligation("chemist ordering of ordered one- and two-body terms: the same operator in a+ a a+ a form", targets=[TR + "chemist_ordered"], bound="one two-body, one one-body and the constant term on any modes; coefficients not negligible and not cancelling", budget=120)
def _(v):
    it = v.it
    small(v)
    q, rank, levels = ranked(v, 4)
    if rank[0] <= rank[1] or rank[2] <= rank[3]:
        return
    A = Alg(v, "fermion", False)
    x, y, z = v.real("x"), v.real("y"), v.real("z")
    two = ((q[0], 1), (q[1], 1), (q[2], 0), (q[3], 0))
    one = ((q[0], 1), (q[3], 0))
    for w in (x, y, z, x + y):
        v.assume(z3.Or(w >= z3.Q(1, 10 ** 7), w <= z3.Q(-1, 10 ** 7)))
    items = [(two, x), (one, y), ((), z)]
    a = it.new_obj(A.cls, {"terms": it.new_dict(list(items))})
    ordered = it.new_obj(A.cls, {"terms": it.new_dict(list(items))})
    seen = []
    v.contract(TR + "normal_ordered", lambda it, a, k: (seen.append(a[0]), ordered)[1])
    conserving = it.decide(v.bool("number conserving"))
    v.contract(CLS["fermion"] + ".is_two_body_number_conserving", lambda it, a, k: conserving)
    if not conserving:
        v.raises(TypeError, lambda: v.call(TR + "chemist_ordered", a), "other operators are rejected")
        return
    r = v.call(TR + "chemist_ordered", a)
    v.prove(isinstance(r, VObj) and r.cls is A.cls and r.ref != a.ref, "a new operator")
    if len(seen) != 1:
        raise Unsupported("another way to order")
    lv = lambda m: next(k for k, u in enumerate(levels) if it.decide(to_z3_bool(it.eq(u, m))))
    total = {}

    def collect(ops, s):
        for t, c_ in ops:
            fs = it.as_seq(t).concrete()
            for w, k in normal_form(tuple((lv(m), d) for m, d in fs)).items():
                total[w] = total.get(w, z3.RealVal(0)) + s * k * to_z3_real(c_)
    got = A.items(r)
    for t, _ in got:
        fs = it.as_seq(t).concrete()
        v.prove([d for _, d in fs] in ([], [1, 0], [1, 0, 1, 0]), "creation and annihilation alternate")
    collect(got, 1)
    collect(items, -1)
    for w, s in total.items():
        v.prove(s == 0, f"normal form: {w}")
    v.prove([t for t, _ in A.items(a)] == [t for t, _ in items], "operand unchanged")
