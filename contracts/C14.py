"""C14: outcome distributions; any number of outcomes of any length, any probabilities."""
from fractions import Fraction
from pyvc.contract import Property
from pyvc.loops import big_sum
from .spec import *

P = Property("C14", trusted=[])
MD = C + "distribution._measurement_outcome_distribution:"
MOD = MD + "MeasurementOutcomeDistribution"
FLOAT_MIN = Fraction(2.2250738585072014e-308)


class Dist:
    """a dictionary with n (distinct) keys of length(i) integers digit(i, j) and values p(i)"""

    def __init__(self, v, name="", lo=0, valid=False, length=None):
        self.v, self.n = v, v.int("n" + name, lo)
        self.ln = (lambda i: length) if length is not None else v.int_fn("length" + name, 0)
        self.x = z3.Function("digit" + name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.p = z3.Function("weight" + name, z3.IntSort(), z3.RealSort())
        if isinstance(self.n, int):
            q = z3.Int("vq")
            for a in range(self.n):
                for b in range(a):
                    la, lb = self.ln(z3.IntVal(a)), self.ln(z3.IntVal(b))
                    v.assume(z3.Or(la != lb, z3.Exists([q], z3.And(q >= 0, q < la, self.x(a, q) != self.x(b, q)))))
        else:
            w = z3.Function("apart" + name, z3.IntSort(), z3.IntSort(), z3.IntSort())
            v.it.distinct_hints.append(lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < self.n), z3.Or(
                self.ln(i) != self.ln(j), z3.And(w(i, j) >= 0, w(i, j) < self.ln(i), self.x(i, w(i, j)) != self.x(j, w(i, j))))))
        if valid:
            i, j = z3.Ints("vi vj")
            v.it.axioms += [z3.ForAll([i], self.p(i) >= 0, patterns=[self.p(i)]), z3.ForAll([i, j], self.x(i, j) >= 0, patterns=[self.x(i, j)])]

    def key(self, i):
        return self.v.seq("key", self.ln(i), lambda j: self.x(i, j))

    def items(self, f=None):
        return self.v.seq("items", self.n, lambda i: (self.key(i), (f or (lambda p: p))(self.p(i))))

    def dict(self):
        s = self.items()
        c = s.concrete()
        return VDict(self.v.it.alloc(tuple(c) if c is not None else s))

    def total(self):
        i = z3.Int("ti")
        r = big_sum(self.v.it, self.n, i, self.p(i))
        return to_z3_real(r)


def content(v, d):
    c = v.it.heap[d.ref]
    return Seq([Unit(x) for x in c]) if isinstance(c, tuple) else c


def forall(n, f):
    i = z3.Int("fi")
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f(i)))


@P.obligation("is_normalized: the weights sum to 1 up to a relative 1e-9", targets=[MD + "is_normalized"])
def _(v):
    d = Dist(v)
    s = d.total()
    m = z3.If(s >= 0, s, -s)
    r = v.call(MD + "is_normalized", d.dict())
    v.prove(to_z3_bool(v.it.truth(r)) == (z3.If(s >= 1, s - 1, 1 - s) <= z3.Q(1, 10 ** 9) * z3.If(m >= 1, m, 1)), "is_normalized")


@P.obligation("is_measurement_outcome_distribution: not empty, no negative weight, keys of one length, no negative key element", targets=[MD + "is_measurement_outcome_distribution"])
def _(v):
    d = Dist(v)
    r = v.call(MD + "is_measurement_outcome_distribution", d.dict())
    i, j = z3.Ints("gi gj")
    nz = d.n if is_z3(d.n) else z3.IntVal(d.n)
    keys = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < nz, j >= 0, j < d.ln(i)), d.x(i, j) >= 0))
    v.prove(to_z3_bool(v.it.truth(r)) == z3.And(nz > 0, forall(nz, lambda i: d.p(i) >= 0), forall(nz, lambda i: d.ln(i) == d.ln(0)), keys), "is a distribution")


@P.obligation("normalizing divides every weight by their sum (a zero or denormal sum is rejected), keeps the keys and their order", targets=[MD + "normalize_measurement_outcome_distribution"])
def _(v):
    d = Dist(v, valid=True)
    s = d.total()
    v.assume(s >= z3.RealVal(FLOAT_MIN.numerator) / FLOAT_MIN.denominator)
    r = v.call(MD + "normalize_measurement_outcome_distribution", d.dict())
    v.same(content(v, r), d.items(lambda p: p / s), "normalized")


@P.obligation("weights that sum to zero or to less than the smallest float are rejected", targets=[MD + "normalize_measurement_outcome_distribution"])
def _(v):
    d = Dist(v, valid=True)
    s = d.total()
    v.assume(z3.And(s >= 0, s < z3.RealVal(FLOAT_MIN.numerator) / FLOAT_MIN.denominator))
    v.raises(ValueError, lambda: v.call(MD + "normalize_measurement_outcome_distribution", d.dict()), "rejected")


def construct(v, d, dd, *flags):
    return v.call(MOD, dd, *flags)


@P.obligation("construction: normalized weights are kept, other weights are divided by their sum unless asked otherwise; the argument is not modified and not shared", targets=[MOD + ".__init__", MD + "preprocess_distibution_dict"])
def _(v):
    d = Dist(v, lo=1, valid=True, length=v.int("length", 0))
    s = d.total()
    near = v.call(MD + "is_normalized", d.dict())
    for flags, norm in (((), True), ((True,), True), ((False,), False)):
        arg = d.dict()
        if norm:
            v.assume(s >= z3.RealVal(FLOAT_MIN.numerator) / FLOAT_MIN.denominator)
        o = v.call(MOD, arg, *flags)
        r = v.attr(o, "distribution_dict")
        keep = v.it.decide(to_z3_bool(v.it.truth(near)))
        v.same(content(v, r), d.items() if keep or not norm else d.items(lambda p: p / s), f"weights {flags}")
        v.prove(r.ref != arg.ref, f"its own dictionary {flags}")
        v.same(content(v, arg), d.items(), f"the argument {flags}")
        v.prove(v.it.eq(v.method(o, "get_number_of_subsystems"), d.ln(0)), f"number of subsystems {flags}")


@P.obligation("construction rejects inputs that are not distributions", targets=[MOD + ".__init__"])
def _(v):
    d = Dist(v)
    nz = d.n if is_z3(d.n) else z3.IntVal(d.n)
    i, j = z3.Ints("gi gj")
    keys = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < nz, j >= 0, j < d.ln(i)), d.x(i, j) >= 0))
    v.assume(z3.Not(z3.And(nz > 0, forall(nz, lambda i: d.p(i) >= 0), forall(nz, lambda i: d.ln(i) == d.ln(0)), keys)))
    for flags in ((), (False,)):
        v.raises(RuntimeError, lambda: v.call(MOD, d.dict(), *flags), f"rejected {flags}")


@P.obligation("keys that are neither text nor tuples, and tuples of other things than integers, are rejected", targets=[MOD + ".__init__", MD + "preprocess_distibution_dict"], bound="one or two outcomes; any weights")
def _(v):
    p, q = v.real("p"), v.real("q")
    v.assume(z3.And(p >= 0, q >= 0))
    for a in (1, None, frozenset([1]), 1.5):
        for items in ([(a, p)], [((0,), p), (a, q)], [(a, p), ("0", q)]):
            if not isinstance(a, frozenset):
                v.raises(RuntimeError, lambda: v.call(MOD, v.it.new_dict(items)), f"key {a}")
    for k in ((0.5,), ("0",), (None,), (-1,), (0, -3)):
        v.raises(RuntimeError, lambda: v.call(MOD, v.it.new_dict([(k, p)])), f"key {k}")
    v.raises(RuntimeError, lambda: v.call(MOD, v.it.new_dict([((0,), p), ((0, 1), q)])), "keys of two lengths")


@P.obligation("a probability vector becomes the distribution of its entries over the bitstrings in lexicographic order, qubit 0 first", targets=[MD + "create_bitstring_distribution_from_probability_distribution"], bound="1 to 3 qubits; any probabilities")
def _(v):
    import itertools
    for n in (1, 2, 3):
        p = [v.real(f"p{n}_{i}") for i in range(2 ** n)]
        got = []
        v.contract(MOD, lambda it, a, k: got.append(list(a) + list(k.values())) or v.opaque("distribution"))
        v.call(MD + "create_bitstring_distribution_from_probability_distribution", v.it.new_arr(p, (2 ** n,)))
        v.prove(len(got) == 1 and len(got[0]) == 1, f"one distribution {n}")
        v.same(content(v, got[0][0]), Seq.of([(k, x) for k, x in zip(itertools.product((0, 1), repeat=n), p)]), f"outcomes {n}")


@P.obligation("the distance of two distributions is the given measure of them, with the given options; distributions of different width, only one of which is normalized, and other objects are rejected", targets=[MD + "evaluate_distribution_distance"])
def _(v):
    a, b = Dist(v, "a", 1, True, v.int("la", 0)), Dist(v, "b", 1, True, v.int("lb", 0))
    A, B = v.call(MOD, a.dict(), False), v.call(MOD, b.dict(), False)
    calls = []
    f = Builtin("measure", lambda it, x, k: calls.append((x, k)) or v.opaque("distance"))
    na, nb = (to_z3_bool(v.it.truth(v.call(MD + "is_normalized", x.dict()))) for x in (a, b))
    opt = v.opaque("options")
    E = MD + "evaluate_distribution_distance"
    for bad in (v.opaque("other"), a.dict(), None):
        v.raises(TypeError, lambda: v.call(E, bad, B, f), "target")
        v.raises(TypeError, lambda: v.call(E, A, bad, f), "measured")
    if v.it.decide(z3.And(na == nb, a.ln(0) == b.ln(0))):
        r = v.call(E, A, B, f, distance_measure_parameters=opt)
        v.prove(len(calls) == 1 and calls[0][0][0] is A and calls[0][0][1] is B and len(calls[0][0]) == 2 and list(calls[0][1]) == ["distance_measure_parameters"] and calls[0][1]["distance_measure_parameters"] is opt, "the measure of the two distributions")
        v.same(r, v.opaque("distance"), "its value")
    else:
        v.raises(RuntimeError, lambda: v.call(E, A, B, f), "rejected")
        v.prove(not calls, "not evaluated")


class Texts:
    """opaque texts: whether they contain a comma, their comma-separated pieces, their characters; digit: the number a text denotes"""

    def __init__(self, v):
        self.v = v
        I, B = z3.IntSort(), z3.BoolSort()
        self.comma, self.full = z3.Function("has_comma", U, B), z3.Function("is_nonempty", U, B)
        self.npieces, self.piece = z3.Function("n_pieces", U, I), z3.Function("piece", U, I, U)
        self.nchars, self.char, self.digit = z3.Function("n_chars", U, I), z3.Function("char", U, I, U), z3.Function("number_of", U, I)
        q = z3.Const("q_text", U)
        v.it.axioms += [z3.ForAll([q], self.npieces(q) >= 0, patterns=[self.npieces(q)]), z3.ForAll([q], self.nchars(q) >= 0, patterns=[self.nchars(q)])]
        seq = lambda n, f: v.seq("texts", n, f)
        self.known = {}        # function symbol of a text -> its pieces and its characters

        def known(t, which):
            f = self.known.get(t.decl().name())
            return None if f is None else f(t.arg(0))[which]

        def split(it, s, a, k):
            if list(a) != [","] or k:
                raise Unsupported("split")
            if known(s.term, 0) is not None:
                return it.new_list(known(s.term, 0))
            return it.new_list(seq(self.npieces(s.term), lambda j: SU(self.piece(s.term, j), self.TEXT)))

        def contains(it, s, x):
            if x != ",":
                raise Unsupported("substring test")
            return self.comma(s.term)
        self.TEXT = Iface("text", classes=("str",), contains=contains, iter=lambda it, s: known(s.term, 1) or seq(self.nchars(s.term), lambda j: SU(self.char(s.term, j), self.TEXT)),
                          methods={"split": split}, ops={"int": lambda it, s: self.digit(s.term)}, truth=lambda it, s: self.full(s.term))

    def pieces(self, t):
        return self.v.seq("pieces", self.npieces(t), None, [(lambda j: self.full(self.piece(t, j)), lambda j: self.digit(self.piece(t, j)))])

    def chars(self, t):
        return self.v.seq("digits", self.nchars(t), lambda j: self.digit(self.char(t, j)))


@P.obligation("text keys are read as comma-separated numbers, or, without a comma, as one digit after the other; weights stay with their keys; the argument is not modified", targets=[MD + "preprocess_distibution_dict"])
def _(v):
    tx = Texts(v)
    n = v.int("n", 0)
    t = z3.Function("text_of", z3.IntSort(), U)
    p = z3.Function("weight", z3.IntSort(), z3.RealSort())
    items = v.seq("items", n, lambda i: (SU(t(i), tx.TEXT), p(i)))
    v.it.distinct_hints.append(lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < n), t(i) != t(j)))
    arg = VDict(v.it.alloc(tuple(items.concrete()) if items.concrete() is not None else items))
    r = v.call(MD + "preprocess_distibution_dict", arg)
    v.same(content(v, r), v.seq("want", n, lambda i: (tx.chars(t(i)), p(i)), [(lambda i: tx.comma(t(i)), lambda i: (tx.pieces(t(i)), p(i)))]), "outcomes")
    v.same(content(v, arg), items, "the argument")


def text_of(it, s):
    """the decimal numbers of s joined by commas, and a further comma after a single number of several digits"""
    j = it.builtins["str"].fn
    t = it.call(it.getattr(",", "join"), [it.new_list(it.map_seq(s, lambda x: j(it, [x], {})))], {})
    return t


@P.obligation("an outcome is written as its numbers joined by commas, with one more comma after a single number of several digits", targets=[MD + "_join_subkeys"])
def _(v):
    d = Dist(v, valid=True)
    i = v.int("i", 0)
    s = d.key(i)
    r = v.call(MD + "_join_subkeys", s)
    n = v.it.seq_len(s)
    long = v.it.decide(to_z3_bool(v.it.and_([v.it.eq(n, 1), d.x(i, 0) > 9])))
    v.same(r, v.it.binop("+", text_of(v.it, s), "," if long else ""), "text")


def written(v, d, tx):
    """contract of _join_subkeys, as proved above, with what the library's join and split say about such a text: its pieces are
    the decimal numbers and, after a trailing comma, an empty text; without a comma it is empty or the text of one digit"""
    T = z3.Function("text_of_key" + d.p.name(), z3.IntSort(), U)
    DEC = Iface("decimal", classes=("str",), ops={"int": lambda it, s: tx.digit(s.term)}, truth=lambda it, s: True)
    D = z3.Function("decimal" + d.p.name(), z3.IntSort(), z3.IntSort(), U)
    i, j = z3.Ints("wi wj")
    ln = lambda i: d.ln(i) if is_z3(d.ln(i)) else z3.IntVal(d.ln(i))
    single = lambda i: z3.And(ln(i) == 1, d.x(i, 0) > 9)
    v.it.axioms += [z3.ForAll([i], tx.comma(T(i)) == z3.Or(ln(i) > 1, single(i)), patterns=[T(i)]), z3.ForAll([i, j], tx.digit(D(i, j)) == d.x(i, j), patterns=[D(i, j)])]
    if isinstance(d.n, int) and d.n > 1:
        v.it.axioms.append(z3.Distinct(*[T(z3.IntVal(q)) for q in range(d.n)]))
    v.it.distinct_hints.append(lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < d.n), T(i) != T(j)))
    numbers = lambda i: v.seq("numbers", d.ln(i), lambda j: SU(D(i, j), DEC))
    tx.known[T.name()] = lambda i: (numbers(i) + v.flat(z3.If(single(i), z3.IntVal(1), z3.IntVal(0)), lambda _: Seq([Unit("")])), numbers(i))

    def join(it, a, k):
        s = it.as_seq(a[0])
        n = d.n if is_z3(d.n) else None
        at = it.index_vars[-1] if it.index_vars else None
        if at is not None:
            v.same(s, d.key(at), "the outcome that is written")
            return SU(T(at), tx.TEXT)
        for q in range(d.n):
            from pyvc.prove import same_value
            if same_value(it, s, d.key(z3.IntVal(q))) is True:
                return SU(T(z3.IntVal(q)), tx.TEXT)
        raise Unsupported("key")
    v.contract(MD + "_join_subkeys", join)
    return T


@P.obligation("key conversion: tuples are written, texts stay, weights stay with their keys; the argument is not modified", targets=[MD + "change_tuple_dict_keys_to_comma_separated_integers"])
def _(v):
    tx = Texts(v)
    d = Dist(v, valid=True)
    T = written(v, d, tx)
    arg = d.dict()
    r = v.call(MD + "change_tuple_dict_keys_to_comma_separated_integers", arg)
    want = v.seq("want", d.n, lambda i: (SU(T(i), tx.TEXT), d.p(i)))
    v.same(content(v, r), want, "texts")
    v.same(content(v, arg), d.items(), "the argument")
    r2 = v.call(MD + "change_tuple_dict_keys_to_comma_separated_integers", r)
    v.same(content(v, r2), want, "texts stay")


@P.obligation("reading the text of an outcome gives the outcome", targets=[MD + "preprocess_distibution_dict", MD + "_join_subkeys"])
def _(v):
    tx = Texts(v)
    d = Dist(v, valid=True)
    written(v, d, tx)
    r = v.call(MD + "preprocess_distibution_dict", v.call(MD + "change_tuple_dict_keys_to_comma_separated_integers", d.dict()))
    v.same(content(v, r), d.items(), "the outcomes and weights")


@P.obligation("a normalized distribution survives saving and loading (file name and file object), and saving leaves it alone", targets=[MD + "save_measurement_outcome_distribution", MD + "load_measurement_outcome_distribution"])
def _(v):
    tx = Texts(v)
    d = Dist(v, lo=1, valid=True, length=v.int("length", 0))
    written(v, d, tx)
    v.assume(v.it.truth(v.call(MD + "is_normalized", d.dict())))
    o = v.call(MOD, d.dict())
    v.call(MD + "save_measurement_outcome_distribution", o, "d.json")
    f = v.call(v.it.builtins["open"], "d.json", "r")
    for src, what in (("d.json", "by name"), (f, "by file object")):
        r = v.call(MD + "load_measurement_outcome_distribution", src)
        v.same(content(v, v.attr(r, "distribution_dict")), d.items(), what)
    v.same(content(v, v.attr(o, "distribution_dict")), d.items(), "the distribution")


@P.obligation("a set of normalized distributions survives saving and loading (file name and file object), and saving leaves them alone", targets=[MD + "save_measurement_outcome_distributions", MD + "load_measurement_outcome_distributions"], bound="0, 1 or 2 distributions; any outcomes and weights")
def _(v):
    for m in (0, 1, 2):
        tx = Texts(v)
        ds = [Dist(v, f"_{m}{q}", lo=1, valid=True, length=v.int(f"length{m}{q}", 0)) for q in range(m)]
        os_, hs = [], []
        for d in ds:
            written(v, d, tx)
            hs.append((d, v.it.contracts[MD + "_join_subkeys"]))
            v.assume(v.it.truth(v.call(MD + "is_normalized", d.dict())))
            os_.append(v.call(MOD, d.dict()))

        def join(it, a, k):
            from pyvc.prove import same_value
            at = it.index_vars[-1] if it.index_vars else None
            for d, h in hs:
                if at is not None and same_value(it, it.as_seq(a[0]), d.key(at)) is True or at is None and any(same_value(it, it.as_seq(a[0]), d.key(z3.IntVal(q))) is True for q in range(d.n)):
                    return h(it, a, k)
            raise Unsupported("key")
        v.contract(MD + "_join_subkeys", join)
        v.call(MD + "save_measurement_outcome_distributions", v.list(list(os_)), "s.json")
        f = v.call(v.it.builtins["open"], "s.json", "r")
        for src, what in (("s.json", "by name"), (f, "by file object")):
            r = v.it.as_seq(v.call(MD + "load_measurement_outcome_distributions", src)).concrete()
            v.prove(r is not None and len(r) == m, f"{m} distributions {what}")
            for d, o in zip(ds, r):
                v.same(content(v, v.attr(o, "distribution_dict")), d.items(), f"{what} {m}")
        for d, o in zip(ds, os_):
            v.same(content(v, v.attr(o, "distribution_dict")), d.items(), f"the distributions {m}")


@P.obligation("files of the older format are read", targets=[MD + "load_measurement_outcome_distribution"])
def _(v):
    p = v.real("p")
    v.assume(z3.And(p >= 0, p <= 1))
    f = v.call(v.it.builtins["open"], "o.json", "w")
    v.it.models["json.dump"](v.it, [v.it.new_dict([("bitstring_distribution", v.it.new_dict([("01", p), ("10", 1 - p)]))]), f], {})
    r = v.call(MD + "load_measurement_outcome_distribution", "o.json")
    v.same(content(v, v.attr(r, "distribution_dict")), Seq.of([((0, 1), p), ((1, 0), 1 - p)]), "read")
