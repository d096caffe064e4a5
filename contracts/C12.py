"""C12: measurement records, counts and distributions; any number of shots, outcomes and bits."""
from pyvc.contract import Property
from pyvc.loops import big_sum
from .spec import *

P = Property("C12", trusted=[])
MM = C + "measurement:"
MS = MM + "Measurements"


class Outcomes:
    """n bitstrings given as strings; character j of string i is char(i, j) and reads as digit(char)"""

    def __init__(self, v, name="outcome", lo=0):
        self.v, self.n = v, v.int("n_" + name, lo)
        self.ln = v.int_fn("length_" + name, 0)
        self.key = z3.Function(name, z3.IntSort(), U)
        self.chars = z3.Function("char_of", U, z3.IntSort(), U)
        self.len = z3.Function("length_of", U, z3.IntSort())
        self.digit = z3.Function("digit_of", U, z3.IntSort())
        if isinstance(self.n, int) and self.n > 1:
            v.it.axioms.append(z3.Distinct(*[self.key(j) for j in range(self.n)]))
        v.it.distinct_hints.append(lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < self.n), self.key(i) != self.key(j)))
        q = z3.Const("q_key", U)
        v.it.axioms.append(z3.ForAll([q], self.len(q) >= 0, patterns=[self.len(q)]))
        self.CHAR = Iface("character", ops={"int": lambda it, s: self.digit(s.term)})
        self.KEY = Iface("string", classes=("str",), iter=lambda it, s: self.text(s.term))

    def text(self, t):
        return self.v.seq("chars", self.len(t), lambda j: SU(self.chars(t, j), self.CHAR))

    def bits(self, t):
        return self.v.seq("bits", self.len(t), lambda j: self.digit(self.chars(t, j)))

    def keys(self):
        return self.v.seq("keys", self.n, lambda i: SU(self.key(i), self.KEY))

    def mapping(self, value, name="counts"):
        """a dictionary with these keys; value: term of the key -> value"""
        it = self.v.it
        return self.v.opaque(name, Iface(name, classes=("dict",), getitem=lambda it, s, k: value(k.term), length=lambda it, s: self.n,
                             iter=lambda it, s: self.keys(),
                             methods={"keys": lambda it, s, a, k: self.v.list(self.keys()),
                                      "values": lambda it, s, a, k: self.v.list(self.v.seq("values", self.n, lambda i: value(self.key(i)))),
                                      "items": lambda it, s, a, k: self.v.list(self.v.seq("items", self.n, lambda i: (SU(self.key(i), self.KEY), value(self.key(i)))))}))


def count_fn(v, name="count"):
    f = z3.Function(name, U, z3.IntSort())
    q = z3.Const("q_count", U)
    v.it.axioms.append(z3.ForAll([q], f(q) >= 0, patterns=[f(q)]))
    return f


@P.obligation("adding counts appends each bitstring as a tuple of its digits, as often as counted, after what was there", targets=[MS + ".add_counts", MS + ".from_counts", MS + ".__init__"])
def _(v):
    o, cnt = Outcomes(v), count_fn(v)
    counts = o.mapping(lambda t: cnt(t))
    old = v.opaque_seq("old", v.int("n_old", 0))
    want = v.flat(o.n, lambda i: v.seq("copies", cnt(o.key(i)), lambda j: o.bits(o.key(i))))
    m = v.call(MS, v.list(old))
    v.method(m, "add_counts", counts)
    v.same(v.it.as_seq(v.attr(m, "bitstrings")), old + want, "add_counts")
    r = v.call(v.attr(v.fn(MS), "from_counts"), counts)
    v.same(v.it.as_seq(v.attr(r, "bitstrings")), want, "from_counts")
    e = v.call(MS)
    v.method(e, "add_counts", counts)
    v.same(v.it.as_seq(v.attr(v.call(MS), "bitstrings")), Seq([]), "a new record is empty")


@P.obligation("a record survives saving and loading (file name and file object), and saving leaves it alone", targets=[MS + ".save", MS + ".load_from_file"])
def _(v):
    n = v.int("n", 0)
    ln = v.int_fn("length", 0)
    x = z3.Function("bit", z3.IntSort(), z3.IntSort(), z3.IntSort())
    s = v.seq("tuples", n, lambda i: v.seq("bits", ln(i), lambda j: x(i, j)))
    v.contract(MS + ".get_counts", lambda it, a, k: v.opaque("counts"))
    m = v.call(MS, v.list(s))
    v.method(m, "save", "m.json")
    load = v.attr(v.fn(MS), "load_from_file")
    v.same(v.it.as_seq(v.attr(v.call(load, "m.json"), "bitstrings")), s, "by name")
    v.same(v.it.as_seq(v.attr(v.call(load, v.call(v.it.builtins["open"], "m.json", "r")), "bitstrings")), s, "by file object")
    v.same(v.it.as_seq(v.attr(m, "bitstrings")), s, "the record")


@P.obligation("the distribution of a record is counts over shots", targets=[MS + ".get_distribution"])
def _(v):
    o, cnt = Outcomes(v), count_fn(v)
    shots = v.int("shots", 1)
    v.contract(MS + ".get_counts", lambda it, a, k: o.mapping(lambda t: cnt(t)))
    got = []
    v.contract(C + "distribution._measurement_outcome_distribution:MeasurementOutcomeDistribution", lambda it, a, k: got.append(a + list(k.values())) or v.opaque("distribution"))
    m = v.call(MS, v.list(v.opaque_seq("bitstrings", shots)))
    v.method(m, "get_distribution")
    v.prove(len(got) == 1 and len(got[0]) == 1, "one distribution is made")
    items = v.method(got[0][0], "items")
    v.same(v.it.iterate(items), v.seq("items", o.n, lambda i: (SU(o.key(i), o.KEY), z3.ToReal(cnt(o.key(i))) / to_z3_real(shots))), "probabilities")


def representing(v, case):
    it = v.it
    o = Outcomes(v)
    N = v.int("n_samples", 1)
    p = z3.Function("probability", U, z3.RealSort())
    s = count_fn(v, "sampled")
    q = z3.Const("q_p", U)
    it.axioms.append(z3.ForAll([q], z3.And(p(q) >= 0, p(q) <= 1), patterns=[p(q)]))
    half_even = lambda t: it.builtins["round"].fn(it, [to_z3_real(N) * p(t)], {})
    r = lambda t: it.builtins["int"].fn(it, [half_even(t)], {})
    i = z3.Int("ri")
    total = big_sum(it, o.n, i, to_int(r(o.key(i))))
    v.assume({"exact": total == N, "add": total < N}[case])
    made, drawn = [], []

    def dist(it, a, k):
        made.append(list(a) + list(k.values()))
        return v.opaque("leftover", Iface("leftover", attrs={"distribution_dict": lambda it, s: v.opaque("leftover_dict")}))

    def sample(it, a, k):
        drawn.append(a)
        j = z3.Int("rj")
        it.axioms.append(big_sum(it, o.n, j, s(o.key(j))) == a[1])
        return o.mapping(lambda t: s(t), "samples")
    v.contract(C + "distribution._measurement_outcome_distribution:MeasurementOutcomeDistribution", dist)
    v.contract(C + "utils:sample_from_probability_distribution", sample)
    arg = v.opaque("distribution", Iface("distribution", attrs={"distribution_dict": lambda it, s: o.mapping(lambda t: p(t), "probabilities")}))
    m = v.call(v.attr(v.fn(MS), "get_measurements_representing_distribution"), arg, N)
    got = it.as_seq(v.attr(m, "bitstrings"))
    rounded = v.flat(o.n, lambda i: v.seq("copies", r(o.key(i)), lambda j: o.bits(o.key(i))))
    v.prove(it.eq(it.seq_len(got), N), "exactly the requested number of shots")
    if case == "exact":
        v.same(got, rounded, "the rounded frequencies")
    else:
        v.same(got, rounded + v.flat(o.n, lambda i: v.seq("extra", s(o.key(i)), lambda j: o.bits(o.key(i)))), "the rounded frequencies, then the drawn ones")
        v.prove(len(drawn) == 1 and drawn[0][1] is not None, "one draw")
        v.prove(it.eq(drawn[0][1], N - total), "the missing shots are drawn")


def to_int(x):
    return x if is_z3(x) and x.is_int() else z3.ToInt(to_z3_real(x)) if is_z3(x) else z3.IntVal(int(x))


@P.obligation("representing a distribution whose rounded frequencies add up: exactly those bitstrings", targets=[MS + ".get_measurements_representing_distribution"])
def _(v):
    representing(v, "exact")


@P.obligation("representing a distribution whose rounded frequencies fall short: those bitstrings and the missing number of drawn ones", targets=[MS + ".get_measurements_representing_distribution"])
def _(v):
    representing(v, "add")


@P.obligation("counts: the number of occurrences of each bitstring of the record, in order of first occurrence", targets=[MS + ".get_counts"])
def _(v):
    n = v.int("n", 0)
    ln = v.int_fn("length", 0)
    x = z3.Function("bit", z3.IntSort(), z3.IntSort(), z3.IntSort())
    s = v.seq("tuples", n, lambda i: v.seq("bits", ln(i), lambda j: x(i, j)))
    text = v.opaque_seq("text", n)
    v.contract(C + "utils:convert_tuples_to_bitstrings", lambda it, a, k: v.same(it.as_seq(a[0]), s, "the bitstrings are those of the record") or v.list(text))
    m = v.call(MS, v.list(s))
    v.same(v.method(m, "get_counts"), v.it.models["collections.Counter"](v.it, [v.list(text)], {}), "counts")
    v.same(v.it.as_seq(v.attr(m, "bitstrings")), s, "the record")
