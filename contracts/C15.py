"""C15: distances of two distributions over any number of outcomes, any probabilities."""
from fractions import Fraction
from pyvc.contract import Property
from pyvc.loops import big_sum
from pyvc import mats
from .spec import *

P = Property("C15", trusted=["log and exp are functions of the reals (exp positive, exp 0 = 1; log needs a positive argument)"])
DI = C + "distribution."
NLL = DI + "clipped_negative_log_likelihood:compute_clipped_negative_log_likelihood"
JS = DI + "jensen_shannon_divergence:compute_jensen_shannon_divergence"
MMD, RBF, MRBF = (DI + "mmd:" + x for x in ("compute_mmd", "compute_rbf_kernel", "compute_multi_rbf_kernel"))
log = z3.Function("log", z3.RealSort(), z3.RealSort())
exp = z3.Function("exp", z3.RealSort(), z3.RealSort())
B, R, I = z3.BoolSort(), z3.RealSort(), z3.IntSort()


class World:
    """n distinct outcomes K(0..n-1), each listed by at least one of two distributions (in any order: the order of this list
    is arbitrary); distribution d lists K(i) iff has_d(K(i)), with weight p_d(K(i)).  The outcomes have any length and any digits."""

    def __init__(self, v, lo=0):
        self.v, self.n = v, v.int("n", lo)
        self.K = z3.Function("outcome", I, U)
        v.it.distinct_hints.append(lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < self.n), self.K(i) != self.K(j)))
        self.has = {d: z3.Function("lists_" + d, U, B) for d in "tm"}
        self.p = {d: z3.Function("weight_" + d, U, R) for d in "tm"}
        i, q = z3.Int("wi"), z3.Const("wq", U)
        nz = self.n if is_z3(self.n) else z3.IntVal(self.n)
        v.it.axioms += [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nz), z3.Or(*[h(self.K(i)) for h in self.has.values()])), patterns=[self.K(i)]),
                        z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nz), z3.And(*[p(self.K(i)) >= 0 for p in self.p.values()])), patterns=[self.K(i)])]
        if isinstance(self.n, int):
            v.assume(z3.And([z3.Or(*[h(self.K(z3.IntVal(a))) for h in self.has.values()]) for a in range(self.n)] + [p(self.K(z3.IntVal(a))) >= 0 for p in self.p.values() for a in range(self.n)] + [z3.BoolVal(True)]))
            if self.n > 1:
                v.assume(z3.Distinct(*[self.K(z3.IntVal(a)) for a in range(self.n)]))
        nd, digit = z3.Function("n_digits", U, I), z3.Function("digit", U, I, I)
        j = z3.Int("wj")
        v.it.axioms += [z3.ForAll([q], nd(q) >= 1, patterns=[nd(q)]), z3.ForAll([q, j], z3.And(digit(q, j) >= 0, digit(q, j) <= 1), patterns=[digit(q, j)])]
        if v.sizes is not None:
            self.OUT = Iface("outcome", classes=("tuple",), iter=lambda it, s: Seq([Unit(digit(s.term, z3.IntVal(j))) for j in range(3)]))
        else:
            self.OUT = Iface("outcome", classes=("tuple",), iter=lambda it, s: v.seq("digits", nd(s.term), lambda j: digit(s.term, j)))
        self.sets, self.views, self.dicts = {}, {}, {}
        self.writes = []

    def keys(self, ds):
        """the outcomes listed by any of the distributions ds"""
        if len(ds) == 2:
            return self.v.seq("outcomes", self.n, lambda i: SU(self.K(i), self.OUT))
        h = self.has[next(iter(ds))]
        return self.v.seq("outcomes", self.n, None, [(lambda i: h(self.K(i)), lambda i: SU(self.K(i), self.OUT))])

    def in_(self, ds, x):
        return z3.Or(*[self.has[d](x.term) for d in sorted(ds)])

    def view(self, ds, kind):
        """a set or a key view (kind) of the outcomes listed by any of ds"""
        ds = frozenset(ds)

        def other(it, x):
            if isinstance(x, SU) and x.term.decl().name().split(":")[0] in ("set", "view", "dictionary"):
                return frozenset(x.term.decl().name().split(":")[1])
            raise Unsupported("set operation")
        union = lambda it, s, a, k: self.view(ds.union(*[other(it, x) for x in a]), "set")
        f = Iface(kind, iter=lambda it, s: self.keys(ds), contains=lambda it, s, x: self.in_(ds, x),
                  methods={"union": union, "copy": lambda it, s, a, k: s} if kind == "set" else {}, ops={"set": lambda it, s: self.view(ds, "set"), "|": lambda it, s, b: self.view(ds | other(it, b), "set"), "r|": lambda it, a, s: self.view(ds | other(it, a), "set")})
        return SU(z3.Const(f"{kind}:{''.join(sorted(ds))}", U), f)

    def dictionary(self, d):
        v = self.v
        h, p = self.has[d], self.p[d]

        def getitem(it, s, x):
            if not it.decide(h(x.term)):
                raise PyExc(ExcInst(KeyError, (x,)))
            return p(x.term)

        def get(it, s, a, k):
            return it.ite(h(a[0].term), p(a[0].term), a[1] if len(a) > 1 else it._unsup("no default"))
        items = lambda it, s, a, k: v.seq("items", self.n, None, [(lambda i: h(self.K(i)), lambda i: (SU(self.K(i), self.OUT), p(self.K(i))))])
        values = lambda it, s, a, k: v.seq("values", self.n, None, [(lambda i: h(self.K(i)), lambda i: p(self.K(i)))])
        f = Iface("dictionary", classes=("dict",), iter=lambda it, s: self.keys({d}), contains=lambda it, s, x: h(x.term), getitem=getitem,
                  methods={"keys": lambda it, s, a, k: self.view({d}, "view"), "get": get, "items": items, "values": values}, ops={"set": lambda it, s: self.view({d}, "set")})
        return SU(z3.Const("dictionary:" + d, U), f)

    def dist(self, d):
        return SU(z3.Const("distribution:" + d, U), Iface("distribution", classes=("MeasurementOutcomeDistribution",), attrs={"distribution_dict": lambda it, t: self.dictionary(d)}))

    def w(self, d, i):
        """probability of outcome i, zero if not listed"""
        return z3.If(self.has[d](self.K(i)), self.p[d](self.K(i)), 0)

    def sum(self, f):
        i = z3.Int("si")
        self.v.it.index_vars.append(i)
        try:
            x = f(i)
        finally:
            self.v.it.index_vars.pop()
        return big_sum(self.v.it, self.n, i, x)


def clipped(w, a, b, eps):
    """- sum over all outcomes of a log(max(eps, b))"""
    it = w.v.it
    m = lambda i: z3.If(w.w(b, i) > eps, w.w(b, i), eps)
    return it.binop("*", -1, w.sum(lambda i: w.w(a, i) * log(m(i))))


def options(v, key, value):
    return v.it.new_dict([] if value is None else [(key, value)])


def unchanged(v, d, key, value):
    v.prove(v.it.heap[d.ref] == (() if value is None else ((key, value),)), "the options are not modified")


@P.obligation("clipped negative log-likelihood: minus the sum over all outcomes of target times log of measured, the latter at least epsilon (1e-9 if not given)", targets=[NLL])
def _(v):
    for eps in (None, v.real("epsilon")):
        w = World(v)
        if eps is not None:
            v.assume(eps > 0)
        o = options(v, "epsilon", eps)
        r = v.call(NLL, w.dist("t"), w.dist("m"), o)
        v.same(r, clipped(w, "t", "m", z3.Q(1, 10 ** 9) if eps is None else eps), f"value, epsilon {'default' if eps is None else 'given'}")
        unchanged(v, o, "epsilon", eps)


@P.obligation("Jensen-Shannon value: half of the clipped negative log-likelihood in both directions", targets=[JS])
def _(v):
    w = World(v)
    F = {x: v.real("value_" + x) for x in ("tm", "mt", "tt", "mm")}

    def nll(it, a, k):
        a = list(a) + [k[x] for x in ("target_distribution", "measured_distribution", "distance_measure_parameters")[len(a):]]
        v.prove(len(a) == 3 and a[2] is o, "with the same options")
        return F["".join(x.term.decl().name()[-1] for x in a[:2])]
    v.contract(NLL, nll)
    for eps in (None, v.real("epsilon")):
        o = options(v, "epsilon", eps)
        v.same(v.call(JS, w.dist("t"), w.dist("m"), o), (F["tm"] + F["mt"]) / 2, "both directions")
        unchanged(v, o, "epsilon", eps)
        v.same(v.call(JS, w.dist("m"), w.dist("t"), o), (F["tm"] + F["mt"]) / 2, "symmetric")


@P.obligation("Jensen-Shannon value in full", targets=[JS, NLL])
def _(v):
    w = World(v)
    eps = v.real("epsilon")
    v.assume(eps > 0)
    r = v.call(JS, w.dist("t"), w.dist("m"), options(v, "epsilon", eps))
    v.same(r, v.it.binop("/", v.it.binop("+", clipped(w, "t", "m", eps), clipped(w, "m", "t", eps)), 2), "value")


def vector(v, name, n):
    f = z3.Function(name, I, I)
    return v.it.models["numpy.array"](v.it, [v.list(v.seq(name, n, lambda i: f(i)))], {}), f


def entry(v, K, i, j):
    return v.it.getitem(K, (i, j))


def kernel(d, s):
    return exp(-(d * d) / (2 * s))


@P.obligation("Gaussian kernel: entry (i, j) is exp(-(x_i - y_j)^2 / (2 sigma)); width zero is rejected; the samples are not modified", targets=[RBF])
def _(v):
    n, m = v.int("n", 1), v.int("m", 1)
    (x, fx), (y, fy) = vector(v, "x", n), vector(v, "y", m)
    s = v.real("sigma")
    v.raises(ZeroDivisionError, lambda: v.call(RBF, x, y, 0), "width zero")
    v.assume(s > 0)
    K = v.call(RBF, x, y, s)
    sh = v.it.getattr(K, "shape")
    v.prove(to_z3_bool(v.it.and_([v.it.eq(sh[0], n), v.it.eq(sh[1], m)])), "shape")
    i, j = z3.Int("i"), z3.Int("j")
    v.assume(z3.And(i >= 0, i < n, j >= 0, j < m))
    if isinstance(n, int):
        for a in range(n):
            for b in range(m):
                v.same(entry(v, K, a, b), kernel(z3.ToReal(fx(z3.IntVal(a)) - fy(z3.IntVal(b))), s), "entry")
    else:
        v.same(entry(v, K, i, j), kernel(z3.ToReal(fx(i) - fy(j)), s), "entry")
    v.same(x, vector(v, "x", n)[0], "first samples")
    v.same(y, vector(v, "y", m)[0], "second samples")


@P.obligation("kernel of several widths: the mean of the Gaussian kernels of the widths; width zero is rejected", targets=[MRBF], bound="one to three widths, any values; any samples")
def _(v):
    n, m = v.int("n", 1), v.int("m", 1)
    (x, fx), (y, fy) = vector(v, "x", n), vector(v, "y", m)
    i, j = z3.Int("i"), z3.Int("j")
    v.assume(z3.And(i >= 0, i < n, j >= 0, j < m))
    for c in (1, 2, 3):
        s = [v.real(f"sigma{c}_{q}") for q in range(c)]
        v.assume(z3.And(*[q > 0 for q in s]))
        K = v.call(MRBF, x, y, v.list(s))
        for a in range(n) if isinstance(n, int) else (i,):
            for b in range(m) if isinstance(m, int) else (j,):
                d = z3.ToReal(fx(z3.IntVal(a) if isinstance(a, int) else a) - fy(z3.IntVal(b) if isinstance(b, int) else b))
                v.same(entry(v, K, a, b), sum(kernel(d, q) for q in s) / c, f"entry {c}")
        v.raises(ZeroDivisionError, lambda: v.call(MRBF, x, y, v.list(s[:-1] + [0])), "width zero")
    v.same(x, vector(v, "x", n)[0], "first samples")
    v.same(y, vector(v, "y", m)[0], "second samples")


def number(v, w, i):
    """the number whose binary digits are those of outcome i"""
    b = v.it.builtins
    s = w.OUT.iter(v.it, SU(w.K(i), w.OUT))
    t = v.it.call(v.it.getattr("", "join"), [v.list(v.it.map_seq(s, lambda x: b["str"].fn(v.it, [x], {})))], {})
    return b["int"].fn(v.it, [t, 2], {})


@P.obligation("squared maximum mean discrepancy: sum over all pairs of outcomes of the differences of their probabilities times the kernel of their numbers; one width or several, width 1 if not given", targets=[MMD])
def _(v):
    w = World(v, 1)
    k = z3.Function("kernel", U, I, I, R)
    kt = lambda it, s: it.embed(s)
    calls = []

    def contract(name):
        def f(it, a, kw):
            x, y, s = list(a) + [kw[q] for q in (("x_i", "y_j", "sigma") if name == RBF else ("x_i", "y_j", "sigmas"))[len(a):]]
            calls.append(name)
            sx, sy = it.as_seq(x), it.as_seq(y)
            cx, cy = sx.concrete(), sy.concrete()
            if cx is not None:
                return it.new_arr([k(kt(it, s), p, q) for p in cx for q in cy], (len(cx), len(cy)))
            return mats.new(it, it.seq_len(sx), it.seq_len(sy), lambda i, j: k(kt(it, s), mats.elt(it, sx, i), mats.elt(it, sy, j)))
        return f
    v.contract(RBF, contract(RBF))
    v.contract(MRBF, contract(MRBF))
    for s, key, which in ((None, 1, RBF), (v.real("sigma"), None, RBF), (v.list([v.real("s0"), v.real("s1")]), None, MRBF)):
        del calls[:]
        o = options(v, "sigma", s)
        r = v.call(MMD, w.dist("t"), w.dist("m"), o)
        v.prove(calls == [which], "the kernel")
        d = lambda i: w.w("t", i) - w.w("m", i)
        t = kt(v.it, 1 if s is None else s)
        want = w.sum(lambda i: v.it.binop("*", d(i), sum_j(v, w, lambda j: k(t, number(v, w, i), number(v, w, j)) * d(j))))
        v.same(r, want, f"value {which[-12:]}")
        unchanged(v, o, "sigma", s)


def sum_j(v, w, f):
    j = z3.Int("sj")
    v.it.index_vars.append(j)
    try:
        x = f(j)
    finally:
        v.it.index_vars.pop()
    return big_sum(v.it, w.n, j, x)


from . import C14          # the check of the arguments is specified with the distributions
P.obligations += [o for o in C14.P.obligations if C14.MD + "evaluate_distribution_distance" in o.targets]
