"""C21: proportional rounding and the allocation of shots."""
from pyvc.contract import Property
from .spec import *
from . import C22

P = Property("C21", trusted=["the variances the proportions come from are those of C20 (callee contract)"])
EM = C22.EM
SD = C + "utils:scale_and_discretize"


def floor(x):
    return z3.ToInt(x)


def rounding(v, k, kind):
    it = v.it
    it.split_ranges = 8
    w = [v.real(f"weight{i}") for i in range(k)]
    total = v.int("total", 0)
    v.assume(z3.And(*[x >= 0 for x in w]))
    S = z3.simplify(sum(w[1:], w[0]))
    v.assume(S > 0)
    arg = v.list(list(w)) if kind == "list" else it.new_arr(list(w), (k,)) if kind == "array" else tuple(w)
    r = v.call(SD, arg, total)
    c = it.as_seq(r).concrete()
    v.prove(isinstance(r, VList) and c is not None and len(c) == k, "one number per weight")
    v.prove(all(is_intlike(x) for x in c), "integers")
    v.prove(to_z3_bool(it.eq(it.builtins["sum"].fn(it, [r], {}), total)), "the numbers sum to the total")
    for x, q in zip(w, c):
        share = x * (z3.ToReal(total) / S) if not isinstance(total, int) else x * (total / S)
        v.prove(to_z3_bool(it.cmp(">=", q, 0)), "non-negative")
        v.prove(z3.And(to_z3_real(q) - share < 1, share - to_z3_real(q) < 1), "less than one from the exact share")
        v.prove(z3.Implies(x == 0, to_z3_real(q) == 0), "nothing for weight zero")
    v.same(it.new_list(it.as_seq(arg)), v.list(list(w)), "the weights are not modified")


for _k, _kinds in ((1, ("list", "array", "tuple")), (2, ("list", "array", "tuple")), (3, ("list",))):
    for _kind in _kinds:
        def _mk(k, kind):
            @P.obligation(f"proportional rounding of {'an' if kind == 'array' else 'a'} {kind} of {k} weight{'s' if k > 1 else ''}: non-negative integers that sum to the total, each less than one from its exact share", targets=[SD], bound=f"{k} weights of any value, any total", budget=120)
            def _(v):
                rounding(v, k, kind)
        _mk(_k, _kind)


P.obligations += [o for o in C22.P.obligations if EM + "allocate_shots_uniformly" in o.targets]


@P.obligation("proportional allocation: the same operators and circuits in order, with the shots that rounding the tasks' relative numbers of measurements to the budget gives", targets=[EM + "allocate_shots_proportionally"])
def _(v):
    it = v.it
    n, f, s = C22.tasks(v)
    total = v.int("total", 1)
    share = z3.Function("share", z3.IntSort(), z3.IntSort())
    asked, rounded = [], []

    def nmeas(it, a, k):
        k = dict(zip(("frame_operators", "expecval"), a), **k)
        asked.append(k.get("expecval"))
        v.same(it.as_seq(k["frame_operators"]), v.seq("ops", n, lambda i: SU(C22.OPER(f(i)), C22.OPI)), "the operators of the tasks")
        return (v.opaque("K2"), v.opaque("nterms"), W)

    def split(it, a, k):
        k = dict(zip(("values", "total"), a), **k)
        rounded.append(k["values"] is W)
        v.prove(to_z3_bool(it.eq(k["total"], total)), "the whole budget")
        return v.list(v.seq("shares", n, lambda i: share(i)))
    W = v.opaque("relative numbers")
    v.contract(C + "hamiltonian:estimate_nmeas_for_frames", nmeas)
    v.contract(SD, split)
    for prior in (None, v.opaque("prior")):
        del asked[:], rounded[:]
        ts = v.list(s)
        r = v.call(EM + "allocate_shots_proportionally", ts, total, *([] if prior is None else [prior]))
        v.prove(len(asked) == 1 and asked[0] is prior, "the prior expectation values")
        v.prove(rounded == [True], "the relative numbers are rounded")
        v.same(it.as_seq(r), C22.want(v, n, f, lambda t, i: (SU(C22.OPER(t), C22.OPI), SU(C22.CIRCF(t), C22.CIRC), share(i))), "tasks")
        v.same(it.as_seq(ts), s, "the given tasks")
    for name in ("prior_expectation_values",):
        del asked[:], rounded[:]
        p = v.opaque("prior")
        v.call(EM + "allocate_shots_proportionally", estimation_tasks=v.list(s), total_n_shots=total, prior_expectation_values=p)
        v.prove(len(asked) == 1 and asked[0] is p, "by name")


@P.obligation("proportional allocation rejects non-positive budgets", targets=[EM + "allocate_shots_proportionally"])
def _(v):
    n, f, s = C22.tasks(v)
    k = v.int("k", None, 0)
    v.contract(C + "hamiltonian:estimate_nmeas_for_frames", lambda it, a, kw: (v.opaque("K2"), v.opaque("nterms"), v.opaque("relative numbers")))
    v.contract(SD, lambda it, a, kw: v.list(v.seq("shares", n, lambda i: v.int("share"))))
    for prior in ([], [v.opaque("prior")]):
        v.raises(ValueError, lambda: v.call(EM + "allocate_shots_proportionally", v.list(s), k, *prior), "rejected")
