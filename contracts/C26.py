"""C26: recorders.  One call from an arbitrary reachable state: by induction every history of calls."""
from pyvc.contract import Property
from .spec import *

P = Property("C26", trusted=["inspect.signature tells whether a callable takes store_artifact",
                             "copy.copy of the parameters equals them"])
RM = C + "history.recorder:"
SM = C + "history.save_conditions:"
OM = C + "interfaces.optimizer:"
AM = C + "cost_function_augmentations:"

VAL = z3.Function("target_value", U, U)
PRED = z3.Function("save_condition", U, U, z3.IntSort(), z3.BoolSort())
ENTRY = z3.Function("old_entry", z3.IntSort(), U)


def target(v, calls, artifacts=()):
    def call(it, s, a, k):
        calls.append((list(a), dict(k)))
        st = k.get("store_artifact", a[1] if len(a) > 1 else None)
        for name, val, force in artifacts:
            it.call(st, [name, val], {"force": force} if force is not None else {})
        return SU(VAL(it.embed(a[0])), OPAQUE)
    return v.opaque("target", Iface("target", call=call))


def predicate(v):
    def call(it, s, a, k):
        d = dict(zip(["value", "params", "call_number"], a), **k)
        n = d["call_number"]
        return PRED(it.embed(d["value"]), it.embed(d["params"]), n if is_z3(n) else z3.IntVal(n))
    return v.opaque("predicate", Iface("predicate", call=call))


def recorder(v, cls, calls, artifacts=()):
    n, h = v.int("call_number", 0), v.int("n_history", 0)
    old = v.seq("history", h, lambda i: SU(ENTRY(i), OPAQUE))
    o = v.it.new_obj(v.fn(RM + cls), {"predicate": predicate(v), "target": target(v, calls, artifacts), "history": v.list(old), "call_number": n})
    return o, n, old


def copied(v):
    v.it.models["copy.copy"] = lambda it, a, k: a[0]


def one_call(v, cls, artifacts=(), forced=False):
    copied(v)
    calls = []
    o, n, old = recorder(v, cls, calls, artifacts)
    p = v.opaque("params")
    r = v.call(o, p)
    v.prove(v.it.embed(r) == VAL(p.term), "returns the value of the wrapped function")
    v.prove(len(calls) == 1, "the wrapped function is called exactly once")
    v.prove(v.it.embed(calls[0][0][0]) == p.term, "with the given parameters")
    v.prove(v.attr(o, "call_number") == n + 1, "one more call counted")
    h = v.it.as_seq(v.attr(o, "history"))
    saved = z3.BoolVal(True) if forced else PRED(VAL(p.term), p.term, n)
    if v.it.decide(saved):
        v.prove(v.it.seq_len(h) == v.it.seq_len(old) + 1, "a selected call adds one entry")
        e = v.it.seq_get(h, v.it.seq_len(old))
        v.prove(v.attr(e, "call_number") == n, "number of the entry")
        v.prove(v.it.embed(v.attr(e, "params")) == p.term, "parameters of the entry")
        v.prove(v.it.embed(v.attr(e, "value")) == VAL(p.term), "value of the entry")
        v.same(v.it.seq_slice(h, 0, v.it.seq_len(old)), old, "earlier entries are kept")
        return e
    v.same(h, old, "a call that is not selected leaves the history unchanged")


@P.obligation("SimpleRecorder: value, call count and history after one more call, from any state", targets=[RM + "SimpleRecorder.__call__"])
def _(v):
    one_call(v, "SimpleRecorder")


@P.obligation("ArtifactRecorder: value, call count and history after one more call, no artifacts stored", targets=[RM + "ArtifactRecorder.__call__", RM + "store_artifact"])
def _(v):
    e = one_call(v, "ArtifactRecorder")
    if e is not None:
        v.prove(v.it.length(v.attr(e, "artifacts")) == 0, "no artifacts")


@P.obligation("ArtifactRecorder: stored artifacts belong to the entry of their call", targets=[RM + "ArtifactRecorder.__call__", RM + "store_artifact"])
def _(v):
    a, b, c_ = v.opaque("a"), v.opaque("b"), v.opaque("c")
    e = one_call(v, "ArtifactRecorder", [("x", a, None), ("y", b, False), ("x", c_, None)])
    if e is not None:
        art = v.attr(e, "artifacts")
        v.prove(v.it.length(art) == 2, "two artifacts")
        v.prove(v.it.embed(v.it.getitem(art, "x")) == c_.term, "the last value stored under a name")
        v.prove(v.it.embed(v.it.getitem(art, "y")) == b.term, "other artifacts")


@P.obligation("ArtifactRecorder: a forced artifact saves the call whatever the condition", targets=[RM + "ArtifactRecorder.__call__", RM + "store_artifact"])
def _(v):
    a, b = v.opaque("a"), v.opaque("b")
    e = one_call(v, "ArtifactRecorder", [("x", a, True), ("y", b, False)], forced=True)
    art = v.attr(e, "artifacts")
    v.prove(v.it.embed(v.it.getitem(art, "x")) == a.term, "the forced artifact")
    v.prove(v.it.embed(v.it.getitem(art, "y")) == b.term, "other artifacts")


@P.obligation("a new recorder has an empty history and has counted no call", targets=[RM + "SimpleRecorder.__init__", RM + "ArtifactRecorder.__init__"])
def _(v):
    for cls in ("SimpleRecorder", "ArtifactRecorder"):
        t, p = v.opaque("t"), v.opaque("p")
        o = v.call(RM + cls, t, p)
        v.prove(v.attr(o, "call_number") == 0, "no call")
        v.prove(v.it.length(v.attr(o, "history")) == 0, "empty history")
        v.prove(v.it.embed(v.attr(o, "target")) == t.term, "target")
        v.prove(v.it.embed(v.attr(o, "predicate")) == p.term, "condition")


@P.obligation("save conditions: always, and every n-th call counting from zero", targets=[SM + "always", SM + "every_nth"])
def _(v):
    a, b, k, n = v.opaque("value"), v.opaque("params"), v.int("k", 0), v.int("n", 1)
    v.prove(to_z3_bool(v.it.truth(v.call(SM + "always", a, b, k))), "always")
    f = v.call(SM + "every_nth", n)
    r = to_z3_bool(v.it.truth(v.call(f, a, b, k)))
    v.prove(r == (k % n == 0), "every n-th")


@P.obligation("extending histories appends the new entries in order and keeps both kinds", targets=[OM + "extend_histories"])
def _(v):
    names = ["history", "gradient_history"]
    for has_old in (False, True):
        for has_new in (False, True):
            n, m = v.int("n_old", 0), v.int("n_new", 0)
            old = {k: v.opaque_seq(f"old_{k}", n) for k in names[:2 if has_old else 1]}
            new = {k: v.opaque_seq(f"new_{k}", m) for k in names[:2 if has_new else 1]}
            v.contract(OM + "construct_history_info", lambda it, a, k: mkdict(it, new))
            f = v.opaque("recorder", Iface("recorder", attrs={"gradient": lambda it, s: v.opaque("g")} if has_new else {}))
            r = v.call(OM + "extend_histories", f, mkdict(v.it, old))
            v.same(v.it.as_seq(v.it.getitem(r, "history")), old["history"] + new["history"], "history")
            if has_old or has_new:
                v.same(v.it.as_seq(v.it.getitem(r, "gradient_history")), old.get("gradient_history", Seq()) + new.get("gradient_history", Seq()), "gradient history")


def mkdict(it, d):
    return it.new_dict([(k, it.new_list(x)) for k, x in d.items()])


@P.obligation("a conditional side effect acts exactly when its condition holds, after the call, and returns the value", targets=[AM + "ConditionalSideEffect.__call__"])
def _(v):
    calls, acts = [], []
    n = v.int("call_number", 0)
    o = v.it.new_obj(v.fn(AM + "ConditionalSideEffect"), {"predicate": predicate(v), "function": target(v, calls), "call_number": n})
    v.contract(AM + "ConditionalSideEffect._act", lambda it, a, k: acts.append((a[1:], k)))
    p = v.opaque("params")
    r = v.call(o, p)
    v.prove(v.it.embed(r) == VAL(p.term), "value")
    v.prove(len(calls) == 1, "called once")
    v.prove(v.attr(o, "call_number") == n + 1, "counted")
    if v.it.decide(PRED(VAL(p.term), p.term, n)):
        v.prove(len(acts) == 1, "acts once")
        d = dict(zip(["result", "params"], acts[0][0]), **acts[0][1])
        v.prove(v.it.embed(d["result"]) == VAL(p.term), "result passed to the side effect")
        v.prove(v.it.embed(d["params"]) == p.term, "parameters passed to the side effect")
    else:
        v.prove(len(acts) == 0, "does not act")


@P.obligation("recorder() chooses the kind of recorder by what the function offers", targets=[RM + "recorder"])
def _(v):
    g = v.opaque("gradient_function")
    for arts in (False, True):
        for grad in (False, True):
            f = v.opaque("f", Iface("function", attrs={"gradient": lambda it, s: g} if grad else {}, classes=("CallableWithGradient",) if grad else ()))
            v.contract(C + "interfaces.functions:has_store_artifact_param", lambda it, a, k: arts and it.embed(a[0]) is f.term)
            cond = predicate(v)
            r = v.call(RM + "recorder", f, cond)
            name = ("Artifact" if arts else "Simple") + "Recorder" + ("WithGradient" if grad else "")
            v.prove(r.cls.name == name, f"artifacts {arts} gradient {grad}: {name}")
            v.prove(v.it.embed(v.attr(r, "target")) == f.term, "wraps the function")
            v.prove(v.it.embed(v.attr(r, "predicate")) == cond.term, "with the given condition")
            v.prove(v.it.length(v.attr(r, "history")) == 0, "empty history")
            if grad:
                gr = v.attr(r, "gradient")
                v.prove(gr.cls.name == "SimpleRecorder", "the gradient has a recorder of its own")
                v.prove(v.it.embed(v.attr(gr, "target")) == g.term, "of the function's gradient")
                v.prove(v.it.embed(v.attr(gr, "predicate")) == cond.term, "with the same condition")
                v.prove(v.attr(gr, "history").ref != v.attr(r, "history").ref, "with a history of its own")


@P.obligation("a recorder passes attributes it does not own through to the function", targets=[RM + "SimpleRecorder.__getattr__", RM + "ArtifactRecorder.__getattr__", RM + "SimpleRecorder.__setattr__", RM + "ArtifactRecorder.__setattr__"])
def _(v):
    for cls in ("SimpleRecorder", "ArtifactRecorder"):
        o, n, old = recorder(v, cls, [])
        x = v.opaque("custom_value")
        t = v.it.new_obj(v.fn(RM + "ArtifactCollection"), {"custom": x})
        v.it.setattr(o, "target", t)
        v.prove(v.it.embed(v.attr(o, "custom")) == x.term, "read from the function")
        y = v.opaque("new_value")
        v.it.setattr(o, "custom", y)
        v.prove(v.it.embed(v.attr(t, "custom")) == y.term, "written to the function")
        k = v.int("k", 0)
        v.it.setattr(o, "call_number", k)
        v.prove(v.attr(o, "call_number") == k, "own attributes stay with the recorder")
        v.same(v.it.as_seq(v.attr(o, "history")), old, "history untouched")


@P.obligation("history of a run: of the function and, where there is one, of the gradient", targets=[OM + "construct_history_info"])
def _(v):
    for arts in (False, True):
        for grad in (False, True):
            calls = []
            o, n, old = recorder(v, ("Artifact" if arts else "Simple") + "Recorder" + ("WithGradient" if grad else ""), calls)
            gh = v.list(v.opaque_seq("gh", v.int("n_g", 0)))
            if grad:
                v.it.setattr(o, "gradient", v.it.new_obj(v.fn(RM + "SimpleRecorder"), {"history": gh}))
            r = v.call(OM + "construct_history_info", o, True)
            v.same(v.it.as_seq(v.it.getitem(r, "history")), old, "history of the function")
            v.prove(v.it.contains(r, "gradient_history") == grad, "gradient history exactly with a gradient")
            if grad:
                v.same(v.it.as_seq(v.it.getitem(r, "gradient_history")), v.it.as_seq(gh), "history of the gradient")
            r = v.call(OM + "construct_history_info", o, False)
            v.prove(v.it.length(v.it.getitem(r, "history")) == 0, "nothing recorded, nothing kept")


AUG = z3.Function("augmented", U, U, U)
APP = z3.Function("applied", U, U, U)


@P.obligation("augmentations are applied left to right, to the function and to the gradient separately", targets=[AM + "augment_cost_function", AM + "_augment_function", AM + "_AttributePropagatingWrapper.__call__", AM + "_AttributePropagatingWrapper.__getattr__"],
              bound="up to 3 function augmentations and 2 gradient augmentations, with and without gradient")
def _(v):
    FN = Iface("fn")
    FN.call = lambda it, s, a, k: SU(APP(s.term, it.embed(a[0])), OPAQUE)

    def aug(name):
        return v.opaque(name, Iface("augmentation", call=lambda it, s, a, k: SU(AUG(s.term, inner(it, a[0])), FN)))

    def inner(it, f):
        # the function an augmentation receives, seen through its wrapper: what it does when called
        x = v.opaque("probe")
        r = it.embed(it.call(f, [x], {}))
        if not (z3.is_app(r) and r.decl().eq(APP) and r.arg(1).eq(x.term)):
            raise Unsupported("augmented function has another form")
        return r.arg(0)
    g = v.opaque("grad", FN)
    for grad in (False, True):
        f = SU(z3.Const("function", U), Iface("fn", call=FN.call, attrs={"gradient": lambda it, s: g} if grad else {}, classes=("CallableWithGradient",) if grad else ()))
        for nf in range(4):
            for ng in range(3):
                fa, ga = [aug(f"fa{i}") for i in range(nf)], [aug(f"ga{i}") for i in range(ng)]
                r = v.call(AM + "augment_cost_function", f, v.list(fa), v.list(ga))
                want = f.term
                for a in fa:
                    want = AUG(a.term, want)
                x = v.opaque("x")
                v.prove(v.it.embed(v.call(r, x)) == APP(want, x.term), f"{nf} function augmentations in order")
                if grad:
                    wg = g.term
                    for a in ga:
                        wg = AUG(a.term, wg)
                    v.prove(v.it.embed(v.call(v.attr(r, "gradient"), x)) == APP(wg, x.term), f"{ng} gradient augmentations in order")


@P.obligation("minimising: preprocess, record exactly when history is requested, hand on the start and the flag", targets=[OM + "Optimizer.minimize", OM + "Optimizer._preprocess_cost_function", OM + "Optimizer.__init__", OM + "NestedOptimizer.minimize"])
def _(v):
    for keep in (True, False, None):
        for pre in (True, False):
            f, x, res, f2, fr = (v.opaque(n) for n in ("f", "x", "result", "preprocessed", "recorded"))
            got, recs, pres = [], [], []
            rec = v.opaque("factory", Iface("factory", call=lambda it, s, a, k: recs.append((a, k)) or fr))
            o = v.it.new_obj(v.fn(OM + "Optimizer"), {})
            v.call(OM + "Optimizer.__init__", o, rec)
            v.contract(OM + "Optimizer._minimize", lambda it, a, k: got.append(dict(zip(["self", "cost_function", "initial_params", "keep_history"], a), **k)) or res)
            if pre:
                v.contract(OM + "Optimizer._preprocess_cost_function", lambda it, a, k: pres.append((a, k)) or f2)
            else:
                v.it.contracts.pop(OM + "Optimizer._preprocess_cost_function", None)
            args = (o, f, x) if keep is None else (o, f, x, keep)
            r = v.call(OM + "Optimizer.minimize", *args)
            g = f2 if pre else f
            v.prove(len(got) == 1, "minimised once")
            v.prove(v.it.embed(r) == res.term, "the result is handed back")
            if keep:
                v.prove(len(recs) == 1 and not recs[0][1] and len(recs[0][0]) == 1, "one recorder, with its own defaults")
                v.prove(v.it.embed(recs[0][0][0]) == g.term, "of the preprocessed function")
            else:
                v.prove(len(recs) == 0, "nothing is recorded unless asked for")
            v.prove(v.it.embed(got[0]["cost_function"]) == (fr if keep else g).term, "the function that is minimised")
            v.prove(v.it.embed(got[0]["initial_params"]) == x.term, "from the given start")
            v.prove(to_z3_bool(v.it.truth(got[0]["keep_history"])) if keep else z3.Not(to_z3_bool(v.it.truth(got[0].get("keep_history", False)))), "with the flag")
    for keep in (True, False, None):
        f, x, res = v.opaque("factory"), v.opaque("x"), v.opaque("result")
        got = []
        v.contract(OM + "NestedOptimizer._minimize", lambda it, a, k: got.append(dict(zip(["self", "cost_function_factory", "initial_params", "keep_history"], a), **k)) or res)
        o = v.it.new_obj(v.fn(OM + "NestedOptimizer"), {})
        r = v.call(OM + "NestedOptimizer.minimize", *((o, f, x) if keep is None else (o, f, x, keep)))
        v.prove(len(got) == 1, "minimised once")
        v.prove(v.it.embed(r) == res.term, "the result is handed back")
        v.prove(v.it.embed(got[0]["cost_function_factory"]) == f.term, "the factory is handed on")
        v.prove(v.it.embed(got[0]["initial_params"]) == x.term, "from the given start")
        v.prove(to_z3_bool(v.it.truth(got[0].get("keep_history", False))) == bool(keep), "with the flag")


@P.obligation("a copy of a recorder continues with the function, condition, count and entries of the original", targets=[RM + "copy_recorder", RM + "deepcopy_recorder"])
def _(v):
    for cls in ("SimpleRecorder", "ArtifactRecorder"):
        for deep in (False, True):
            o, n, old = recorder(v, cls, [])
            t, p = v.attr(o, "target"), v.attr(o, "predicate")
            memo = v.opaque("memo")
            seen = []

            def deepcopy(it, a, k):
                seen.append(k.get("memo", a[1] if len(a) > 1 else None))
                x = a[0]
                return it.new_list(it.as_seq(x)) if not isinstance(x, SU) else x
            v.it.models["copy.deepcopy"] = deepcopy
            r = v.call(RM + "deepcopy_recorder", o, memo) if deep else v.call(RM + "copy_recorder", o)
            v.prove(r.cls.name == cls, "same kind of recorder")
            v.prove(v.attr(r, "call_number") == n, "calls counted so far")
            v.same(v.it.as_seq(v.attr(r, "history")), old, "recorded so far")
            v.prove(v.it.embed(v.attr(r, "target")) == t.term, "of the same function")
            v.prove(v.it.embed(v.attr(r, "predicate")) == p.term, "with the same condition")
            v.prove(v.attr(o, "call_number") == n, "the original keeps its count")
            v.same(v.it.as_seq(v.attr(o, "history")), old, "and its history")
            if deep:
                v.prove(v.attr(r, "history").ref != v.attr(o, "history").ref, "a deep copy has a history of its own")
