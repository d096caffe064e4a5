"""Bounded contracts for C26 (recorders, histories, augmentations)."""
import copy, itertools, logging
import numpy as np
from native_lib import clause
from zquantum.core.cost_function_augmentations import ConditionalSideEffect, augment_cost_function, function_logger
from zquantum.core.history.recorder import recorder
from zquantum.core.history.save_conditions import always, every_nth
from zquantum.core.interfaces.functions import function_with_gradient, has_store_artifact_param
from zquantum.core.interfaces.optimizer import NestedOptimizer, Optimizer, construct_history_info, extend_histories, optimization_result


def value(x):
    return float(np.sum(np.asarray(x, dtype=float) ** 2) + 3 * np.asarray(x, dtype=float)[0])


class Model:
    """expected history of one function under a save condition"""

    def __init__(self, cond):
        self.cond, self.n, self.entries = cond, 0, []

    def call(self, params, val, artifacts=None, forced=False):
        if self.cond(val, params, self.n) or forced:
            self.entries.append((self.n, copy.copy(params), val) + (() if artifacts is None else (dict(artifacts),)))
        self.n += 1


CONDS = {
    "always": lambda: always,
    "every 2nd": lambda: every_nth(2),
    "every 3rd": lambda: every_nth(3),
    "small values": lambda: (lambda value, params, call_number: bool(np.sum(value) < 2)),
    "by parameters": lambda: (lambda value, params, call_number: params[0] > 0),
    "never": lambda: (lambda value, params, call_number: False),
    "late": lambda: (lambda value, params, call_number: call_number >= 4),
}


def entries_equal(t, got, want, what):
    t.eq(len(got), len(want), f"{what}: number of entries")
    for g, w in zip(got, want):
        t.eq(g.call_number, w[0], f"{what}: call number")
        t.ok(np.array_equal(g.params, w[1]), f"{what}: parameters at the time of the call: {g.params} for {w[1]}")
        t.ok(np.array_equal(g.value, w[2]), f"{what}: value")
        if len(w) > 3:
            t.eq(dict(g.artifacts), w[3], f"{what}: artifacts")


@clause("recorded calls", budget=60)
def _(t):
    for i in range(t.n(250)):
        name = t.rng.choice(list(CONDS))
        with_grad, with_art = t.rng.random() < .5, t.rng.random() < .5
        steps = [(t.rng.choice(["f", "f", "g"] if with_grad else ["f"]), [t.rng.uniform(-2, 2) for _ in range(2)], t.rng.choice([0, 0, 1, 2]), t.rng.random() < .3, t.rng.random() < .2) for _ in range(t.rng.randint(0, 10))]
        cont = t.rng.choice(["array", "list"])
        reuse = t.rng.random() < .5
        with t.case(f"{name} gradient {with_grad} artifacts {with_art} {cont} same container {reuse} calls {steps}", trivial=not steps):
            plan = {}
            raised = []

            def grad(x):
                return 2 * np.asarray(x, dtype=float) + 1
            if with_art:
                def fn(x, store_artifact=None):
                    if plan["raise"]:
                        raise KeyError("stop")
                    if store_artifact:
                        for j in range(plan["n"]):
                            if plan["force"] and j == 0:
                                store_artifact(f"a{j}", (plan["tag"], j), force=True)
                            else:
                                store_artifact(f"a{j}", (plan["tag"], j))
                    return value(x)
            else:
                def fn(x):
                    if plan["raise"]:
                        raise KeyError("stop")
                    return value(x)
            f = function_with_gradient(fn, grad) if with_grad else fn
            t.eq(has_store_artifact_param(fn), with_art, "artifact detection")
            rec = recorder(f) if name == "always" and t.rng.random() < .5 else recorder(f, save_condition=CONDS[name]())
            mf, mg = Model(CONDS[name]()), Model(CONDS[name]())
            x = np.zeros(2) if cont == "array" else [0.0, 0.0]
            for tag, (kind, p, nart, force, fail) in enumerate(steps):
                if not reuse:
                    x = np.zeros(2) if cont == "array" else [0.0, 0.0]
                x[:] = p
                if kind == "g":
                    r = rec.gradient(x)
                    t.ok(np.array_equal(r, grad(p)), "gradient passed through")
                    mg.call(copy.copy(x), grad(p))
                    continue
                plan.update(n=nart if with_art else 0, force=force, tag=tag)
                plan["raise"] = fail
                if fail:
                    t.raises(KeyError, lambda: rec(x), "exception passed through")
                    continue
                r = rec(x)
                t.eq(r, value(p), "value passed through")
                t.ok(list(x) == list(p), "caller's parameters unchanged")
                mf.call(copy.copy(x), value(p), {f"a{j}": (tag, j) for j in range(plan["n"])} if with_art else None, forced=force and plan["n"] > 0)
                if t.rng.random() < .5:
                    x[0] = 99.0            # later changes must not reach the history
            x[:] = [-7.0, -7.0]
            entries_equal(t, rec.history, mf.entries, "function")
            if with_grad:
                entries_equal(t, rec.gradient.history, mg.entries, "gradient")
            info = construct_history_info(rec, True)
            t.ok(info["history"] == rec.history, "history info")
            t.eq("gradient_history" in info, with_grad, "gradient history reported")
            if with_grad:
                t.ok(info["gradient_history"] == rec.gradient.history, "gradient history info")
            t.eq(construct_history_info(rec, False), {"history": []}, "no history kept")


@clause("save conditions", budget=10)
def _(t):
    for n in range(1, 8):
        f = every_nth(n)
        for k in range(30):
            with t.case(f"every {n}: {k}"):
                t.eq(bool(f(1.0, [2.0], k)), k % n == 0, "every n-th")
                t.eq(bool(always(1.0, [2.0], k)), True, "always")


@clause("combining histories", budget=20)
def _(t):
    for _ in range(t.n(60)):
        runs = [(t.rng.random() < .5, t.rng.random() < .5, [[t.rng.uniform(-1, 1)] for _ in range(t.rng.randint(0, 4))]) for _ in range(t.rng.randint(1, 4))]
        if t.rng.random() < .6:
            runs = [(runs[0][0], a, p) for _g, a, p in runs]
        with t.case(f"{runs}", trivial=not any(p for _g, _a, p in runs)):
            known = t.rng.random() < .5
            hist = {"history": [], "gradient_history": []} if known else {"history": []}
            want, wantg = [], []
            for g, a, ps in runs:
                fn = (lambda x, store_artifact=None: value(x)) if a else value
                rec = recorder(function_with_gradient(fn, lambda x: 2 * x) if g else fn)
                for p in ps:
                    rec(np.array(p))
                    want.append(("f", p))
                    if g:
                        rec.gradient(np.array(p))
                        wantg.append(p)
                before, beforeg = list(hist["history"]), list(hist.get("gradient_history", []))
                new = extend_histories(rec, hist)
                t.ok(list(hist["history"]) == before and list(hist.get("gradient_history", [])) == beforeg, "previous histories unchanged")
                hist = new
                known = known or g
                t.eq("gradient_history" in hist, known, "gradient history exactly when there has been a gradient")
            t.eq([list(e.params) for e in hist["history"]], [p for _k, p in want], "all calls, in order")
            t.eq([list(e.params) for e in hist.get("gradient_history", [])], wantg, "all gradient calls, in order")


class Note(ConditionalSideEffect):
    def __init__(self, function, predicate, log, tag):
        super().__init__(function, predicate)
        self.log, self.tag = log, tag

    def _act(self, result, params):
        self.log.append((self.tag, self.call_number, list(params), result))


@clause("augmentations", budget=40)
def _(t):
    for _ in range(t.n(150)):
        with_grad = t.rng.random() < .6
        nf, ng = t.rng.randint(0, 3), t.rng.randint(0, 2)
        conds = [t.rng.choice(list(CONDS)) for _ in range(nf)]
        gconds = [t.rng.choice(list(CONDS)) for _ in range(ng)]
        fa = t.rng.choice(["none", "list"]) if nf == 0 else "list"
        ga = t.rng.choice(["none", "list"]) if ng == 0 else "list"
        rec = t.rng.random() < .4
        steps = [(t.rng.choice("ffg" if with_grad else "f"), [t.rng.uniform(-2, 2), .5]) for _ in range(t.rng.randint(1, 7))]
        with t.case(f"gradient {with_grad} function {conds} gradient augmentations {gconds} ({fa},{ga}) recorded {rec} calls {steps}", trivial=not nf and not ng):
            def base(x):
                return value(x)
            def grad(x):
                return 2 * np.asarray(x, dtype=float)
            base.marker = "original"
            f = function_with_gradient(base, grad) if with_grad else base
            log, want = [], []
            augs = [(lambda fn, c=c, i=i: Note(fn, CONDS[c](), log, ("f", i))) for i, c in enumerate(conds)]
            gaugs = [(lambda fn, c=c, i=i: Note(fn, CONDS[c](), log, ("g", i))) for i, c in enumerate(gconds)]
            if rec:
                augs.append(recorder)
            h = augment_cost_function(f, None if fa == "none" and not rec else augs, None if ga == "none" else gaugs)
            count = {"f": 0, "g": 0}
            fcalls = 0
            for kind, p in steps:
                x = np.array(p)
                if kind == "g":
                    r = h.gradient(x)
                    t.ok(np.array_equal(r, grad(p)), "gradient value")
                    v, cs = grad(p), gconds
                else:
                    r = h(x)
                    t.eq(r, value(p), "function value")
                    v, cs = value(p), conds
                    fcalls += 1
                t.ok(list(x) == p, "parameters unchanged")
                for i, c in enumerate(cs):
                    if CONDS[c]()(v, np.array(p), count[kind]):
                        want.append(((kind, i), count[kind], p, v))
                count[kind] += 1
            t.eq(len(log), len(want), "side effects exactly when the condition holds")
            for a, b in zip(log, want):
                t.ok(a[:3] == b[:3] and np.array_equal(a[3], b[3]), f"side effect {a}, expected {b}")
            t.eq(h.marker, "original", "attributes of the function stay accessible")
            t.eq(hasattr(h, "gradient"), with_grad, "gradient present exactly when the function has one")
            if not with_grad:
                h.marker = "changed"
                t.eq((base.marker, h.marker), ("changed", "changed"), "attributes of the function stay writable")
            if rec:
                t.eq([e.call_number for e in h.history], list(range(fcalls)), "recorder inside an augmentation")
                t.eq([list(e.params) for e in h.history], [p for k, p in steps if k == "f"], "recorded parameters")
    for level in (logging.DEBUG, logging.WARNING):
        for cond in CONDS:
            with t.case(f"logger level {level} condition {cond}"):
                out = []
                class L:
                    def log(self, lvl, msg, *a):
                        out.append((lvl, msg % a))
                f = augment_cost_function(value, [function_logger(predicate=CONDS[cond](), logger=L(), level=level, message="n %d v %s")])
                want = []
                for k, p in enumerate([[1.0], [-1.0], [.1], [2.0], [.3], [-.2]]):
                    v = f(np.array(p))
                    t.eq(v, value(p), "value")
                    if CONDS[cond]()(v, p, k):
                        want.append((level, f"n {k} v {v}"))
                t.eq(out, want, "messages")


class Walk(Optimizer):
    """evaluates the function (and its gradient) along a fixed path and keeps the best point"""

    def __init__(self, steps, seen, preprocess=None, **k):
        super().__init__(**k)
        self.steps, self.seen = steps, seen
        if preprocess is not None:
            self._preprocess_cost_function = preprocess

    def _minimize(self, cost_function, initial_params, keep_history=False):
        self.seen.append((cost_function, initial_params, keep_history))
        best = None
        for kind, d in self.steps:
            x = np.asarray(initial_params, dtype=float) + d
            if kind == "g":
                cost_function.gradient(x)
                continue
            y = cost_function(x)
            if best is None or y < best[0]:
                best = (y, x)
        return optimization_result(opt_value=best[0], opt_params=best[1], nfev=len(self.steps), **construct_history_info(cost_function, keep_history))


@clause("minimising through the optimizer interface", budget=20)
def _(t):
    for _ in range(t.n(150)):
        keep, grad, art, pre = (t.rng.random() < .5 for _i in range(4))
        cond = t.rng.choice(["default"] + list(CONDS))
        x0 = [t.rng.uniform(-1, 1) for _i in range(2)]
        steps = [("f", 0.0)] + [(t.rng.choice("ffg" if grad else "f"), t.rng.uniform(-1, 1)) for _i in range(t.rng.randint(0, 5))]
        with t.case(f"history {keep} gradient {grad} artifacts {art} preprocessed {pre} condition {cond} start {x0} steps {steps}"):
            calls = []

            def fn(x):
                calls.append(list(x))
                return value(x)
            if art:
                def fn(x, store_artifact=None):
                    calls.append(list(x))
                    if store_artifact:
                        store_artifact("x", x[0])
                    return value(x)
            f = function_with_gradient(fn, lambda x: 2 * x) if grad else fn
            shift = 100.0 if pre else 0.0

            def preprocess(g):
                t.ok(g is f, "the given function is preprocessed")
                h = lambda x: g(x) + 100.0
                return function_with_gradient(h, g.gradient) if grad else h
            seen = []
            opt = Walk(steps, seen, preprocess if pre else None, **({} if cond == "default" else {"recorder": lambda g: recorder(g, save_condition=CONDS[cond]())}))
            start = np.array(x0)
            r = opt.minimize(f, start, keep) if t.rng.random() < .5 or not keep else opt.minimize(f, start, keep_history=keep)
            pts = [(k, np.array(x0) + d) for k, d in steps]
            vals = [value(p) + shift for k, p in pts if k == "f"]
            t.eq(len(seen), 1, "minimised once")
            t.ok(list(seen[0][1]) == x0 and seen[0][2] == keep, "start and history flag are handed on")
            t.eq(calls, [list(p) for k, p in pts if k == "f"], "the function is called exactly along the path")
            t.eq(r.opt_value, min(vals), "optimal value")
            t.ok(np.array_equal(r.opt_params, [p for k, p in pts if k == "f"][int(np.argmin(vals))]), "optimal parameters")
            t.eq(r.nfev, len(steps), "other results")
            if not keep:
                t.eq(r.history, [], "no history")
                t.ok("gradient_history" not in r, "no gradient history")
                continue
            m, mg = Model(CONDS["always" if cond == "default" else cond]()), Model(CONDS["always" if cond == "default" else cond]())
            for k, p in pts:
                if k == "f":
                    m.call(p, value(p) + shift, {"x": p[0]} if art and not pre else None)
                else:
                    mg.call(p, 2 * p)
            entries_equal(t, r.history, m.entries, "history of the run")
            t.eq("gradient_history" in r, grad, "gradient history exactly with a gradient")
            if grad:
                entries_equal(t, r.gradient_history, mg.entries, "gradient history of the run")


@clause("nested optimization", budget=20)
def _(t):
    class Layers(NestedOptimizer):
        inner_optimizer = None
        recorder = None

        def __init__(self, inner):
            self.__dict__["seen"] = []

        def _minimize(self, factory, initial_params, keep_history=False):
            self.seen.append((factory, initial_params, keep_history))
            return optimization_result(opt_value=factory(2)(initial_params), opt_params=initial_params, note="kept")
    for keep in (False, True):
        for pos in (False, True):
            with t.case(f"keep history {keep} positional {pos}"):
                o = Layers(None)
                x = np.array([.5, 1.5])
                fac = lambda i: (lambda p: value(p) + i)
                r = o.minimize(fac, x, keep) if pos else o.minimize(cost_function_factory=fac, initial_params=x, keep_history=keep)
                t.ok(len(o.seen) == 1 and o.seen[0][0] is fac and o.seen[0][1] is x and o.seen[0][2] == keep, "handed on as given")
                t.ok(r.opt_value == value(x) + 2 and r.opt_params is x and r.note == "kept", "result handed back")
    with t.case("history is not kept by default"):
        o = Layers(None)
        o.minimize(lambda i: value, np.ones(1))
        t.eq(o.seen[0][2], False, "nested")
        seen = []
        Walk([("f", 0.0)], seen).minimize(value, np.ones(1))
        t.ok(seen[0][2] is False and seen[0][0] is value, "plain")


@clause("copies of recorders", budget=20)
def _(t):
    for _ in range(t.n(120)):
        grad, art, deep = t.rng.random() < .4, t.rng.random() < .5, t.rng.random() < .5
        cond = t.rng.choice(list(CONDS))
        a, b, c = ([[t.rng.uniform(-2, 2)] for _i in range(t.rng.randint(0, 4))] for _j in range(3))
        with t.case(f"gradient {grad} artifacts {art} deep {deep} condition {cond} before {a} copy {b} original {c}", trivial=not a):
            fn = (lambda x, store_artifact=None: (store_artifact("y", [x[0]]) if store_artifact else None, value(x))[1]) if art else value
            f = function_with_gradient(fn, lambda x: 2 * x) if grad else fn
            r = recorder(f, save_condition=CONDS[cond]())
            m = Model(CONDS[cond]())
            rec = lambda mm, p: mm.call(np.array(p), value(p), {"y": [p[0]]} if art else None)
            for p in a:
                r(np.array(p))
                rec(m, p)
            k = (copy.deepcopy if deep else copy.copy)(r)
            t.ok(type(k) is type(r), "same kind of recorder")
            t.eq(k.call_number, len(a), "calls counted so far")
            entries_equal(t, k.history, m.entries, "recorded so far")
            entries_equal(t, r.history, m.entries, "the original is unchanged")
            t.eq(hasattr(k, "gradient"), grad, "gradient")
            if not deep:
                t.ok(k.target is r.target and k.predicate is r.predicate, "of the same function and condition")
            mk = Model(CONDS[cond]())
            mk.n, mk.entries = m.n, list(m.entries)
            for p in b:
                t.eq(k(np.array(p)), value(p), "value through the copy")
                rec(mk, p)
            entries_equal(t, k.history, mk.entries, "the copy goes on")
            t.eq(r.call_number, len(a), "calls of the copy are not calls of the original")
            if deep:
                for p in c:
                    t.eq(r(np.array(p)), value(p), "value through the original")
                    rec(m, p)
                entries_equal(t, r.history, m.entries, "the original goes on by itself")
                entries_equal(t, k.history, mk.entries, "calls of the original do not reach the copy")


@clause("attributes pass through recorders", budget=10)
def _(t):
    for art in (False, True):
        for grad in (False, True):
            for cond in CONDS:
                with t.case(f"artifacts {art} gradient {grad} {cond}"):
                    class F:
                        offset = 1.0
                        notes = None
                    if art:
                        class F(F):
                            def __call__(self, x, store_artifact=None):
                                return value(x) + self.offset
                    else:
                        class F(F):
                            def __call__(self, x):
                                return value(x) + self.offset
                    if grad:
                        F.gradient = lambda self, x: 2 * x
                    f = F()
                    r = recorder(f, save_condition=CONDS[cond]())
                    t.eq(r.offset, 1.0, "read from the function")
                    t.eq(r(np.ones(2)), value(np.ones(2)) + 1, "value")
                    r.offset = 5.0
                    r.notes = "text"
                    t.eq((f.offset, f.notes, r.offset, r.notes), (5.0, "text", 5.0, "text"), "written to the function")
                    t.eq(r(np.ones(2)), value(np.ones(2)) + 5, "the function sees it")
                    f.offset = 7.0
                    t.eq(r.offset, 7.0, "always the current value")
                    t.raises(AttributeError, lambda: r.missing, "an attribute neither has")
                    r.call_number = 10
                    r(np.zeros(2))
                    t.eq(r.call_number, 11, "the recorder's own attributes stay its own")
                    t.ok(not hasattr(f, "call_number") and not hasattr(f, "history"), "and do not reach the function")
