"""Contracts and proof obligations over the real functions of /repo.

A property module (contracts/Cxx.py) holds obligations.  An obligation is a function of a
`Ctx`; it is executed by the verifier over every feasible path of the real code it calls.
  v.assume(c)      precondition
  v.prove(c)       postcondition / invariant: one goal per path, discharged by z3 (cvc5 fallback)
                   or by the exact ring normal form
  v.same(a, b)     structural equality of two values, split into goals
  v.raises(E, f)   f must raise E on this path
Callee contracts are installed with v.contract(qual, handler): from then on callers see the
handler instead of the body.
"""
import time, traceback, sys
import z3
from .values import *
from .interp import Interp
from . import prove as PR
from .poly import Poly, PolyUnsupported


class Stop(Exception):
    pass


class Obligation:
    def __init__(self, name, targets, fn, budget, timeout_ms, bound, sufficient):
        self.name, self.targets, self.fn, self.budget, self.timeout_ms, self.bound = name, targets, fn, budget, timeout_ms, bound
        self.sufficient = sufficient


class Property:
    def __init__(self, pid, trusted=()):
        self.pid = pid
        self.obligations = []
        self.trusted = list(trusted)

    def obligation(self, name, targets=(), budget=60, timeout_ms=4000, bound=None, sufficient=False):
        """bound: None for an unbounded proof, else a text saying what is bounded
        sufficient: the contract is stronger than the property (it fixes one way of getting there), so its failure
        leaves the property undecided instead of violated"""
        def deco(fn):
            self.obligations.append(Obligation(name, list(targets), fn, budget, timeout_ms, bound, sufficient))
            return fn
        return deco


class Ctx:
    def __init__(self, ob, sizes=None):
        self.ob = ob
        self.sizes = sizes       # None, or a function (name, lo, hi) -> int: every integer input takes that value
        self.it = Interp(timeout_ms=ob.timeout_ms, budget_s=ob.budget)
        self.goals = []          # (status, why, detail)
        self.backends = {}
        self.tier = "quick"

    # ---- construction of symbolic inputs
    def int(self, name, lo=None, hi=None):
        if self.sizes is not None:
            return self.sizes(name, lo, hi)
        x = z3.Int(name)
        if lo is not None:
            self.it.assume(x >= lo)
        if hi is not None:
            self.it.assume(x <= hi)
        self.it.inputs[name] = x
        return x

    def real(self, name):
        x = z3.Real(name)
        self.it.inputs[name] = x
        return x

    def bool(self, name):
        x = z3.Bool(name)
        self.it.inputs[name] = x
        return x

    def choose(self, options, name="case"):
        """case split: one of the options, each explored on its own paths"""
        options = list(options)
        for o in options[:-1]:
            if self.it.decide(self.bool(f"{name} {o}")):
                return o
        return options[-1]

    def opaque(self, name, iface=OPAQUE):
        return SU(z3.Const(name, U), iface)

    def seq(self, name, n, elem, cases=()):
        """symbolic-length sequence: elem(index term) -> value; cases: (guard(index), value(index)) tried first;
        elem None: positions that meet no case contribute nothing"""
        it = self.it
        base = it.nref
        els = [(lambda i: True, elem)] if elem else []
        if isinstance(n, int):
            out = []
            for k in range(n):
                kz = z3.IntVal(k)
                cs = [(z3.simplify(to_z3_bool(g(kz))), f) for g, f in list(cases) + els]
                cs = [(c, f) for c, f in cs if not z3.is_false(c)]
                if cs and z3.is_true(cs[0][0]):
                    out.append(Unit(cs[0][1](kz)))
                elif cs and elem and all(is_z3(x) or is_num(x) or isinstance(x, SU) for x in [f(kz) for _, f in cs]):
                    val = elem(kz)
                    for c, f in reversed(cs[:-1]):
                        val = it.ite(c, f(kz), val)
                    out.append(Unit(val))
                elif cs:
                    out.append(Comp(1, z3.Int(it.fresh_name("ix")), [(True if z3.is_true(c) else c, (Unit(it.freeze(f(kz), base)),)) for c, f in cs]))
            return Seq(out)
        i = z3.Int(it.fresh_name("ix"))
        it.index_vars.append(i)
        try:
            return Seq([Comp(n, i, [(g(i), (Unit(it.freeze(f(i), base)),)) for g, f in list(cases) + els])])
        finally:
            it.index_vars.pop()

    def flat(self, n, part, cases=()):
        """concatenation of the sequences part(0), ..., part(n-1); cases (guard(i), part(i)) go first"""
        it = self.it
        base = it.nref
        if isinstance(n, int):
            out = Seq()
            for k in range(n):
                kz = z3.IntVal(k)
                for g, f in list(cases) + [(lambda i: z3.BoolVal(True), part)]:
                    c = z3.simplify(g(kz))
                    if z3.is_true(c) or not z3.is_false(c) and it.decide(c):
                        out = out + f(kz)
                        break
            return out
        i = z3.Int(it.fresh_name("ix"))
        it.index_vars.append(i)
        try:
            return Seq([Comp(n, i, [(g(i), it.freeze(f(i), base).segs) for g, f in list(cases) + [(lambda i: True, part)]])])
        finally:
            it.index_vars.pop()

    def opaque_seq(self, name, n, iface=OPAQUE, constrain=None):
        f = z3.Function(name, z3.IntSort(), U)
        return self.seq(name, n, lambda i: SU(f(i), iface))

    def int_fn(self, name, lo=None, hi=None):
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        j = z3.Int("q_" + name)
        cs = []
        if lo is not None:
            cs.append(f(j) >= lo)
        if hi is not None:
            cs.append(f(j) <= hi)
        if cs:
            self.it.axioms.append(z3.ForAll([j], z3.And(*cs), patterns=[f(j)]))
        return f

    def real_fn(self, name):
        return z3.Function(name, z3.IntSort(), z3.RealSort())

    def list(self, s):
        return self.it.new_list(s if isinstance(s, Seq) else list(s))

    def gen(self, name):
        return Poly.gen(name)

    # ---- running real code
    def fn(self, path):
        return self.it.resolve(path)

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.it.resolve(f)
        return self.it.call(f, list(args), kw)

    def method(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name), list(args), kw)

    def attr(self, o, name):
        return self.it.getattr(o, name)

    def contract(self, qual, handler):
        self.it.contracts[qual] = handler

    # ---- goals
    def assume(self, c):
        self.it.assume(c)

    def _record(self, status, why, detail="", backend="z3"):
        self.goals.append((status, why, detail))
        if status == "discharged":
            self.backends[backend] = self.backends.get(backend, 0) + 1

    def prove(self, c, why):
        it = self.it
        if isinstance(c, bool):
            if c:
                self._record("discharged", why, "", "evaluation")
                return
            self._fails(why, "false on a feasible path")
            return
        g = PR.Goal([], c, why)
        r, d = PR.discharge(it, g)
        if r == "proved":
            self._record("discharged", why, "", "cvc5" if d == "cvc5" else "z3")
        elif r in ("refuted", "ambiguous"):
            self._record(r, why, d)
        else:
            self._record("undecided", why, d)

    def _fails(self, why, detail):
        """the path falsifies a goal: refuted if the path is known to be feasible, ambiguous if the solver cannot tell"""
        r = self.it.check(self.it.pc)
        if r == z3.unsat:
            raise Infeasible()
        self._record("refuted" if r == z3.sat else "ambiguous", why, detail)

    def same(self, a, b, why):
        it = self.it
        gs = PR.goals(it, a, b, why=why)
        n = 0
        for g in gs:
            if g.goal is True:
                n += 1
                continue
            if getattr(g, "ring", False):
                if g.goal is True or g.goal is not False and g.goal:
                    n += 1
                else:
                    self._record("refuted", why, g.why[:2000])
                continue
            r, d = PR.discharge(it, g)
            if r == "proved":
                n += 1
                if d == "cvc5":
                    self.backends["cvc5"] = self.backends.get("cvc5", 0) + 1
            elif r == "refuted":
                self._record("mismatch" if "[structure]" in g.why else "refuted", why, d)
            elif r == "ambiguous":
                self._record("ambiguous", why, d)
            else:
                self._record("undecided", why, d)
        if n == len(gs):
            self._record("discharged", why, "", "ring" if any(getattr(g, "ring", False) for g in gs) else ("z3" if gs else "normal form"))

    def poly_eq(self, a, b, why):
        a, b = self.it.to_poly(a), self.it.to_poly(b)
        if Poly.const(a) == Poly.const(b):
            self._record("discharged", why, "", "ring")
        else:
            self._record("refuted", why, f"{a} != {b}"[:2000])

    def mat_eq(self, a, b, why):
        """entrywise equality of two matrices (VArr or nested lists of Poly)"""
        va, vb = self._entries(a), self._entries(b)
        if va[0] != vb[0]:
            self._record("refuted", why, f"shape {va[0]} vs {vb[0]}")
            return
        for i, (x, y) in enumerate(zip(va[1], vb[1])):
            if Poly.const(self.it.to_poly(x)) != Poly.const(self.it.to_poly(y)):
                self._record("refuted", why, f"entry {i} of shape {va[0]}: {x} != {y}"[:2000])
                return
        self._record("discharged", why, "", "ring")

    def _entries(self, a):
        if isinstance(a, VArr):
            return tuple(a.shape), self.it.arr_vals(a)
        rows = [list(r) for r in a]
        return (len(rows), len(rows[0])), [x for r in rows for x in r]

    def raises(self, exc, thunk, why):
        try:
            thunk()
        except PyExc as e:
            named = exc if isinstance(exc, tuple) else (exc,)
            excs = tuple(x for x in named if isinstance(x, type))
            v = e.value
            ok = isinstance(v, VObj) and any(c is x for c in v.cls.mro() for x in named) or isinstance(v, ExcInst) and issubclass(v.cls, excs) or isinstance(v, VObj) and any(
                isinstance(c.builtin_base, type) and issubclass(c.builtin_base, excs) for c in v.cls.mro())
            if ok:
                self._record("discharged", why, "", "path")
            else:
                self._fails(why, f"raised {v!r}")
            return
        self._fails(why, "no exception raised")

    def unreachable(self, why):
        self.prove(False, why)


def confirm(ob, res):
    """a countermodel that tells apart two abstractions (sums, folds, sequences) may be spurious: instantiate every
    integer input with small values, where nothing is abstracted, and look for a refutation there"""
    for d in (1, 2, 3, 0):
        r = run_obligation(ob, sizes=lambda name, lo, hi, d=d: min(x for x in (max(lo if lo is not None else 0, (lo or 0) + d), hi) if x is not None))
        if r["status"] == "refuted":
            r["failed"] = [[g[0], g[1], {"integers instantiated at lower bound +": d, "detail": g[2]}] for g in r["failed"] if g[0] == "refuted"]
            return r
    res["status"], res["error"] = "undecided", "a refutation could not be confirmed without abstraction"
    return res


PRELOAD = []


def run_obligation(ob, tier="quick", sizes=None):
    """module-level objects must exist before a symbolic loop uses them: rerun with those found late created first"""
    for _ in range(6):
        r, late = run_once(ob, tier, sizes)
        if not late:
            return r
        PRELOAD.extend(x for x in dict.fromkeys(late) if x not in PRELOAD)
    return r


def run_once(ob, tier, sizes):
    t0 = time.time()
    ctx = Ctx(ob, sizes)
    ctx.tier = tier
    it = ctx.it
    paths = [0]
    err = None
    for m, n in PRELOAD:
        it.module_attr(m, n)

    base = dict(it.contracts)

    def thunk():
        it.contracts.clear()          # contracts installed along one path do not leak into the next
        it.contracts.update(base)
        ob.fn(ctx)

    def on_path(_v, exc):
        if exc is not None:
            try:
                ctx._fails("no exception escapes under the precondition", f"raised {exc.value!r}")
            except Infeasible:
                return
        elif it.check(it.pc, 1500 if not paths[0] else it.BRANCH_MS) == z3.unsat:
            return
        paths[0] += 1

    try:
        it.explore(thunk, on_path)
    except (Unsupported, PolyUnsupported) as u:
        err = f"unsupported: {u}"
    except RecursionError:
        err = "recursion limit"
    except Stop:
        pass
    except Exception as e:      # a defect of the verifier: undecided, never an alarm
        err = f"verifier error: {type(e).__name__}: {e} @ {traceback.format_exc()[-600:]}"
    n = len(ctx.goals)
    disc = sum(1 for g in ctx.goals if g[0] == "discharged")
    ref = [g for g in ctx.goals if g[0] == "refuted"]
    if ref:
        status = "refuted"
    elif err or disc < n:
        status = "undecided"
    elif paths[0] == 0 or n == 0:
        status, err = "undecided", "vacuous: no feasible path or no goal"
    else:
        status = "discharged"
    bad = [g for g in ctx.goals if g[0] != "discharged"]
    res = dict(name=ob.name, targets=ob.targets, status=status, goals=n, discharged=disc, paths=paths[0],
                error=err, failed=[[g[0], g[1], g[2]] for g in bad[:5]], bound=ob.bound,
                backends=ctx.backends, solver_s=round(it.solver_s, 3), queries=it.queries,
                functions=sorted(it.used_funcs), models=sorted(it.used_models), notes=sorted(it.notes),
                wall_s=round(time.time() - t0, 3))
    if ob.sufficient and status == "refuted":
        res["status"], res["error"] = "undecided", "the code no longer meets this sufficient contract"
        return res, it.late_globals
    if sizes is None and status == "undecided" and any(g[0] == "ambiguous" for g in ctx.goals):
        return confirm(ob, res), it.late_globals
    return res, it.late_globals
