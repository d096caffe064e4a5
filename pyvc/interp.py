"""Symbolic interpreter for Python ASTs of the real source tree."""
import ast
import builtins as pybuiltins
import dis
import os
import time
from fractions import Fraction

import z3

from . import poly as P
from . import sparse
from .values import *
from .values import Hole

REPO = os.environ.get("PYVC_REPO", "/repo")
SRC = os.path.join(REPO, "src", "python")

_AST = {}


def module_path(name):
    base = os.path.join(SRC, *name.split("."))
    for p in (base + ".py", os.path.join(base, "__init__.py")):
        if os.path.exists(p):
            return p
    return None


def flatten(stmts):
    for s in stmts:
        if isinstance(s, ast.Try):
            yield from flatten(s.body)
        elif isinstance(s, ast.If):
            t = s.test
            if isinstance(t, ast.Name) and t.id == "TYPE_CHECKING" or \
                    isinstance(t, ast.Attribute) and t.attr == "TYPE_CHECKING":
                continue
            if isinstance(t, ast.Constant) and not t.value:
                yield from flatten(s.orelse)
                continue
            yield from flatten(s.body)
        else:
            yield s


class ModInfo:
    def __init__(self, name):
        self.name = name
        self.path = module_path(name)
        with open(self.path) as f:
            self.tree = ast.parse(f.read())
        self.is_pkg = self.path.endswith("__init__.py")
        self.bind = {}
        self.stars = []
        self.registers = {}
        for s in flatten(self.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.bind[s.name] = s
                for d in getattr(s, "decorator_list", []):
                    t = d.func if isinstance(d, ast.Call) else d
                    if isinstance(t, ast.Attribute) and t.attr == "register" and isinstance(t.value, ast.Name):
                        self.registers.setdefault(t.value.id, []).append(s)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                tgts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tgts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.bind[n.id] = s
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == "*":
                        self.stars.append(self.absolute(s))
                    else:
                        self.bind[a.asname or a.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.bind[a.asname or a.name.split(".")[0]] = s

    def absolute(self, node):
        if not node.level:
            return node.module
        parts = self.name.split(".")
        drop = node.level - (1 if self.is_pkg else 0)
        base = parts[:len(parts) - drop] if drop else parts
        return ".".join(base + ([node.module] if node.module else []))


def modinfo(name):
    if name not in _AST:
        _AST[name] = ModInfo(name)
    return _AST[name]


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Frame:
    """activation record; variables live in the heap under .ref"""
    __slots__ = ("ref", "parent", "module", "func", "cls", "nonlocals", "globals")

    def __init__(self, ref, parent, module, func=None, cls=None):
        self.ref, self.parent, self.module, self.func, self.cls = ref, parent, module, func, cls
        self.nonlocals, self.globals = set(), set()


BUILTIN_EXC = {n: getattr(__import__("builtins"), n) for n in dir(__import__("builtins"))
               if isinstance(getattr(__import__("builtins"), n), type)
               and issubclass(getattr(__import__("builtins"), n), BaseException)}

_pow2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


_ASSERT, _CTX = z3.z3core.Z3_solver_assert.__defaults__[0].f, z3.main_ctx().ref()


class Interp:
    MAX_STEPS = 400000
    MAX_PATHS = 600
    MAX_DEPTH = 70

    def __init__(self, timeout_ms=4000, budget_s=120):
        self.timeout_ms = timeout_ms
        self.deadline = time.time() + budget_s
        self.heap = {}
        self.nref = 0
        self.pc = []
        self.axioms = []
        self.trail = []
        self.pos = 0
        self.alts = None
        self.counter = 0
        self.steps = 0
        self.depth = 0
        self.index_vars = []
        self.contracts = {}
        self.peeling = 0
        self.models = {}
        self.seq_table = []
        self.bigops = {}
        self.late_globals = []     # module-level names first needed inside a symbolic loop
        self.distinct_hints = []   # facts (functions of two positions) saying that the keys of an input dictionary differ
        self.once, self.joined = set(), []
        self.split_ranges = 0      # set by a contract: ranges of at most so many elements are split into cases
        self.abstract = set()      # names of functions that abstract sums, folds, sequences
        self.strs = {}
        self.emitted = []
        self.used_models = set()
        self.used_funcs = set()
        self.notes = set()
        self.solver_s = 0.0
        self.queries = 0
        self.sat_cache = {}
        self.inputs = {}
        x, y = z3.Ints("p2x p2y")
        self.base_axioms = [
            z3.ForAll([x], z3.Implies(x >= 0, _pow2(x) >= 1), patterns=[_pow2(x)]),
            z3.And(*[_pow2(z3.IntVal(k)) == 2 ** k for k in range(9)]),
        ]
        from . import lib
        lib.install(self)

    # ------------------------------------------------------------ basics
    def fresh_name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def fresh(self, base, sort):
        """fresh constant; inside loop bodies a function of the enclosing loop indices"""
        n = self.fresh_name(base)
        if self.index_vars:
            f = z3.Function(n, *([z3.IntSort()] * len(self.index_vars)), sort)
            return f(*self.index_vars)
        return z3.Const(n, sort)

    def alloc(self, content):
        self.nref += 1
        self.heap[self.nref] = content
        return self.nref

    def new_list(self, vals):
        return VList(self.alloc(vals if isinstance(vals, Seq) else Seq.of(vals)))

    def new_dict(self, items):
        return VDict(self.alloc(tuple(items)))

    def new_iter(self, seq):
        return VIter(self.alloc(seq))

    def new_obj(self, cls, attrs):
        return VObj(self.alloc(dict(attrs)), cls)

    def new_arr(self, vals, shape, kind="numpy"):
        vals = tuple(vals)
        return VArr(self.alloc(vals), range(len(vals)), shape, kind)

    def arr_vals(self, a):
        base = self.heap[a.ref]
        return [base[i] for i in a.idx]

    def tick(self):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported("step limit")
        if (self.steps & 255) == 0 and time.time() > self.deadline:
            raise Unsupported("time budget")

    # ------------------------------------------------------------ solver
    BRANCH_MS = 400

    def check(self, conds, ms=None):
        if time.time() > self.deadline:
            raise Unsupported("time budget")
        key = tuple(sorted(c.get_id() for c in conds)) + (len(self.axioms),)
        if key in self.sat_cache:
            r = self.sat_cache[key]
            if r[0] != z3.unknown or (ms or self.timeout_ms) <= r[2]:
                return r[0]
        s = z3.Solver()
        s.set("timeout", ms or self.timeout_ms)
        s.set("random_seed", 0)
        seen = set()
        for a in self.base_axioms + self.axioms + list(conds):
            if not isinstance(a, z3.BoolRef):
                s.add(a)
            elif a.ast.value not in seen:      # (z3 shares terms: the address identifies the term)
                seen.add(a.ast.value)
                _ASSERT(_CTX, s.solver, a.ast)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        self.sat_cache[key] = (r, list(conds), ms or self.timeout_ms)
        return r

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)

    def feasible(self):
        return self.check(self.pc, self.BRANCH_MS) != z3.unsat

    def valid(self, c):
        """is c provable under the current path condition?"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c) and not self.pc:
            return False
        return self.check(self.pc + [z3.Not(c)]) == z3.unsat

    def decide(self, c):
        """take a branch on condition c, forking the exploration if both are possible"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            self.pc.append(c if d else z3.Not(c))
            return d
        t = self.check(self.pc + [c], self.BRANCH_MS)
        f = self.check(self.pc + [z3.Not(c)], self.BRANCH_MS)
        if t == z3.unsat and f == z3.unsat:
            raise Infeasible()
        if t == z3.unsat:
            self.pc.append(z3.Not(c))
            d = False
        elif f == z3.unsat:
            self.pc.append(c)
            d = True
        else:
            self.alts.append(self.trail[:self.pos] + [False])
            self.pc.append(c)
            d = True
        self.trail = self.trail[:self.pos] + [d]
        self.pos += 1
        return d

    def explore(self, thunk, on_path):
        """run thunk over every feasible path from the current state; call
        on_path(outcome, exc) at the end of each, inside that path's state."""
        saved = (self.heap, list(self.pc), self.trail, self.pos, self.alts, list(self.index_vars), self.depth)
        n0, ax0 = self.nref, list(self.axioms)
        work = [[]]
        n = 0
        try:
            while work:
                n += 1
                if n > self.MAX_PATHS:
                    raise Unsupported("path limit")
                self.heap = dict(saved[0])
                self.pc = list(saved[1])
                self.index_vars = list(saved[5])
                self.depth = saved[6]
                self.trail = work.pop()
                self.pos = 0
                self.alts = []
                try:
                    try:
                        v = thunk()
                        exc = None
                    except PyExc as e:
                        v, exc = None, e
                    on_path(v, exc)
                except Infeasible:
                    pass
                work.extend(self.alts)
        finally:
            self.heap, self.pc, self.trail, self.pos, self.alts = saved[0], saved[1], saved[2], saved[3], saved[4]
            self.index_vars, self.depth = saved[5], saved[6]
        return n

    # ------------------------------------------------------------ modules and names
    def module_frame(self, name):
        key = ("mod", name)
        if key not in self.heap:
            self.heap[key] = {}
        return Frame(key, None, name)

    def module_attr(self, modname, name):
        key = ("mod", modname)
        d = self.heap.get(key)
        if d is not None and name in d:
            return d[name]
        info = modinfo(modname)
        if name in info.bind:
            if len(self.index_vars) and isinstance(info.bind[name], (ast.ClassDef, ast.Assign, ast.AnnAssign, ast.FunctionDef)):
                self.late_globals.append((modname, name))
            v = self._bind_top(info, name, info.bind[name])
            d = dict(self.heap.get(key) or {})
            d[name] = v
            self.heap[key] = d
            return v
        for m in info.stars:
            if m.startswith("zquantum") and module_path(m):
                try:
                    return self.module_attr(m, name)
                except KeyError:
                    pass
        if name == "__name__":
            return modname
        if name == "__file__":
            return module_path(modname)
        if name.startswith("__") and name.endswith("__"):
            raise Unsupported(f"module attribute {name}")
        sub = modname + "." + name
        if module_path(sub):
            return VModule(sub)
        raise KeyError(name)

    def _bind_top(self, info, name, node):
        fr = self.module_frame(info.name)
        if isinstance(node, ast.FunctionDef):
            f = self.make_function(node, fr)
            if isinstance(f, VFunc) and f.dispatch is not None:
                for r in info.registers.get(name, []):
                    self._register(f, r, fr)
            return f
        if isinstance(node, ast.ClassDef):
            return self.make_class(node, fr)
        if isinstance(node, ast.ImportFrom):
            mod = info.absolute(node)
            for a in node.names:
                if (a.asname or a.name) == name:
                    return self.import_from(mod, a.name)
        if isinstance(node, ast.Import):
            for a in node.names:
                if (a.asname or a.name.split(".")[0]) == name:
                    full = a.name if a.asname else a.name.split(".")[0]
                    if full.startswith("zquantum") and module_path(full):
                        return VModule(full)
                    return VLib(full)
        if isinstance(node, ast.AnnAssign):
            if node.value is None:
                raise KeyError(name)
            return self.eval(node.value, fr)
        if isinstance(node, ast.Assign):
            v = self.eval(node.value, fr)
            tmp = Frame(self.alloc({}), fr, info.name)
            for t in node.targets:
                self.assign(t, v, tmp)
            return self.heap[tmp.ref][name]
        raise Unsupported(f"top-level binding of {name}")

    def _register(self, f, node, fr):
        typ = None
        for d in node.decorator_list:
            if isinstance(d, ast.Call) and d.args:
                typ = self.eval(d.args[0], fr)
        if typ is None:
            ann = node.args.args[0].annotation
            if isinstance(ann, ast.Constant):
                ann = ast.parse(ann.value, mode="eval").body
            typ = self.eval(ann, fr)
        g = VFunc(node, fr, fr.module, node.name, defaults=[self.eval(d, fr) for d in node.args.defaults])
        f.dispatch.append((typ, g))

    def import_from(self, mod, name):
        if mod.startswith("zquantum") and module_path(mod):
            try:
                return self.module_attr(mod, name)
            except KeyError:
                raise Unsupported(f"import {mod}.{name}")
        if mod == "builtins" and name in self.builtins:
            return self.builtins[name]
        return VLib(f"{mod}.{name}")

    def resolve(self, path):
        """'pkg.mod:Class.attr' -> value"""
        mod, _, q = path.partition(":")
        parts = q.split(".")
        try:
            v = self.module_attr(mod, parts[0])
        except KeyError:
            raise Unsupported(f"{path} no longer exists")
        for p in parts[1:]:
            if isinstance(v, VClass):
                v, _c = v.lookup(p)
                if v is None:
                    raise Unsupported(f"{path} no longer exists")
            else:
                v = self.getattr(v, p)
        return v

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if f.ref.__class__ is tuple:
                try:
                    return self.module_attr(f.module, name)
                except KeyError:
                    break
            if name in f.globals:
                while f.parent is not None:
                    f = f.parent
                continue
            d = self.heap[f.ref]
            if name in d and not (f.cls is not None and f is not frame):
                v = d[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"variable {name}: {v.why}")
                if v is UNSET:
                    raise PyExc(ExcInst(UnboundLocalError, (name,)))
                return v
            f = f.parent
        if name in self.builtins:
            return self.builtins[name]
        if name in BUILTIN_EXC:
            return BUILTIN_EXC[name]
        if hasattr(pybuiltins, name):
            raise Unsupported(f"builtin {name}")
        raise PyExc(ExcInst(NameError, (name,)))

    def setvar(self, frame, name, v):
        f = frame
        if name in frame.globals:
            raise Unsupported("assignment to a global")
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None and name not in self.heap[f.ref]:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal")
        d = dict(self.heap[f.ref])
        d[name] = v
        self.heap[f.ref] = d

    # ------------------------------------------------------------ definitions
    def make_function(self, node, frame, cls=None):
        defaults = [self.eval(d, frame) for d in node.args.defaults]
        kwd = {a.arg: self.eval(d, frame) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        f = VFunc(node, frame, frame.module, getattr(node, "name", "<lambda>"), cls, defaults, kwd)
        v = f
        for d in reversed(getattr(node, "decorator_list", [])):
            if isinstance(d, ast.Name) and d.id == "property":
                v = VProperty(v)
                continue
            if isinstance(d, ast.Name) and d.id == "staticmethod":
                v = VStatic(v)
                continue
            if isinstance(d, ast.Name) and d.id == "classmethod":
                v = VClassMethod(v)
                continue
            if isinstance(d, ast.Attribute) and d.attr == "setter":
                old = self.heap[frame.ref].get(node.name)
                v = VProperty(old.fget, v)
                continue
            if isinstance(d, ast.Attribute) and d.attr == "register":
                return v
            dv = self.eval(d, frame)
            if isinstance(dv, VLib) and dv.path in ("abc.abstractmethod", "typing.overload", "functools.lru_cache",
                                                    "typing.no_type_check", "typing_extensions.overload"):
                continue
            if isinstance(dv, VLib) and dv.path == "abc.abstractproperty":
                v = VProperty(v)
                continue
            if isinstance(dv, VLib) and dv.path == "functools.singledispatch":
                f.dispatch = []
                continue
            if isinstance(dv, VLib) and dv.path in ("functools.wraps",):
                continue
            v = self.call(dv, [v], {})
        return v

    def make_class(self, node, frame):
        bases = []
        builtin_base = None
        for b in node.bases:
            t = b.value if isinstance(b, ast.Subscript) else b
            bv = self.eval(t, frame)
            if isinstance(bv, VClass):
                bases.append(bv)
                builtin_base = builtin_base or bv.builtin_base
            elif isinstance(bv, type) and issubclass(bv, BaseException):
                builtin_base = bv
            elif isinstance(bv, VLib):
                if bv.path.split(".")[-1] in ("Protocol", "ABC", "Generic", "object"):
                    pass
                elif bv.path.split(".")[-1] == "NamedTuple":
                    builtin_base = "NamedTuple"
                elif bv.path.split(".")[-1] in ("Enum", "IntEnum"):
                    builtin_base = "Enum"
                else:
                    builtin_base = bv
            elif isinstance(bv, Builtin):
                if bv.name != "object":
                    builtin_base = bv
        cls = VClass(node.name, frame.module, bases, node)
        cls.builtin_base = builtin_base
        cf = Frame(self.alloc({}), frame, frame.module, cls=cls)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = self.make_function(s, cf, cls)
                d = dict(self.heap[cf.ref]); d[s.name] = f; self.heap[cf.ref] = d
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                ann = ast.dump(s.annotation)
                dv = UNSET if s.value is None else self.eval(s.value, cf)
                if "ClassVar" not in ann:
                    cls.fields.append((s.target.id, dv))
                if dv is not UNSET:
                    d = dict(self.heap[cf.ref]); d[s.target.id] = dv; self.heap[cf.ref] = d
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                pass
            else:
                self.exec(s, cf)
        cls.attrs = dict(self.heap[cf.ref])
        if builtin_base == "Enum":
            for k, v in list(cls.attrs.items()):
                if not isinstance(v, (VFunc, VProperty, VStatic, VClassMethod)) and not k.startswith("_"):
                    cls.attrs[k] = self.new_obj(cls, {"name": k, "value": v})
        for d in reversed(node.decorator_list):
            call = isinstance(d, ast.Call)
            dv = self.eval(d.func if call else d, frame)
            if isinstance(dv, VLib) and dv.path == "dataclasses.dataclass":
                kw = {k.arg: self.eval(k.value, frame) for k in d.keywords} if call else {}
                allf = []
                for c in reversed(cls.mro()):
                    if c is cls or c.dataclass is not None:
                        for n, dv2 in c.fields:
                            allf = [x for x in allf if x[0] != n] + [(n, dv2)]
                cls.dataclass = dict(frozen=kw.get("frozen", False), eq=kw.get("eq", True), fields=allf)
            elif isinstance(dv, VLib) and dv.path.split(".")[-1] in ("runtime_checkable", "total_ordering", "final"):
                pass
            else:
                raise Unsupported(f"class decorator {dv}")
        return cls

    # ------------------------------------------------------------ calls
    def bind_args(self, f, args, kwargs):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        n = len(params)
        if len(args) > n and not a.vararg:
            raise PyExc(ExcInst(TypeError, (f"{f.name}: too many arguments",)))
        for p, v in zip(params, args):
            out[p] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[n:])
        for i, p in enumerate(params):
            if p in out and i < len(args):
                if p in kwargs:
                    raise PyExc(ExcInst(TypeError, (f"{f.name}: multiple values for {p}",)))
                continue
            if p in kwargs:
                out[p] = kwargs.pop(p)
            else:
                j = i - (n - len(f.defaults))
                if j < 0:
                    raise PyExc(ExcInst(TypeError, (f"{f.name}: missing argument {p}",)))
                out[p] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                out[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kwdefaults:
                out[p.arg] = f.kwdefaults[p.arg]
            else:
                raise PyExc(ExcInst(TypeError, (f"{f.name}: missing keyword {p.arg}",)))
        if a.kwarg:
            out[a.kwarg.arg] = VDict(self.alloc(tuple(kwargs.items())))
        elif kwargs:
            raise PyExc(ExcInst(TypeError, (f"{f.name}: unexpected {list(kwargs)}",)))
        return out

    def call_function(self, f, args, kwargs):
        self.tick()
        if f.dispatch is not None and f.qual not in self.contracts:
            g = self.pick_dispatch(f, args[0] if args else next(iter(kwargs.values())))
            if g is not f:
                return self.call_function(g, args, kwargs)
        h = self.contracts.get(f.qual)
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                return r
            if f.dispatch is not None:
                g = self.pick_dispatch(f, args[0] if args else next(iter(kwargs.values())))
                if g is not f:
                    return self.call_function(g, args, kwargs)
        self.used_funcs.add(f.qual)
        env = self.bind_args(f, args, kwargs)
        fr = Frame(self.alloc(env), f.frame, f.module, f, None)
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth -= 1
            raise Unsupported("recursion depth")
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if is_generator(f.node):
                out = self.new_list([])
                d = dict(self.heap[fr.ref]); d["__yield__"] = out; self.heap[fr.ref] = d
                try:
                    self.exec_block(f.node.body, fr)
                except ReturnSig:
                    pass
                return self.new_iter(self.heap[out.ref])
            try:
                self.exec_block(f.node.body, fr)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def pick_dispatch(self, f, arg):
        best = None
        for typ, g in f.dispatch:
            r = self.isinstance(arg, typ)
            if not isinstance(r, bool):
                r = self.decide(r)
            if r:
                if best is None or self.is_subtype(typ, best[0]):
                    best = (typ, g)
        return best[1] if best else f

    def is_subtype(self, a, b):
        if isinstance(a, VClass) and isinstance(b, VClass):
            return b in a.mro()
        if isinstance(a, VLib) and isinstance(b, VLib):
            x, y = a.path.split(".")[-1], b.path.split(".")[-1]
            if a.path.startswith("sympy") and b.path.startswith(("sympy", "numbers")) and (x in SYMPY_SUPER or y in SYMPY_SUPER):
                todo, seen = [x], set()
                while todo:
                    for q in SYMPY_SUPER.get(todo.pop(), ()):
                        if q == y and not (b.path.startswith("numbers") and q != "Number"):
                            return True
                        if q not in seen:
                            seen.add(q)
                            todo.append(q)
                if a.path.startswith("sympy") and x in SYMPY_SUPER and b.path in ("numbers.Number", "numbers.Complex"):
                    return "Number" in seen or x == "Number"
                return False
            if b.path.startswith("sympy") and a.path.startswith("numbers"):
                return False
        order = {"sympy.Symbol": 3, "sympy.Number": 3, "sympy.Expr": 2, "numbers.Number": 1}
        def rank(t):
            if isinstance(t, VLib):
                return order.get(t.path, 1)
            return 2
        return rank(a) > rank(b)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, VFunc):
            return self.call_function(f, args, kwargs)
        if isinstance(f, VBound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Builtin):
            if kwargs:
                check_options(f.fn, kwargs, f.name)
            return f.fn(self, list(args), kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, VLib):
            m = self.models.get(f.path)
            if m is None:
                raise Unsupported(f"library call {f.path}")
            self.used_models.add(f.path)
            if kwargs:
                check_options(m, kwargs, f.path)
            return m(self, list(args), kwargs)
        if isinstance(f, VObj):
            m, _c = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
        if isinstance(f, SU):
            if f.iface.call is not None:
                return f.iface.call(self, f, list(args), kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcInst(f, tuple(args))
        raise Unsupported(f"call of {f!r}")

    def instantiate(self, cls, args, kwargs):
        h = self.contracts.get(f"{cls.module}:{cls.name}")
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if cls.builtin_base == "NamedTuple" and cls.lookup("__init__")[0] is None:
            return self._init_fields(cls, cls.fields, args, kwargs)
        o = self.new_obj(cls, {})
        init, _c = cls.lookup("__init__")
        if cls.dataclass is not None and (init is None or _c.dataclass is None or _c is not cls) and \
                not (_c is cls):
            o = self._init_fields(cls, cls.dataclass["fields"], args, kwargs, o)
            post, _c = cls.lookup("__post_init__")
            if post is not None:
                self.call(post, [o], {})
            return o
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif isinstance(cls.builtin_base, type):
            self.heap[o.ref] = {"args": tuple(args)}
        elif isinstance(cls.builtin_base, Builtin) and cls.builtin_base.name == "dict" and cls.lookup("__new__")[0] is None:
            # subclass of dict: an object that carries a dictionary
            self.heap[o.ref] = {"#dict": self.call(cls.builtin_base, list(args), kwargs)}
        elif args or kwargs:
            raise Unsupported(f"constructor of {cls.name}")
        return o

    def _init_fields(self, cls, fields, args, kwargs, o=None):
        o = o or self.new_obj(cls, {})
        kwargs = dict(kwargs)
        d = {}
        if len(args) > len(fields):
            raise PyExc(ExcInst(TypeError, (cls.name,)))
        for i, (n, dv) in enumerate(fields):
            if i < len(args):
                d[n] = args[i]
            elif n in kwargs:
                d[n] = kwargs.pop(n)
            elif dv is not UNSET:
                if isinstance(dv, tuple) and len(dv) == 2 and dv[0] == "__factory__":
                    d[n] = self.call(dv[1], [], {})
                else:
                    d[n] = dv
            else:
                raise PyExc(ExcInst(TypeError, (f"{cls.name}: missing {n}",)))
        if kwargs:
            raise PyExc(ExcInst(TypeError, (f"{cls.name}: unexpected {list(kwargs)}",)))
        self.heap[o.ref] = d
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name):
        if isinstance(v, VObj):
            if v.cls.builtin_base == "NamedTuple" and name in ("_asdict", "_fields", "_replace"):
                names = [n for n, _ in v.cls.fields]
                if name == "_fields":
                    return tuple(names)
                if name == "_asdict":
                    return Builtin(name, lambda it, a, k: it.new_dict([(n, it.heap[v.ref][n]) for n in names]))
                return Builtin(name, lambda it, a, k: it.new_obj(v.cls, dict(it.heap[v.ref], **k)) if set(k) <= set(names) and not a else it._unsup("_replace"))
            return self.obj_attr(v, name)
        if isinstance(v, VModule):
            try:
                return self.module_attr(v.name, name)
            except KeyError:
                raise Unsupported(f"module attribute {v.name}.{name}")
        if isinstance(v, VLib):
            p = v.path + "." + name
            if p in self.lib_consts:
                return self.lib_consts[p]
            return VLib(p)
        if isinstance(v, VClass):
            a, c = v.lookup(name)
            if a is None:
                if name == "__name__":
                    return v.name
                if name == "__dataclass_fields__" and v.dataclass:
                    return VDict(self.alloc(tuple((n, n) for n, _ in v.dataclass["fields"])))
                raise PyExc(ExcInst(AttributeError, (name,)))
            if isinstance(a, VStatic):
                return a.f
            if isinstance(a, VClassMethod):
                return VBound(a.f, v)
            return a
        if isinstance(v, SU):
            if name in v.iface.attrs:
                return v.iface.attrs[name](self, v)
            if name in v.iface.methods:
                m = v.iface.methods[name]
                return Builtin(name, lambda it, a, k, m=m, v=v: m(it, v, a, k))
            raise Unsupported(f"attribute {name} of opaque {v.iface.name}")
        if isinstance(v, VSuper):
            for c in v.after:
                if name in c.attrs:
                    a = c.attrs[name]
                    if isinstance(a, VProperty):
                        return self.call(a.fget, [v.obj], {})
                    return VBound(a, v.obj)
            if name == "__init__":
                return Builtin("object.__init__", lambda it, a, k: None)
            raise Unsupported(f"super().{name}")
        if isinstance(v, ExcInst) and name == "args":
            return v.args
        if isinstance(v, VFunc):
            if name == "__name__":
                return v.name
            if name == "dispatch":
                return Builtin("dispatch", lambda it, a, k: v)
        if isinstance(v, Builtin) and v.name == "object" and name == "__setattr__":
            return Builtin("object.__setattr__", lambda it, a, k: it.setattr(a[0], a[1], a[2], force=True))
        r = self.lib_attr(v, name)
        if r is not NotImplemented:
            return r
        raise Unsupported(f"attribute {name} of {type(v).__name__}")

    def obj_attr(self, v, name):
        a, c = v.cls.lookup(name)
        if isinstance(a, VProperty):
            q = f"{c.module}:{c.name}.{name}"
            return self.call(a.fget, [v], {})
        if isinstance(a, VObj) and a.cls.lookup("__get__")[0] is not None and a.cls.lookup("__set__")[0] is not None:
            return self.call(a.cls.lookup("__get__")[0], [a, v, v.cls], {})
        d = self.heap[v.ref]
        if name in d:
            x = d[name]
            if isinstance(x, Poison):
                raise Unsupported(f"attribute {name}: {x.why}")
            return x
        if a is not None:
            if isinstance(a, VFunc):
                return VBound(a, v)
            if isinstance(a, VStatic):
                return a.f
            if isinstance(a, VClassMethod):
                return VBound(a.f, v.cls)
            if isinstance(a, VObj) and a.cls.lookup("__get__")[0] is not None:
                return self.call(a.cls.lookup("__get__")[0], [a, v, v.cls], {})
            return a
        if name == "__class__":
            return v.cls
        if name == "__dict__":
            return VDict(self.alloc(tuple(d.items())))
        if name == "__dataclass_fields__" and v.cls.dataclass:
            return VDict(self.alloc(tuple((n, n) for n, _ in v.cls.dataclass["fields"])))
        if "#dict" in d and name in ("get", "items", "keys", "values", "update", "pop", "setdefault", "copy", "clear"):
            return self.getattr(d["#dict"], name)
        ga, _c = v.cls.lookup("__getattr__")
        if ga is not None:
            return self.call(ga, [v, name], {})
        raise PyExc(ExcInst(AttributeError, (f"{v.cls.name}.{name}",)))

    def dict_of(self, v):
        """the dictionary carried by an instance of a subclass of dict"""
        return self.heap[v.ref].get("#dict") if isinstance(v, VObj) and isinstance(self.heap.get(v.ref), dict) else None

    def setattr(self, v, name, val, force=False):
        if not isinstance(v, VObj):
            raise Unsupported(f"setattr on {type(v).__name__}")
        a, c = v.cls.lookup(name)
        if not force:
            sa, _c = v.cls.lookup("__setattr__")
            if sa is not None:
                self.call(sa, [v, name, val], {})
                return
            if v.cls.dataclass and v.cls.dataclass["frozen"]:
                raise PyExc(ExcInst(AttributeError, ("frozen",)))
        if isinstance(a, VProperty):
            if a.fset is None:
                raise PyExc(ExcInst(AttributeError, (name,)))
            self.call(a.fset, [v, val], {})
            return
        if isinstance(a, VObj) and a.cls.lookup("__set__")[0] is not None:
            self.call(a.cls.lookup("__set__")[0], [a, v, val], {})
            return
        d = dict(self.heap[v.ref])
        d[name] = val
        self.heap[v.ref] = d

    # ------------------------------------------------------------ truth, equality
    def truth(self, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction, float, str, complex, tuple)):
            return bool(v)
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, z3.BitVecRef):
            return v != 0
        if isinstance(v, SC):
            return self.or_([self.truth(v.re), self.truth(v.im)])
        if isinstance(v, Seq):
            return self.gt0(self.seq_len(v))
        if isinstance(v, (VList, VSet)):
            return self.gt0(self.length(v))
        if isinstance(v, VDict):
            return self.gt0(self.length(v))
        if isinstance(v, SU):
            if v.iface.truth is not None:
                return v.iface.truth(self, v)
            if v.iface.length is not None:
                return self.gt0(v.iface.length(self, v))
            return True
        if isinstance(v, VObj):
            for n in ("__bool__", "__len__"):
                m, _c = v.cls.lookup(n)
                if m is not None:
                    return self.truth(self.call(m, [v], {}))
            return True
        if isinstance(v, (VFunc, VClass, VBound, Builtin, VLib, VIter)):
            return True
        if isinstance(v, P.Poly):
            f = v.as_fraction()
            if f is not None:
                return bool(f)
        if isinstance(v, ARRAYS):
            n = self.length(v)
            if isinstance(v, VArr) and len(v.idx) == 1:
                return self.truth(self.arr_vals(v)[0])
        raise Unsupported(f"truth of {v!r}")

    def gt0(self, n):
        return n > 0

    def eq(self, a, b):
        """Python == as bool or z3 Bool"""
        if a is b and not isinstance(a, (SU, z3.ExprRef, Fraction)):
            return True
        if isinstance(a, VObj) or isinstance(b, VObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VObj):
                    m, c = x.cls.lookup("__eq__")
                    if m is not None:
                        r = self.call(m, [x, y], {})
                        if r is NotImplemented or isinstance(r, NotImpl):
                            continue
                        return self.truth(r)
                    if isinstance(y, VObj) and x.cls is y.cls and (
                            x.cls.dataclass and x.cls.dataclass["eq"] or x.cls.builtin_base == "NamedTuple"):
                        d1, d2 = self.heap[x.ref], self.heap[y.ref]
                        fs = x.cls.dataclass["fields"] if x.cls.dataclass else x.cls.fields
                        return self.and_([self.eq(d1[n], d2[n]) for n, _ in fs])
            if isinstance(a, SU) or isinstance(b, SU):
                return self.embed(a) == self.embed(b)
            return False
        if isinstance(a, SU) or isinstance(b, SU):
            s = a if isinstance(a, SU) else b
            o = b if isinstance(a, SU) else a
            if s.iface.eq is not None:
                r = s.iface.eq(self, s, o)
                if r is not NotImplemented:
                    return r
            if o is None or isinstance(o, (VClass, VFunc)):
                return False
            return self.embed(a) == self.embed(b)
        if isinstance(a, SC) or isinstance(b, SC):
            a, b = self.to_sc(a), self.to_sc(b)
            return self.and_([self.eq(a.re, b.re), self.eq(a.im, b.im)])
        if isinstance(a, P.Poly) or isinstance(b, P.Poly):
            return a == b if isinstance(a, P.Poly) else b == a
        if is_z3(a) or is_z3(b):
            if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
                return z3.simplify(a == b)
            if isinstance(a, z3.BoolRef) and isinstance(b, (bool, z3.BoolRef)) or \
                    isinstance(b, z3.BoolRef) and isinstance(a, bool):
                return z3.simplify(to_z3_bool(a) == to_z3_bool(b))
            if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
                x, y = self.coerce(a, b)
                return z3.simplify(x == y)
            return False
        if isinstance(a, (tuple, Seq)) and isinstance(b, (tuple, Seq)):
            return self.seq_eq(self.as_seq(a), self.as_seq(b))
        if isinstance(a, VList) and isinstance(b, VList):
            return self.seq_eq(self.heap[a.ref], self.heap[b.ref])
        if isinstance(a, VDict) and isinstance(b, VDict):
            if a.ref == b.ref:
                return True
            return self.dict_eq(a, b)
        if isinstance(a, VSet) and isinstance(b, VSet):
            return self.set_eq(a, b)
        if isinstance(a, ARRAYS) or isinstance(b, ARRAYS):
            return self.binop("==", a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            return isinstance(a, Ref) and a == b
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported(f"comparison of {a!r} and {b!r}")

    def seq_eq(self, s, t):
        a, b = s.concrete(), t.concrete()
        if a is not None and b is not None:
            if len(a) != len(b):
                return False
            return self.and_([self.eq(x, y) for x, y in zip(a, b)])
        from . import prove
        r = prove.same_value(self, s, t)
        if r is True:
            return True
        n1, n2 = self.seq_len(s), self.seq_len(t)
        le = self.eq(n1, n2)
        if le is False or self.valid(self.not_(le)):
            return False
        if a is not None or b is not None:
            if b is not None:
                a, s, t = b, t, s
            # concrete list a against symbolic sequence t
            if not self.valid(le) and not self.decide(le):
                return False
            return self.and_([self.eq(x, self.seq_get(t, i)) for i, x in enumerate(a)])
        if len(s.segs) == 1 and len(t.segs) == 1 and all(isinstance(x.segs[0], Comp) and x.segs[0].simple() is not None for x in (s, t)):
            g, h = s.segs[0], t.segs[0]
            self.index_vars.append(g.idx)
            try:
                e = self.eq(g.simple().v, self.subst(h.simple().v, h.idx, g.idx))
            finally:
                self.index_vars.pop()
            n = g.n if is_z3(g.n) else z3.IntVal(g.n)
            if e is True:
                return le
            if e is False:
                return self.and_([le, self.eq(n, 0)])
            return self.and_([le, z3.ForAll([g.idx], z3.Implies(z3.And(g.idx >= 0, g.idx < n), e))])
        self.notes.add("equality of two composite sequences treated as an unknown truth value")
        return self.embed(s) == self.embed(t)

    def dict_eq(self, a, b):
        ia, ib = self.heap[a.ref], self.heap[b.ref]
        if isinstance(ia, tuple) and isinstance(ib, tuple):
            if len(ia) != len(ib):
                return False
            conds = []
            for k, v in ia:
                found = False
                for k2, v2 in ib:
                    e = self.eq(k, k2)
                    if not isinstance(e, bool):
                        e = self.decide(e)
                    if e:
                        conds.append(self.eq(v, v2))
                        found = True
                        break
                if not found:
                    return False
            return self.and_(conds)
        if ia == () or ib == ():
            return self.eq(self.seq_len(ib if ia == () else ia), 0)
        raise Unsupported("dict equality")

    def set_eq(self, a, b):
        return self.and_([self.set_sub(a, b), self.set_sub(b, a)])

    def set_sub(self, a, b):
        xs = self.heap[a.ref].concrete()
        if xs is None:
            raise Unsupported("symbolic set comparison")
        return self.and_([self.contains(b, x) for x in xs])

    def and_(self, cs):
        out = []
        for c in cs:
            if c is False:
                return False
            if c is True:
                continue
            out.append(c)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def or_(self, cs):
        out = []
        for c in cs:
            if c is True:
                return True
            if c is False:
                continue
            out.append(c)
        if not out:
            return False
        return z3.Or(*out) if len(out) > 1 else out[0]

    def not_(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, SC) or isinstance(b, SC):
            a, b = self.to_sc(a), self.to_sc(b)
            return SC(self.ite(c, a.re, b.re), self.ite(c, a.im, b.im))
        if is_bool(a) and is_bool(b):
            return z3.If(c, to_z3_bool(a), to_z3_bool(b))
        if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
            x, y = self.coerce(a, b)
            return z3.If(c, x, y)
        if isinstance(a, SU) and isinstance(b, SU):
            return SU(z3.If(c, a.term, b.term), a.iface)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        raise Unsupported(f"merge of {a!r} and {b!r}")

    def coerce(self, a, b):
        """two numbers to z3 terms of one sort"""
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            return a, b
        if is_intlike(a) and is_intlike(b) and not isinstance(a, z3.BoolRef) and not isinstance(b, z3.BoolRef):
            f = lambda v: z3.IntVal(int(v)) if isinstance(v, int) else v
            return f(a), f(b)
        if (isinstance(a, z3.BoolRef) or is_intlike(a)) and (isinstance(b, z3.BoolRef) or is_intlike(b)):
            f = lambda v: z3.If(v, z3.IntVal(1), z3.IntVal(0)) if isinstance(v, z3.BoolRef) else (
                z3.IntVal(int(v)) if isinstance(v, int) else v)
            return f(a), f(b)
        return to_z3_real(a), to_z3_real(b)

    def to_sc(self, v):
        if isinstance(v, SC):
            return v
        if isinstance(v, complex):
            return SC(Fraction(v.real), Fraction(v.imag))
        if is_num(v) or is_bool(v):
            return SC(v, 0)
        raise Unsupported(f"complex from {v!r}")

    # ------------------------------------------------------------ embedding into U
    def embed(self, v):
        if isinstance(v, SU):
            return v.term
        if v is None:
            return z3.Const("None", U)
        if isinstance(v, (bool, z3.BoolRef)):
            return z3.Function("inj_bool", z3.BoolSort(), U)(to_z3_bool(v))
        if isinstance(v, z3.BitVecRef):
            return z3.Function(f"inj_bv{v.size()}", v.sort(), U)(v)
        if isinstance(v, (int, Fraction, float, z3.ArithRef)):
            return z3.Function("inj_num", z3.RealSort(), U)(to_z3_real(v))
        if isinstance(v, str):
            if v not in self.strs:
                c = z3.Const("str:" + v, U)
                for o in self.strs.values():
                    self.axioms.append(c != o)
                self.strs[v] = c
            return self.strs[v]
        if isinstance(v, complex):
            v = self.to_sc(v)
        if isinstance(v, SC):
            return self.mk("complex", [v.re, v.im])
        if isinstance(v, tuple):
            return self.mk(f"tuple{len(v)}", v)
        if isinstance(v, VList):
            c = self.heap[v.ref].concrete()
            if c is not None:
                return self.mk(f"list{len(c)}", c)
            return self.intern_seq(self.heap[v.ref])
        if isinstance(v, Seq):
            c = v.concrete()
            if c is not None:
                return self.mk(f"tuple{len(c)}", c)
            return self.intern_seq(v)
        if isinstance(v, VObj):
            d = self.heap[v.ref]
            ks = sorted(d)
            return self.mk("obj:" + v.cls.name + ":" + ",".join(ks), [d[k] for k in ks])
        if isinstance(v, P.Poly):
            return z3.Const("poly:" + repr(v), U)
        if isinstance(v, VFunc):
            return z3.Const("fn:" + v.qual + str(v.node.lineno), U)
        if isinstance(v, (VClass,)):
            return z3.Const("cls:" + v.name, U)
        if isinstance(v, VLib):
            return z3.Const("lib:" + v.path, U)
        if isinstance(v, VBound):
            return self.mk("bound", [v.func, v.self_])
        if isinstance(v, Builtin):
            return z3.Const("builtin:" + v.name, U)
        if isinstance(v, VArr):
            return self.mk("arr" + str(v.shape), self.arr_vals(v))
        if isinstance(v, SArr):
            c = self.heap[v.ref].concrete()
            if c is not None:
                return self.mk(f"arr({len(c)},)", c)
            return self.intern_seq(self.heap[v.ref])
        if isinstance(v, VDict):
            c = self.heap[v.ref]
            if isinstance(c, tuple):
                return self.mk(f"dict{len(c)}", [x for kv in c for x in kv])
            return self.intern_seq(c)
        if isinstance(v, VSlice):
            return self.mk("slice", [v.a, v.b, v.c])
        if type(v).__name__ == "Act":
            return self.mk("act:" + v.tag, [v.base, v.seq])
        if isinstance(v, Frozen):
            return self.embed(self.thaw(v))
        raise Unsupported(f"embedding of {v!r}")

    def mk(self, name, args):
        """application of an uninterpreted constructor"""
        ts = [self.embed(a) for a in args]
        if not ts:
            return z3.Const("k:" + name, U)
        return z3.Function("k:" + name, *([U] * len(ts)), U)(*ts)

    def opaque_app(self, name, args, iface=OPAQUE):
        return SU(self.mk(name, args), iface)

    def num_app(self, name, args, sort):
        ts = [self.embed(a) for a in args]
        if not ts:
            return z3.Const("k:" + name, sort)
        return z3.Function("k:" + name, *([U] * len(ts)), sort)(*ts)

    def intern_seq(self, s):
        """opaque term of a sequence: a function of the index variables it mentions"""
        from . import prove
        from .loops import mentions
        frees = [i for i in self.index_vars if mentions(s, [i])]
        for (frees2, t, F) in self.seq_table:
            if len(frees2) != len(frees):
                continue
            for a, b in zip(frees2, frees):
                t = self.subst(t, a, b)
            if prove.same_value(self, s, t) is True:
                return F(*frees) if frees else F
        if not frees:
            term = self.fresh("seq", U)
            self.abstract.add(term.decl().name())
            self.seq_table.append(((), s, term))
            return term
        F = z3.Function(self.fresh_name("seq"), *([z3.IntSort()] * len(frees)), U)
        self.abstract.add(F.name())
        self.seq_table.append((frees, s, F))
        return F(*frees)

    # ------------------------------------------------------------ sequences
    def as_seq(self, v):
        """the elements an iteration over v produces (does not consume iterators)"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return Seq.of(v)
        if isinstance(v, (VList, VIter, VSet, SArr)):
            return self.heap[v.ref]
        if isinstance(v, VDict):
            c = self.heap[v.ref]
            if isinstance(c, tuple):
                return Seq.of([k for k, _ in c])
            return self.map_seq(c, lambda kv: kv[0])
        if isinstance(v, str):
            return Seq.of(list(v))
        if isinstance(v, VArr):
            if len(v.shape) == 1:
                return Seq.of(self.arr_vals(v))
            step = len(v.idx) // v.shape[0] if v.shape[0] else 0
            return Seq.of([VArr(v.ref, v.idx[i * step:(i + 1) * step], v.shape[1:], v.kind) if v.kind == "numpy"
                           else self.arr_vals(v)[i] for i in range(v.shape[0] if v.kind == "numpy" else len(v.idx))])
        if isinstance(v, SU) and v.iface.iter is not None:
            return v.iface.iter(self, v)
        if isinstance(v, VObj):
            m, _c = v.cls.lookup("__iter__")
            if m is not None:
                return self.as_seq(self.call(m, [v], {}))
            if v.cls.builtin_base == "NamedTuple":
                return Seq.of([self.heap[v.ref][n] for n, _ in v.cls.fields])
            m, _c = v.cls.lookup("__getitem__")
            l, _c = v.cls.lookup("__len__")
            if m is not None and l is not None:
                n = self.call(l, [v], {})
                return self.range_seq(0, n, 1, lambda i: self.call(m, [v, i], {}))
        raise Unsupported(f"iteration over {v!r}")

    def iterate(self, v):
        """elements of v; consumes iterators"""
        s = self.as_seq(v)
        if isinstance(v, (VSet, VDict)) and s.concrete() is None:
            self.distinct(s)
        if isinstance(v, VIter):
            self.heap[v.ref] = Seq()
        return s

    def distinct(self, s):
        """a set or dictionary of symbolic size is a log of insertions: iterating needs that no two are equal"""
        if all(isinstance(g, Comp) and g.n is not None and g.simple() is not None or isinstance(g, Unit) for g in s.segs) and len(s.segs) == 1:
            g = s.segs[0]
            i, j = z3.Int(self.fresh_name("da")), z3.Int(self.fresh_name("db"))
            x = g.simple().v
            self.index_vars += [i, j]
            try:
                e = self.eq(self.subst(x, g.idx, i), self.subst(x, g.idx, j))
            except Unsupported:
                e = True
            finally:
                del self.index_vars[-2:]
            if e is False or e is not True and self.check(self.pc + [h(i, j) for h in self.distinct_hints] + [i >= 0, i < j, j < g.n, e]) == z3.unsat:
                return
        raise Unsupported("iteration over a set whose elements may coincide")

    def range_seq(self, a, b, step, f=None):
        f = f or (lambda i: i)
        if all(isinstance(x, int) for x in (a, b, step)):
            return Seq.of([f(i) for i in range(a, b, step)])
        if step != 1:
            if isinstance(step, int) and step > 1 and a is not None:
                # ceil((b-a)/step) elements
                n = self.ceil_div(self.sub(b, a), step)
                k = z3.Int(self.fresh_name("k"))
                n = z3.If(n > 0, n, 0)
                return Seq([Comp(z3.simplify(n), k, [(True, [Unit(f(z3.simplify(a + k * step)))])])])
            raise Unsupported("range with symbolic step")
        n = self.sub(b, a)
        if not (isinstance(n, int)):
            n = z3.simplify(n)
            if not self.valid(n >= 0):
                n = z3.simplify(z3.If(n >= 0, n, 0))
        k = z3.Int(self.fresh_name("k"))
        return Seq([Comp(n, k, [(True, [Unit(f(z3.simplify(a + k) if not (isinstance(a, int) and a == 0) else k))])])])

    def sub(self, a, b):
        return self.binop("-", a, b)

    def ceil_div(self, a, b):
        return -((-a) / b) if is_z3(a) else -((-a) // b)

    def map_seq(self, s, f):
        """f must be pure; applied inside binders"""
        out = []
        for g in s.segs:
            if isinstance(g, Unit):
                out.append(Unit(f(g.v)))
            elif isinstance(g, Comp):
                self.index_vars.append(g.idx)
                try:
                    out.append(Comp(g.n, g.idx, [(c, self.map_seq(Seq(p), f).segs) for c, p in g.cases]))
                finally:
                    self.index_vars.pop()
            else:
                raise Unsupported("accumulator read inside loop")
        return Seq(out)

    def seq_len(self, s):
        from . import loops
        tot = 0
        for g in s.segs:
            if isinstance(g, Unit):
                tot = tot + 1
            elif isinstance(g, Comp):
                if g.simple() is not None:
                    tot = tot + g.n
                else:
                    e = 0
                    for c, p in reversed(g.cases):
                        self.index_vars.append(g.idx)
                        try:
                            l = self.seq_len(Seq(p))
                        finally:
                            self.index_vars.pop()
                        e = l if c is True else self.ite(c, l, e)
                    tot = self.binop("+", tot, loops.big_sum(self, g.n, g.idx, e))
            elif not isinstance(g, Store):
                tot = tot + self.hole_len(g)
        return z3.simplify(tot) if is_z3(tot) else tot

    def hole_len(self, h):
        return z3.Int(f"len_hole_{h.id}")

    def length(self, v):
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, VArr):
            return v.shape[0] if v.kind == "numpy" else len(v.idx)
        if isinstance(v, VDict):
            c = self.heap[v.ref]
            if isinstance(c, tuple):
                return len(c)
            raise Unsupported("len of symbolic dict")
        if isinstance(v, VSet):
            c = self.heap[v.ref].concrete()
            if c is None:
                if getattr(self, "distinct_sets", None) and v.ref in self.distinct_sets:
                    return self.seq_len(self.heap[v.ref])
                raise Unsupported("len of symbolic set")
            return len(c)
        if isinstance(v, SU):
            if v.iface.length is not None:
                return v.iface.length(self, v)
            if v.iface.iter is not None:
                return self.seq_len(v.iface.iter(self, v))
        if isinstance(v, VObj):
            m, _c = v.cls.lookup("__len__")
            if m is not None:
                return self.call(m, [v], {})
            if self.dict_of(v) is not None:
                return self.length(self.dict_of(v))
            if v.cls.builtin_base == "NamedTuple":
                return len(v.cls.fields)
            raise PyExc(ExcInst(TypeError, ("len",)))
        if isinstance(v, (VList, Seq, SArr)):
            return self.seq_len(self.as_seq(v))
        if is_num(v) or v is None:
            raise PyExc(ExcInst(TypeError, ("len",)))
        raise Unsupported(f"len of {v!r}")

    def seq_get(self, s, i):
        """element at index i (bounds are branched on)"""
        n = self.seq_len(s)
        if isinstance(i, int) and i < 0:
            i = self.binop("+", n, i)
        elif is_z3(i):
            if self.decide(i < 0):
                i = self.binop("+", n, i)
        ok = self.and_([self.cmp("<=", 0, i), self.cmp("<", i, n)])
        if not (ok if isinstance(ok, bool) else self.decide(ok)):
            raise PyExc(ExcInst(IndexError, ("index out of range",)))
        c = s.concrete()
        if c is not None and isinstance(i, int):
            return c[i]
        off = 0
        for k, g in enumerate(s.segs):
            if isinstance(g, Unit):
                ln = 1
            elif isinstance(g, Comp):
                ln = self.seq_len(Seq([g]))
            else:
                raise Unsupported("index into accumulator")
            end = self.binop("+", off, ln)
            last = k == len(s.segs) - 1
            inside = True if last else self.cmp("<", i, end)
            if inside if isinstance(inside, bool) else self.decide(inside):
                if isinstance(g, Unit):
                    return g.v
                j = self.binop("-", i, off)
                u = g.simple()
                if u is None:
                    if len(g.cases) == 1 and g.cases[0][0] is True and all(isinstance(x, Unit) for x in g.cases[0][1]):
                        m = len(g.cases[0][1])
                        q, r = (j / m, j % m) if is_z3(j) else (j // m, j % m)
                        for t in range(m):
                            e = self.eq(r, t)
                            if e if isinstance(e, bool) else self.decide(e):
                                return self.subst(g.cases[0][1][t].v, g.idx, q)
                        raise Infeasible()
                    if all(len(p) == 1 and isinstance(p[0], Unit) for _c, p in g.cases):
                        for c_, p in g.cases:
                            if c_ is True or self.decide(self.subst(c_, g.idx, j)):
                                return self.thaw(self.subst(p[0].v, g.idx, j))
                        if not self.feasible():
                            raise Infeasible()
                    raise Unsupported("index into irregular sequence")
                return self.thaw(self.subst(u.v, g.idx, j))
            off = end
        raise Infeasible()

    def seq_slice(self, s, a, b, step=None):
        if step == -1 and a is None and b is None:
            return self.reverse_seq(s)
        c = s.concrete()
        if c is not None and all(x is None or isinstance(x, int) for x in (a, b, step)):
            return Seq.of(c[a:b:step])
        if step is not None and step != 1:
            raise Unsupported("slice step")
        n = self.seq_len(s)
        def norm(x, dflt):
            if x is None:
                return dflt
            neg = self.cmp("<", x, 0)
            if neg if isinstance(neg, bool) else self.decide(neg):
                x = self.binop("+", n, x)
                neg = self.cmp("<", x, 0)
                if neg if isinstance(neg, bool) else self.decide(neg):
                    return 0
                return x
            over = self.cmp(">", x, n)
            if over if isinstance(over, bool) else self.decide(over):
                return n
            return x
        a, b = norm(a, 0), norm(b, n)
        e = self.cmp(">=", a, b)
        if e if isinstance(e, bool) else self.decide(e):
            return Seq()
        out, off = [], 0
        for g in s.segs:
            ln = 1 if isinstance(g, Unit) else self.seq_len(Seq([g]))
            end = self.binop("+", off, ln)
            # overlap of [off,end) with [a,b)
            before = self.cmp("<=", end, a)
            after = self.cmp("<=", b, off)
            if (before if isinstance(before, bool) else self.decide(before)) or \
                    (after if isinstance(after, bool) else self.decide(after)):
                off = end
                continue
            if isinstance(g, Unit):
                out.append(g)
            else:
                lo = self.cmp("<", off, a)
                lo = self.binop("-", a, off) if (lo if isinstance(lo, bool) else self.decide(lo)) else 0
                hi = self.cmp("<", b, end)
                hi = self.binop("-", b, off) if (hi if isinstance(hi, bool) else self.decide(hi)) else ln
                if g.simple() is None and not (isinstance(lo, int) and lo == 0 and hi is ln):
                    raise Unsupported("slice of irregular sequence")
                if isinstance(lo, int) and lo == 0 and hi is ln:
                    out.append(g)
                else:
                    out.append(Comp(self.simp(self.binop("-", hi, lo)), g.idx,
                                    [(True, [Unit(self.subst(g.simple().v, g.idx, self.simp(self.binop("+", g.idx, lo))))])]))
            off = end
        return Seq(out)

    def simp(self, v):
        return z3.simplify(v) if is_z3(v) else v

    def reverse_seq(self, s):
        out = []
        for g in reversed(s.segs):
            if isinstance(g, Comp):
                j = self.simp(self.binop("-", self.binop("-", g.n, 1), g.idx))
                out.append(Comp(g.n, g.idx, [(self.subst(c, g.idx, j) if c is not True else True,
                                              self.reverse_seq(self.subst(Seq(p), g.idx, j)).segs) for c, p in g.cases]))
            elif isinstance(g, Unit):
                out.append(g)
            else:
                raise Unsupported("reverse of accumulator")
        return Seq(out)

    # ------------------------------------------------------------ substitution / freezing
    def subst(self, v, var, by):
        if by is var:
            return v
        if is_z3(v):
            b = z3.IntVal(by) if isinstance(by, int) else by
            return z3.simplify(z3.substitute(v, (var, b)))
        return self.map_value(v, lambda x: self.subst(x, var, by))

    def map_value(self, v, f):
        """structural map over immutable values; f handles z3 leaves (and recursion)"""
        if isinstance(v, SU):
            return SU(f(v.term), v.iface)
        if isinstance(v, SC):
            return SC(f(v.re), f(v.im))
        if isinstance(v, tuple):
            return tuple(f(x) for x in v)
        if isinstance(v, Seq):
            return Seq(f(g) for g in v.segs)
        if isinstance(v, Unit):
            return Unit(f(v.v))
        if isinstance(v, Comp):
            return Comp(f(v.n), v.idx, [(f(c), [f(x) for x in p]) for c, p in v.cases])
        if isinstance(v, Frozen):
            return Frozen(v.kind, v.cls, {k: f(x) for k, x in v.data.items()} if isinstance(v.data, dict) else f(v.data), v.extra)
        if isinstance(v, VBound):
            return VBound(v.func, f(v.self_))
        if isinstance(v, Store):
            return Store(f(v.i), f(v.v))
        if type(v).__name__ == "Act":
            return type(v)(v.tag, f(v.base), f(v.seq))
        if isinstance(v, VFunc) and v.frame is not None and isinstance(v.frame, FrozenFrame):
            return v
        return v

    def freeze(self, v, base):
        """replace references to objects allocated after `base` by immutable images"""
        if isinstance(v, Ref) and isinstance(v.ref, int) and v.ref > base:
            if isinstance(v, sparse.VSp):
                raise Unsupported("sparse matrix created in a symbolic loop")
            c = self.heap[v.ref]
            if isinstance(v, VObj):
                return Frozen("obj", v.cls, {k: self.freeze(x, base) for k, x in c.items()})
            if isinstance(v, VArr):
                return Frozen("arr", None, tuple(self.freeze(x, base) for x in self.arr_vals(v)), (v.shape, v.kind))
            if isinstance(v, VDict):
                if isinstance(c, tuple):
                    return Frozen("dict", None, tuple((self.freeze(k, base), self.freeze(x, base)) for k, x in c))
                return Frozen("dict", None, self.freeze(c, base))
            if isinstance(v, SMat):
                raise Unsupported("symbolic matrix created in a symbolic loop")
            if isinstance(v, (VList, VSet, VIter, SArr)):
                return Frozen(type(v).__name__, None, self.freeze(c, base))
        if isinstance(v, VFunc) and isinstance(v.frame, Frame) and isinstance(v.frame.ref, int) and v.frame.ref > base:
            raise Unsupported("closure created in a symbolic loop")
        return self.map_value(v, lambda x: self.freeze(x, base))

    def thaw(self, v):
        if isinstance(v, Frozen):
            if v.kind == "obj":
                return self.new_obj(v.cls, {k: self.thaw(x) for k, x in v.data.items()})
            if v.kind == "arr":
                return self.new_arr([self.thaw(x) for x in v.data], v.extra[0], v.extra[1])
            if v.kind == "dict":
                if isinstance(v.data, tuple):
                    return VDict(self.alloc(tuple((self.thaw(k), self.thaw(x)) for k, x in v.data)))
                return VDict(self.alloc(v.data))
            cls = {"VList": VList, "VSet": VSet, "VIter": VIter, "SArr": SArr}[v.kind]
            return cls(self.alloc(self.thaw_seq(v.data)))
        if isinstance(v, tuple):
            return tuple(self.thaw(x) for x in v)
        return v

    def thaw_seq(self, s):
        return Seq(Unit(self.thaw(g.v)) if isinstance(g, Unit) else g for g in s.segs)

    # ------------------------------------------------------------ operators
    def cmp(self, op, a, b):
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return self.not_(self.eq(a, b))
        if isinstance(a, VObj) or isinstance(b, VObj):
            names = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
            if isinstance(a, VObj):
                m, _c = a.cls.lookup(names[op])
                if m is not None:
                    return self.truth(self.call(m, [a, b], {}))
            raise Unsupported("ordering of objects")
        if isinstance(a, ARRAYS) or isinstance(b, ARRAYS):
            return self.binop(op, a, b)
        if isinstance(a, P.Poly) or isinstance(b, P.Poly):
            x = a.as_fraction() if isinstance(a, P.Poly) else a
            y = b.as_fraction() if isinstance(b, P.Poly) else b
            if x is None or y is None:
                raise Unsupported("ordering of symbolic expressions")
            a, b = x, y
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            return {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE}[op](*self.bv2(a, b))
        if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
            if not is_z3(a) and not is_z3(b):
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            x, y = self.coerce(a, b)
            return z3.simplify({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
        if isinstance(a, (str,)) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, (tuple, Seq, VList)) and isinstance(b, (tuple, Seq, VList)):
            x, y = self.as_seq(a).concrete(), self.as_seq(b).concrete()
            if x is not None and y is not None:
                return self.lex(op, x, y)
        if isinstance(a, VSet) and isinstance(b, VSet):
            if op == "<=":
                return self.set_sub(a, b)
            if op == ">=":
                return self.set_sub(b, a)
            x, y = (a, b) if op == "<" else (b, a)
            return self.and_([self.set_sub(x, y), self.not_(self.set_sub(y, x))])
        if isinstance(a, SU) and "cmp" in a.iface.ops:
            return a.iface.ops["cmp"](self, op, a, b)
        if isinstance(a, complex) or isinstance(b, complex) or a is None or b is None or \
                isinstance(a, SC) or isinstance(b, SC):
            raise PyExc(ExcInst(TypeError, ("ordering",)))
        raise Unsupported(f"{a!r} {op} {b!r}")

    def lex(self, op, x, y):
        strict = op[0]
        for u, v in zip(x, y):
            e = self.eq(u, v)
            if e if isinstance(e, bool) else self.decide(e):
                continue
            return self.cmp(strict, u, v)
        return {"<": len(x) < len(y), "<=": len(x) <= len(y), ">": len(x) > len(y), ">=": len(x) >= len(y)}[op]

    def bv2(self, a, b):
        w = a.size() if isinstance(a, z3.BitVecRef) else b.size()
        f = lambda v: z3.BitVecVal(v, w) if isinstance(v, int) else v
        return f(a), f(b)

    BIN = {"+": ("__add__", "__radd__"), "-": ("__sub__", "__rsub__"), "*": ("__mul__", "__rmul__"),
           "/": ("__truediv__", "__rtruediv__"), "//": ("__floordiv__", "__rfloordiv__"), "%": ("__mod__", "__rmod__"),
           "**": ("__pow__", "__rpow__"), "@": ("__matmul__", "__rmatmul__"), "&": ("__and__", "__rand__"),
           "|": ("__or__", "__ror__"), "^": ("__xor__", "__rxor__"), "<<": ("__lshift__", "__rlshift__"),
           ">>": ("__rshift__", "__rrshift__")}
    IOP = {"+": "__iadd__", "-": "__isub__", "*": "__imul__", "/": "__itruediv__", "**": "__ipow__",
           "//": "__ifloordiv__", "%": "__imod__", "@": "__imatmul__", "&": "__iand__", "|": "__ior__", "^": "__ixor__"}

    def binop(self, op, a, b):
        if isinstance(a, VObj) or isinstance(b, VObj):
            n, rn = self.BIN[op]
            if isinstance(a, VObj):
                m, _c = a.cls.lookup(n)
                if m is not None:
                    r = self.call(m, [a, b], {})
                    if not isinstance(r, NotImpl):
                        return r
            if isinstance(b, VObj):
                m, _c = b.cls.lookup(rn)
                if m is not None:
                    r = self.call(m, [b, a], {})
                    if not isinstance(r, NotImpl):
                        return r
            raise PyExc(ExcInst(TypeError, (op,)))
        if isinstance(a, SU) and op in a.iface.ops:
            r = a.iface.ops[op](self, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(b, SU) and ("r" + op) in b.iface.ops:
            r = b.iface.ops["r" + op](self, a, b)
            if r is not NotImplemented:
                return r
        for x, o in ((a, op), (b, "r" + op)):
            if type(x).__name__ == "Act" and (x.tag, o) in getattr(self, "act_ops", {}):
                return self.act_ops[x.tag, o](self, a, b)
        if isinstance(a, sparse.VSp) or isinstance(b, sparse.VSp):
            return sparse.binop(self, op, a, b)
        if isinstance(a, ARRAYS) or isinstance(b, ARRAYS):
            from . import lib
            return lib.arr_binop(self, op, a, b)
        if isinstance(a, P.Poly) or isinstance(b, P.Poly):
            return self.poly_op(op, a, b)
        if isinstance(a, SC) or isinstance(b, SC):
            return self.sc_op(op, a, b)
        if op == "+":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if all(isinstance(x, str) or isinstance(x, SU) and "str" in x.iface.classes for x in (a, b)):
                return self.concat([a, b])
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (tuple, Seq)) and isinstance(b, (tuple, Seq)):
                return self.as_seq(a) + self.as_seq(b)
            if isinstance(a, VList) and isinstance(b, VList):
                return self.new_list(self.heap[a.ref] + self.heap[b.ref])
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and isinstance(x, (str, tuple)):
                    return x * y
                if isinstance(x, VList) and isinstance(y, int):
                    return self.new_list(Seq(self.heap[x.ref].segs * y))
                if isinstance(x, (VList, tuple, Seq)) and isinstance(y, z3.ArithRef):
                    k = z3.Int(self.fresh_name("k"))
                    n = y if self.valid(y >= 0) else z3.If(y >= 0, y, 0)
                    sq = Seq([Comp(n, k, [(True, self.as_seq(x).segs)])])
                    return self.new_list(sq) if isinstance(x, VList) else sq
        if op == "%" and isinstance(a, str):
            return self.opaque_app("strformat", [a, b])
        if isinstance(a, VSet) and isinstance(b, VSet):
            from . import lib
            return lib.set_op(self, op, a, b)
        if isinstance(a, VDict) and isinstance(b, VDict) and op == "|":
            return self.builtins["dict"].fn(self, [a], dict(self.heap[b.ref]))
        if (is_num(a) or is_bool(a) or isinstance(a, (z3.BitVecRef, complex))) and \
                (is_num(b) or is_bool(b) or isinstance(b, (z3.BitVecRef, complex))):
            return self.num_op(op, a, b)
        raise Unsupported(f"{a!r} {op} {b!r}")

    def num_op(self, op, a, b):
        if not is_z3(a) and not is_z3(b):
            if isinstance(a, float):
                a = Fraction(a)
            if isinstance(b, float):
                b = Fraction(b)
            if isinstance(a, complex) or isinstance(b, complex):
                a = complex(a) if isinstance(a, complex) else complex(float(a))
                b = complex(b) if isinstance(b, complex) else complex(float(b)) if op != "**" else b
            try:
                if op == "+":
                    return a + b
                if op == "-":
                    return a - b
                if op == "*":
                    return a * b
                if op == "/":
                    if isinstance(a, complex):
                        return a / b
                    r = Fraction(a) / Fraction(b)
                    return r
                if op == "//":
                    return a // b
                if op == "%":
                    return a % b
                if op == "**":
                    if isinstance(b, Fraction) and b.denominator != 1:
                        return P.sqrt(P.Poly.const(a)) if b == Fraction(1, 2) else self._unsup("power")
                    if isinstance(b, Fraction):
                        b = int(b)
                    if isinstance(a, int) and b < 0:
                        return Fraction(a) ** b
                    return a ** b
                return {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                        "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
            except ZeroDivisionError as e:
                raise PyExc(ExcInst(ZeroDivisionError, e.args))
            except ValueError as e:
                raise PyExc(ExcInst(ValueError, e.args))
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            a, b = self.bv2(a, b)
            self.notes.add("fixed-width bit vectors")
            return z3.simplify({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b,
                                "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b,
                                ">>": lambda: z3.LShR(a, b), "//": lambda: z3.UDiv(a, b),
                                "%": lambda: z3.URem(a, b)}[op]()) if op != "/" else self._unsup("bitvector /")
        if isinstance(a, complex) or isinstance(b, complex):
            return self.sc_op(op, a, b)
        if op in ("&", "|", "^") and is_bool(a) and is_bool(b):
            x, y = to_z3_bool(a), to_z3_bool(b)
            return {"&": z3.And(x, y), "|": z3.Or(x, y), "^": z3.Xor(x, y)}[op]
        if op == "/":
            z = self.eq(b, 0)
            if z if isinstance(z, bool) else self.decide(z):
                raise PyExc(ExcInst(ZeroDivisionError, ()))
            return z3.simplify(to_z3_real(a) / to_z3_real(b))
        if op == "**":
            if isinstance(b, Fraction) and b.denominator == 1:
                b = int(b)
            if b == 2 and isinstance(b, int) and isinstance(a, z3.ArithRef) and a.is_real():
                return z3.simplify(self.square(a))
            if isinstance(b, int) and 0 <= b <= 8:
                r = 1
                for _ in range(b):
                    r = self.num_op("*", r, a)
                return r
            if isinstance(b, int) and b < 0:
                return self.num_op("/", 1, self.num_op("**", a, -b))
            if isinstance(a, int) and a == 2 and is_intlike(b):
                return self.pow2(b)
            if isinstance(b, z3.ArithRef) and b.is_int() and isinstance(a, int) and a == -1:
                return z3.If(b % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
            if isinstance(b, z3.ArithRef) and b.is_real() and isinstance(a, int) and a == 2:
                # real power of two: an unconstrained positive real, so that nothing hinges on rounding
                t = z3.Function("realpow2", z3.RealSort(), z3.RealSort())(b)
                self.axioms.append(t > 0)
                return t
            raise Unsupported("symbolic power")
        x, y = self.coerce(a, b)
        if op == "+":
            return z3.simplify(x + y)
        if op == "-":
            return z3.simplify(x - y)
        if op == "*":
            return z3.simplify(x * y)
        if op in ("//", "%"):
            if x.is_int() and y.is_int():
                z = z3.simplify(y == 0)
                if self.decide(z):
                    raise PyExc(ExcInst(ZeroDivisionError, ()))
                if not self.decide(y > 0):
                    raise Unsupported("division by a negative number")
                return z3.simplify(x / y if op == "//" else x % y)
            if op == "//":
                return z3.ToReal(z3.ToInt(x / y))
            if z3.is_rational_value(z3.simplify(y)) and z3.simplify(y).as_fraction() > 0:
                return x - y * z3.ToReal(z3.ToInt(x / y))
            raise Unsupported("real modulo")
        if op == "<<" and isinstance(a, int) and a == 1:
            return self.pow2(b)
        raise Unsupported(f"symbolic {op}")

    nonneg = frozenset(["squared_magnitude"])     # uninterpreted functions axiomatized to be >= 0

    def square(self, a):
        """a**2, with sqrt(x)**2 rewritten to x where x >= 0"""
        k = a.decl().kind() if z3.is_app(a) else None
        if k == z3.Z3_OP_MUL:
            r = None
            for c in a.children():
                s = self.square(c)
                r = s if r is None else r * s
            return r
        if k == z3.Z3_OP_DIV:
            return self.square(a.arg(0)) / self.square(a.arg(1))
        if k == z3.Z3_OP_ITE:
            return z3.If(a.arg(0), self.square(a.arg(1)), self.square(a.arg(2)))
        if k == z3.Z3_OP_UNINTERPRETED and a.decl().name() == "sqrt":
            if z3.is_app(a.arg(0)) and a.arg(0).decl().name() in self.nonneg:
                return a.arg(0)
            return z3.If(a.arg(0) >= 0, a.arg(0), a * a)
        return a * a

    def _unsup(self, m):
        raise Unsupported(m)

    def pow2(self, n):
        if isinstance(n, int):
            return 2 ** n if n >= 0 else Fraction(1, 2 ** -n)
        t = _pow2(z3.simplify(n))
        # instantiate 2^(x+c) = 2^c * 2^x for small constants
        self.assume_axiom(t >= 1, n >= 0)
        n = z3.simplify(n)
        if z3.is_add(n):
            consts = [c for c in n.children() if z3.is_int_value(c)]
            if len(consts) == 1 and abs(consts[0].as_long()) <= 8:
                c = consts[0].as_long()
                rest = z3.simplify(n - c)
                if c > 0:
                    self.axioms.append(z3.Implies(rest >= 0, t == 2 ** c * _pow2(rest)))
                elif c < 0:
                    self.axioms.append(z3.Implies(n >= 0, _pow2(rest) == 2 ** (-c) * t))
        return t

    def assume_axiom(self, fact, guard=True):
        f = fact if guard is True else z3.Implies(guard, fact)
        self.axioms.append(f)

    def poly_op(self, op, a, b):
        try:
            x = P.Poly.const(self.to_poly(a))
            y = P.Poly.const(self.to_poly(b))
            if op == "+":
                return x + y
            if op == "-":
                return x - y
            if op == "*":
                return x * y
            if op == "/":
                return x / y
            if op == "**":
                return x ** y
        except P.PolyUnsupported as e:
            raise Unsupported(str(e))
        raise Unsupported(f"{op} on expressions")

    def to_poly(self, v):
        if isinstance(v, P.Poly):
            return v
        if isinstance(v, (int, Fraction, float, complex, bool)):
            return P.Poly.const(v)
        if is_z3(v):
            return P.Poly.gen(("z3:" + str(z3.simplify(v))))
        raise Unsupported(f"expression from {v!r}")

    def sc_op(self, op, a, b):
        if op == "**":
            if isinstance(b, int) and 0 <= b <= 6:
                r = SC(1, 0)
                for _ in range(b):
                    r = self.sc_op("*", r, a)
                return r
            raise Unsupported("complex power")
        x, y = self.to_sc(a), self.to_sc(b)
        n = self.binop
        if op == "+":
            return SC(n("+", x.re, y.re), n("+", x.im, y.im))
        if op == "-":
            return SC(n("-", x.re, y.re), n("-", x.im, y.im))
        if op == "*":
            return SC(n("-", n("*", x.re, y.re), n("*", x.im, y.im)), n("+", n("*", x.re, y.im), n("*", x.im, y.re)))
        if op == "/":
            d = n("+", n("*", y.re, y.re), n("*", y.im, y.im))
            num = self.sc_op("*", x, SC(y.re, n("-", 0, y.im)))
            return SC(n("/", num.re, d), n("/", num.im, d))
        raise Unsupported(f"complex {op}")

    def unop(self, op, v):
        if op == "not":
            t = self.truth(v)
            return self.not_(t)
        if op == "-":
            if isinstance(v, VObj):
                m, _c = v.cls.lookup("__neg__")
                if m is not None:
                    return self.call(m, [v], {})
            if isinstance(v, ARRAYS):
                return self.binop("*", v, -1)
            if isinstance(v, (int, Fraction, float, complex)):
                return -v
            if isinstance(v, P.Poly):
                return -v
            if isinstance(v, SC):
                return SC(self.unop("-", v.re), self.unop("-", v.im))
            if isinstance(v, z3.ArithRef):
                return z3.simplify(-v)
            if isinstance(v, z3.BitVecRef):
                return -v
            if isinstance(v, SU) and "neg" in v.iface.ops:
                return v.iface.ops["neg"](self, v)
        if op == "+":
            return v
        if op == "~":
            if isinstance(v, int):
                return ~v
            if isinstance(v, z3.BitVecRef):
                return ~v
            if isinstance(v, VArr):
                return self.new_arr([self.not_(self.truth(x)) for x in self.arr_vals(v)], v.shape, v.kind)
        raise Unsupported(f"unary {op} on {v!r}")

    def contains(self, c, x):
        """x in c"""
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported("substring test")
        if isinstance(c, SU) and c.iface.contains is not None:
            return c.iface.contains(self, c, x)
        if isinstance(c, VObj):
            m, _c = c.cls.lookup("__contains__")
            if m is not None:
                return self.truth(self.call(m, [c, x], {}))
            if self.dict_of(c) is not None:
                return self.contains(self.dict_of(c), x)
        s = self.as_seq(c)
        conds = []
        for g in s.segs:
            if isinstance(g, Unit):
                conds.append(self.eq(x, g.v))
            elif isinstance(g, Comp):
                conds.append(self.exists(g, lambda v: self.eq(x, v)))
            else:
                raise Unsupported("membership test on loop accumulator")
        return self.or_(conds)

    def exists(self, comp, f):
        self.index_vars.append(comp.idx)
        try:
            alts = []
            prev = []
            for c, parts in comp.cases:
                inner = []
                for p in parts:
                    inner.append(f(p.v) if isinstance(p, Unit) else self.exists(p, f))
                alts.append(self.and_(([] if c is True else [c]) + [self.or_(inner)]))
            body = self.or_(alts)
        finally:
            self.index_vars.pop()
        if body is False:
            return False
        if body is True:
            return self.cmp(">", comp.n, 0)
        n = comp.n if is_z3(comp.n) else z3.IntVal(comp.n)
        return z3.Exists([comp.idx], z3.And(comp.idx >= 0, comp.idx < n, body))

    def forall(self, comp, f):
        return self.not_(self.exists(comp, lambda v: self.not_(f(v))))

    # ------------------------------------------------------------ isinstance
    def isinstance(self, v, typ):
        if isinstance(typ, tuple):
            return self.or_([self.isinstance(v, t) for t in typ])
        if isinstance(v, SU):
            name = typ.name if isinstance(typ, (VClass, Builtin)) else typ.path.split(".")[-1] if isinstance(typ, VLib) else typ.__name__
            if name in v.iface.classes:
                return True
            if name in v.iface.maybe:
                return self.num_app("isinstance_" + name, [v], z3.BoolSort())
            return False
        if isinstance(typ, VClass):
            if isinstance(v, VObj):
                if typ in v.cls.mro():
                    return True
                # runtime-checkable protocol
                if any(isinstance(d, (ast.Name, ast.Attribute)) and
                       (d.id if isinstance(d, ast.Name) else d.attr) == "runtime_checkable"
                       for d in typ.node.decorator_list):
                    names = [s.name for c in typ.mro() for s in c.node.body if isinstance(s, ast.FunctionDef)
                             and not (s.name.startswith("_") and s.name != "__call__")]
                    return all(v.cls.lookup(n)[0] is not None or n in self.heap[v.ref] for n in names)
            return False
        if isinstance(typ, type) and issubclass(typ, BaseException):
            return isinstance(v, ExcInst) and issubclass(v.cls, typ) or \
                isinstance(v, VObj) and isinstance(v.cls.builtin_base, type) and issubclass(v.cls.builtin_base, typ)
        name = typ.name if isinstance(typ, Builtin) else typ.path if isinstance(typ, VLib) else None
        if name is None:
            raise Unsupported(f"isinstance with {typ!r}")
        short = name.split(".")[-1]
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return short in ("bool", "int", "Number", "Complex", "Real", "Integral", "object")
        if isinstance(v, int) or isinstance(v, z3.BitVecRef) or isinstance(v, z3.ArithRef) and v.is_int():
            return short in ("int", "Number", "Complex", "Real", "Integral", "Rational", "object", "Hashable")
        if isinstance(v, (float, Fraction, z3.ArithRef)):
            return short in ("float", "Number", "Complex", "Real", "object", "Hashable")
        if isinstance(v, (complex, SC)):
            return short in ("complex", "Number", "Complex", "object")
        if isinstance(v, P.Poly):
            if name.startswith("sympy") and short in ("Expr", "Basic"):
                return True
            if name.startswith("sympy") and short == "Symbol":
                return len(v.t) == 1 and list(v.t.values()) == [1] and len(v.gens()) == 1 and \
                    list(v.t)[0][0][1] == 1 and not list(v.gens())[0].startswith("#")
            return short in ("object", "Hashable")
        if isinstance(v, str):
            return short in ("str", "Iterable", "Sequence", "Collection", "object", "Hashable")
        if isinstance(v, (tuple, Seq)):
            return short in ("tuple", "Tuple", "Iterable", "Sequence", "Collection", "object", "Sized", "Hashable")
        if isinstance(v, VList):
            return short in ("list", "List", "Iterable", "Sequence", "Collection", "object", "Sized")
        if isinstance(v, VDict):
            return short in ("dict", "Dict", "Mapping", "Iterable", "Collection", "object", "Sized")
        if isinstance(v, sparse.VSp):
            return short in ("spmatrix", "object") or short == sparse.get(self, v).fmt + "_matrix"
        if isinstance(v, VSet):
            return short in ("set", "Set", "Iterable", "Collection", "object", "Sized")
        if isinstance(v, VIter):
            return short in ("Iterator", "Iterable", "object", "Generator")
        if isinstance(v, ARRAYS):
            if isinstance(v, VArr) and v.kind == "sympy":
                return short in ("Matrix", "MatrixBase", "DenseMatrix", "MutableDenseMatrix", "Iterable", "object")
            return name in ("numpy.ndarray",) or short in ("Iterable", "Collection", "object")
        if isinstance(v, VObj):
            if short in ("Callable",):
                return v.cls.lookup("__call__")[0] is not None
            if isinstance(v.cls.builtin_base, Builtin) and v.cls.builtin_base.name == short:
                return True
            if v.cls.builtin_base == "NamedTuple" and short in ("tuple", "Sequence", "Iterable", "Collection", "Sized", "Hashable"):
                return True
            if short in ("Iterable",):
                return v.cls.lookup("__iter__")[0] is not None
            return short == "object"
        if isinstance(v, (VFunc, VBound, Builtin, VClass)):
            return short in ("Callable", "object", "Hashable") or short == "type" and isinstance(v, VClass) or short == "FunctionType" and isinstance(v, VFunc)
        if v is None:
            return short in ("NoneType", "object")
        if isinstance(v, VLib):
            raise Unsupported(f"isinstance({v!r}, {name})")
        return False

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.tick()
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fr)

    def x_Expr(self, s, fr):
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Return(self, s, fr):
        raise ReturnSig(self.eval(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        raise BreakSig()

    def x_Continue(self, s, fr):
        raise ContinueSig()

    def x_FunctionDef(self, s, fr):
        self.setvar(fr, s.name, self.make_function(s, fr))

    def x_ClassDef(self, s, fr):
        self.setvar(fr, s.name, self.make_class(s, fr))

    def x_Import(self, s, fr):
        for a in s.names:
            full = a.name if a.asname else a.name.split(".")[0]
            self.setvar(fr, a.asname or a.name.split(".")[0],
                        VModule(full) if full.startswith("zquantum") else VLib(full))

    def x_ImportFrom(self, s, fr):
        mod = modinfo(fr.module).absolute(s)
        for a in s.names:
            self.setvar(fr, a.asname or a.name, self.import_from(mod, a.name))

    def x_Global(self, s, fr):
        fr.globals.update(s.names)

    def x_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = self.augment(OPS[type(s.op)], cur, self.eval(s.value, fr))
            self.setvar(fr, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            new = self.augment(OPS[type(s.op)], cur, self.eval(s.value, fr))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval(t.slice, fr)
            cur = self.getitem(o, i)
            new = self.augment(OPS[type(s.op)], cur, self.eval(s.value, fr))
            self.setitem(o, i, new)
        else:
            raise Unsupported("augmented assignment target")

    def augment(self, op, cur, v):
        if isinstance(cur, VObj):
            m, _c = cur.cls.lookup(self.IOP.get(op, ""))
            if m is not None:
                return self.call(m, [cur, v], {})
        if isinstance(cur, VList) and op == "+":
            more = self.iterate(v)
            self.heap[cur.ref] = self.heap[cur.ref] + more
            return cur
        if isinstance(cur, VArr) and cur.kind == "numpy":
            r = self.binop(op, cur, v)
            self.arr_store(cur, r)
            return cur
        if isinstance(cur, SMat):
            r = self.binop(op, cur, v)
            if not isinstance(r, SMat):
                raise Unsupported("in-place matrix operation")
            self.heap[cur.ref] = self.heap[r.ref]
            return cur
        if isinstance(cur, SArr):
            r = self.binop(op, cur, v)
            self.heap[cur.ref] = self.heap[r.ref]
            return cur
        if isinstance(cur, VSet) and op == "|":
            from . import lib
            r = lib.set_op(self, "|", cur, v)
            self.heap[cur.ref] = self.heap[r.ref]
            return cur
        if isinstance(cur, SU) and op + "=" in cur.iface.ops:
            return cur.iface.ops[op + "="](self, cur, v)
        return self.binop(op, cur, v)

    def arr_store(self, a, v):
        if isinstance(v, VArr):
            vals = self.arr_vals(v)
            if len(vals) != len(a.idx):
                if len(a.idx) % max(1, len(vals)) == 0 and vals:
                    vals = vals * (len(a.idx) // len(vals))
                else:
                    raise PyExc(ExcInst(ValueError, ("shape mismatch",)))
        elif isinstance(v, (VList, tuple)):
            from . import lib
            vals = self.arr_vals(lib.to_array(self, v))
            if len(vals) != len(a.idx):
                raise PyExc(ExcInst(ValueError, ("shape mismatch",)))
        else:
            vals = [v] * len(a.idx)
        base = list(self.heap[a.ref])
        for i, x in zip(a.idx, vals):
            base[i] = x
        self.heap[a.ref] = tuple(base)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.new_list(self.as_seq(v)), fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, fr):
        s = self.iterate(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = self.seq_len(s)
        if not star:
            e = self.eq(n, len(elts))
            if not (e if isinstance(e, bool) else self.decide(e)):
                raise PyExc(ExcInst(ValueError, ("unpack",)))
            vals = s.concrete()
            if vals is None:
                vals = [self.seq_get(s, i) for i in range(len(elts))]
            for e, x in zip(elts, vals):
                self.assign(e, x, fr)
            return
        i = star[0]
        after = len(elts) - i - 1
        ok = self.cmp(">=", n, len(elts) - 1)
        if not (ok if isinstance(ok, bool) else self.decide(ok)):
            raise PyExc(ExcInst(ValueError, ("unpack",)))
        for j in range(i):
            self.assign(elts[j], self.seq_get(s, j), fr)
        self.assign(elts[i].value, self.new_list(self.seq_slice(s, i, None if after == 0 else -after)), fr)
        for j in range(after):
            self.assign(elts[i + 1 + j], self.seq_get(s, j - after), fr)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(fr, t.id, UNSET)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                i = self.eval(t.slice, fr)
                self.delitem(o, i)
            else:
                raise Unsupported("del")

    def x_If(self, s, fr):
        if self.decide(self.truth(self.eval(s.test, fr))):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Assert(self, s, fr):
        if not self.decide(self.truth(self.eval(s.test, fr))):
            raise PyExc(ExcInst(AssertionError, ()))

    def x_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise PyExc(cur)
        v = self.eval(s.exc, fr)
        if isinstance(v, type):
            v = ExcInst(v, ())
        elif isinstance(v, VClass):
            v = self.instantiate(v, [], {})
        raise PyExc(v)

    def x_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.value, self.eval(h.type, fr)):
                        if h.name:
                            self.setvar(fr, h.name, e.value)
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = e.value
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            self.exec_block(s.finalbody, fr)
            raise
        self.exec_block(s.finalbody, fr)

    def exc_match(self, v, typ):
        if isinstance(typ, tuple):
            return any(self.exc_match(v, t) for t in typ)
        r = self.isinstance(v, typ)
        return r if isinstance(r, bool) else self.decide(r)

    def x_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            return self.exec_block(body, fr)
        m = self.eval(items[0].context_expr, fr)
        v = self.call(self.getattr(m, "__enter__"), [], {})
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, fr)
        ex = self.getattr(m, "__exit__")
        try:
            self.with_items(items[1:], body, fr)
        except PyExc as e:
            if not self.decide(self.truth(self.call(ex, [None, e.value, None], {}))):
                raise
            return
        except (ReturnSig, BreakSig, ContinueSig):
            self.call(ex, [None, None, None], {})
            raise
        self.call(ex, [None, None, None], {})

    def x_While(self, s, fr):
        n = 0
        while True:
            n += 1
            if n > 200:
                raise Unsupported("while loop without a bound the verifier can see")
            if not self.decide(self.truth(self.eval(s.test, fr))):
                self.exec_block(s.orelse, fr)
                return
            try:
                self.exec_block(s.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                continue

    def x_For(self, s, fr):
        from . import loops
        c, over = s.iter, None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("items", "keys") and not c.args and not c.keywords:
            d = self.eval(c.func.value, fr)
            v = self.call(self.getattr(d, c.func.attr), [], {})
        else:
            d = v = self.eval(c, fr)
        if isinstance(d, VDict) and isinstance(self.heap[d.ref], Seq) and any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for b in s.body for x in ast.walk(b)):
            over = d.ref
        it = self.iterate(v)
        broke = loops.for_loop(self, it, lambda v: (self.assign(s.target, v, fr), self.exec_block(s.body, fr)), over)
        if not broke:
            self.exec_block(s.orelse, fr)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, float):
            return Fraction(repr(e.value)) if e.value == e.value and abs(e.value) != float("inf") else e.value
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        s = self.elts(e.elts, fr)
        c = s.concrete()
        return tuple(c) if c is not None else s

    def e_List(self, e, fr):
        return self.new_list(self.elts(e.elts, fr))

    def elts(self, elts, fr):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.iterate(self.eval(x.value, fr)).segs)
            else:
                segs.append(Unit(self.eval(x, fr)))
        return Seq(segs)

    def e_Set(self, e, fr):
        return self.builtins["set"].fn(self, [self.new_list(self.elts(e.elts, fr))], {})

    def e_Dict(self, e, fr):
        d = VDict(self.alloc(()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                from . import lib
                lib.dict_update(self, d, src)
            else:
                kk = self.eval(k, fr)
                self.setitem(d, kk, self.eval(v, fr))
        return d

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        return self.binop(OPS[type(e.op)], a, self.eval(e.right, fr))

    def e_UnaryOp(self, e, fr):
        return self.unop({ast.Not: "not", ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)],
                         self.eval(e.operand, fr))

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if not isinstance(t, bool):
                d = self.decide(t)
                if d != is_and:
                    return v if not is_bool(v) else d
            elif t != is_and:
                return v
        return v

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.decide(self.truth(self.eval(e.test, fr))) else e.orelse, fr)

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            b = self.eval(r, fr)
            t = self.compare(op, a, b)
            if isinstance(t, ARRAYS) and len(e.ops) == 1:
                return t
            out.append(t)
            if t is False:
                return False
            a = b
        return self.and_(out)

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(b, a))
        return self.cmp({ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)], a, b)

    def is_(self, a, b):
        if a is None or b is None:
            if isinstance(a, SU) or isinstance(b, SU):
                s = a if isinstance(a, SU) else b
                if "None" in s.iface.maybe:
                    return s.term == self.embed(None)
                return False
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, SU) and isinstance(b, SU):
            return a.term == b.term
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, (VClass, VLib, Builtin)) or isinstance(b, (VClass, VLib, Builtin)):
            return a == b if isinstance(a, VLib) else a is b
        if type(a) != type(b):
            return False
        if isinstance(a, (int, str)):
            return a == b
        raise Unsupported("identity test")

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            selfname = f.func.node.args.args[0].arg
            obj = self.heap[f.ref][selfname]
            mro = (obj.cls if isinstance(obj, VObj) else obj).mro()
            return VSuper(obj, mro[mro.index(f.func.cls) + 1:])
        if isinstance(e.func, ast.Name) and e.func.id == "super" and len(e.args) == 2:
            cls, obj = (self.eval(x, fr) for x in e.args)
            mro = (obj.cls if isinstance(obj, VObj) else obj).mro()
            return VSuper(obj, mro[mro.index(cls) + 1:])
        if isinstance(e.func, ast.Name) and e.func.id in ("globals", "locals"):
            return self.opaque_globals(fr)
        if isinstance(e.func, ast.Name) and e.func.id in ("print",):
            return None
        f = self.eval(e.func, fr)
        if isinstance(f, VLib) and (f.path.startswith("warnings.") or f.path.startswith("logging.")):
            return None
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.iterate(self.eval(a.value, fr))
                c = s.concrete()
                if c is None:
                    args.append(StarArg(s))
                else:
                    args.extend(c)
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                c = self.heap[d.ref] if isinstance(d, VDict) else None
                if not isinstance(c, tuple):
                    raise Unsupported("symbolic **kwargs")
                kwargs.update(dict(c))
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        if any(isinstance(a, StarArg) for a in args):
            if isinstance(f, (VFunc, VBound, VClass, VObj)) and isinstance(args[-1], StarArg) and \
                    not any(isinstance(a, StarArg) for a in args[:-1]):
                return self.call_star(f, args[:-1], args[-1].seq, kwargs)
            if isinstance(f, (Builtin, VLib, SU)):
                return self.call(f, args, kwargs)
            raise Unsupported("symbolic *args")
        return self.call(f, args, kwargs)

    def call_star(self, f, args, seq, kwargs):
        if isinstance(f, VBound):
            return self.call_star(f.func, [f.self_] + args, seq, kwargs)
        if isinstance(f, VObj):
            m, _c = f.cls.lookup("__call__")
            return self.call_star(m, [f] + args, seq, kwargs)
        if isinstance(f, VFunc) and f.node.args.vararg and len(f.node.args.args) <= len(args) and not kwargs:
            env = self.bind_args(f, args, kwargs)
            env[f.node.args.vararg.arg] = Seq(self.as_seq(env[f.node.args.vararg.arg]).segs + seq.segs)
            fr = Frame(self.alloc(env), f.frame, f.module, f, None)
            self.used_funcs.add(f.qual)
            try:
                if isinstance(f.node, ast.Lambda):
                    return self.eval(f.node.body, fr)
                self.exec_block(f.node.body, fr)
            except ReturnSig as r:
                return r.v
            return None
        raise Unsupported("symbolic *args")

    def opaque_globals(self, fr):
        m = fr.module
        return SU(z3.Const("globals:" + m, U), Iface("globals", getitem=lambda it, s, k: it._global_item(m, k)))

    def _global_item(self, m, k):
        if not isinstance(k, str):
            raise Unsupported("globals() with symbolic key")
        try:
            return self.module_attr(m, k)
        except KeyError:
            raise PyExc(ExcInst(KeyError, (k,)))

    def e_Lambda(self, e, fr):
        return self.make_function(e, fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.eval(v.value, fr)
                except Unsupported:
                    x = self.opaque_app("fstr", [ast.dump(v.value)])
                if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None and v.conversion in (-1, 115):
                    parts.append(str(x))
                elif v.format_spec is None and v.conversion in (-1, 115) and (isinstance(x, SU) and "str" in x.iface.classes or isinstance(x, z3.ArithRef) and x.is_int()):
                    parts.append(self.builtins["str"].fn(self, [x], {}))
                else:
                    try:
                        parts.append(SU(self.mk("fmt", [x]), OPAQUE))
                    except Unsupported:
                        parts.append(SU(self.fresh("fmt", U), OPAQUE))
        if all(isinstance(p, str) or isinstance(p, SU) and "str" in p.iface.classes for p in parts):
            return self.concat(parts)
        return SU(self.mk(f"joined{len(parts)}", parts), STR)

    def concat(self, parts):
        """concatenation of texts, in one normal form"""
        ts = []
        for p in parts:
            t = self.embed(p)
            ts += list(t.children()) if z3.is_app(t) and t.decl().name() == "k:concat" else [t]
        out = []
        for t in ts:
            lit = z3.is_const(t) and t.decl().name().startswith("str:")
            if lit and out and isinstance(out[-1], str):
                out[-1] += t.decl().name()[4:]
            else:
                out.append(t.decl().name()[4:] if lit else t)
        out = [p for p in out if not isinstance(p, str) or p != ""]
        if len(out) <= 1 and all(isinstance(p, str) for p in out):
            return "".join(out)
        from . import lib
        if len(out) == 1:
            return SU(out[0], lib.STRING)
        return SU(z3.Function("k:concat", *([U] * len(out)), U)(*[self.embed(p) if isinstance(p, str) else p for p in out]), lib.STRING)

    def e_FormattedValue(self, e, fr):
        return self.eval(e.value, fr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.eval(x, fr)
        return VSlice(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while "__yield__" not in self.heap[f.ref]:
            f = f.parent
        out = self.heap[f.ref]["__yield__"]
        self.heap[out.ref] = self.heap[out.ref] + Seq([Unit(v)])
        return None

    def e_YieldFrom(self, e, fr):
        s = self.iterate(self.eval(e.value, fr))
        out = self.heap[fr.ref]["__yield__"]
        self.heap[out.ref] = self.heap[out.ref] + s
        return None

    def comp(self, gens, fr, leaf):
        from . import loops
        def go(i, f):
            if i == len(gens):
                leaf(f)
                return
            g = gens[i]
            it = self.iterate(self.eval(g.iter, f))
            def body(v):
                self.assign(g.target, v, f)
                for c in g.ifs:
                    if not self.decide(self.truth(self.eval(c, f))):
                        return
                go(i + 1, f)
            loops.for_loop(self, it, body)
        cf = Frame(self.alloc({}), fr, fr.module, None, None)
        go(0, cf)

    def e_ListComp(self, e, fr):
        out = self.new_list([])
        def leaf(f):
            v = self.eval(e.elt, f)
            self.heap[out.ref] = self.heap[out.ref] + Seq([Unit(v)])
        self.comp(e.generators, fr, leaf)
        return out

    def e_GeneratorExp(self, e, fr):
        out = self.e_ListComp(e, fr)         # may rebind self.heap: evaluate first
        return self.new_iter(self.heap[out.ref])

    def e_SetComp(self, e, fr):
        return self.builtins["set"].fn(self, [self.e_ListComp(e, fr)], {})

    def e_DictComp(self, e, fr):
        out = self.new_list([])
        def leaf(f):
            k = self.eval(e.key, f)
            v = self.eval(e.value, f)
            self.heap[out.ref] = self.heap[out.ref] + Seq([Unit((k, v))])
        self.comp(e.generators, fr, leaf)
        return self.builtins["dict"].fn(self, [out], {})

    # ------------------------------------------------------------ items
    def getitem(self, o, i):
        if isinstance(o, (tuple, str)):
            if isinstance(i, VSlice):
                if all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)):
                    return o[i.a:i.b:i.c]
                s = self.seq_slice(Seq.of(list(o)), i.a, i.b, i.c)
                c = s.concrete()
                return tuple(c) if c is not None else s
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise PyExc(ExcInst(IndexError, ()))
            return self.pick(Seq.of(list(o)), i)
        if isinstance(o, Seq):
            if isinstance(i, VSlice):
                return self.seq_slice(o, i.a, i.b, i.c)
            return self.seq_get(o, i)
        if isinstance(o, VList):
            if isinstance(i, VSlice):
                return self.new_list(self.seq_slice(self.heap[o.ref], i.a, i.b, i.c))
            if is_z3(i):
                return self.pick(self.heap[o.ref], i)
            return self.seq_get(self.heap[o.ref], i)
        if isinstance(o, VDict):
            from . import lib
            return lib.dict_get(self, o, i)
        if isinstance(o, ARRAYS):
            from . import lib
            return lib.arr_get(self, o, i)
        if isinstance(o, sparse.VSp):
            return sparse.getitem(self, o, i)
        if isinstance(o, SU) and o.iface.getitem is not None:
            return o.iface.getitem(self, o, i)
        if isinstance(o, VObj):
            m, _c = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(m, [o, i], {})
            if self.dict_of(o) is not None:
                return self.getitem(self.dict_of(o), i)
            if o.cls.builtin_base == "NamedTuple" and isinstance(i, int):
                return self.heap[o.ref][o.cls.fields[i][0]]
        if isinstance(o, (VLib, VClass, Builtin)):
            return o          # generic alias
        raise Unsupported(f"subscript of {o!r}")

    def pick(self, s, i):
        c = s.concrete()
        if c is None or isinstance(i, int):
            return self.seq_get(s, i)
        for k, v in enumerate(c):
            if self.decide(self.or_([self.eq(i, k), self.eq(i, k - len(c))])):
                return v
        raise PyExc(ExcInst(IndexError, ()))

    def setitem(self, o, i, v):
        if isinstance(o, VList):
            s = self.heap[o.ref]
            c = s.concrete()
            if c is not None and isinstance(i, VSlice):
                c[i.a:i.b:i.c] = self.as_seq(v).concrete()
                self.heap[o.ref] = Seq.of(c)
                return
            if c is None and isinstance(i, int) and i == 0 and isinstance(s.segs[0], Unit):
                self.heap[o.ref] = Seq((Unit(v),) + s.segs[1:])
                return
            if c is None:
                self.heap[o.ref] = self.seq_store(s, i, v)
                return
            if is_z3(i):
                for k in range(len(c)):
                    if self.decide(self.or_([self.eq(i, k), self.eq(i, k - len(c))])):
                        i = k
                        break
                else:
                    raise PyExc(ExcInst(IndexError, ()))
            try:
                c[i] = v
            except IndexError:
                raise PyExc(ExcInst(IndexError, ()))
            self.heap[o.ref] = Seq.of(c)
            return
        if isinstance(o, VDict):
            from . import lib
            lib.dict_set(self, o, i, v)
            return
        if isinstance(o, ARRAYS):
            from . import lib
            lib.arr_set(self, o, i, v)
            return
        if isinstance(o, VObj):
            m, _c = o.cls.lookup("__setitem__")
            if m is not None:
                self.call(m, [o, i, v], {})
                return
            if self.dict_of(o) is not None:
                self.setitem(self.dict_of(o), i, v)
                return
        if isinstance(o, SU) and "setitem" in o.iface.ops:
            o.iface.ops["setitem"](self, o, i, v)
            return
        raise Unsupported(f"item assignment on {o!r}")

    def seq_store(self, s, i, v):
        """sequence of symbolic length with one element replaced"""
        if not is_intlike(i) or is_bool(i):
            raise Unsupported("assignment into a list of symbolic length")
        n = self.seq_len(s)
        neg = self.cmp("<", i, 0)
        if neg if isinstance(neg, bool) else self.decide(neg):
            i = self.binop("+", n, i)
        ok = self.and_([self.cmp("<=", 0, i), self.cmp("<", i, n)])
        if not (ok if isinstance(ok, bool) else self.decide(ok)):
            raise PyExc(ExcInst(IndexError, ("assignment index out of range",)))
        if isinstance(s.segs[0], Hole) and all(isinstance(g, Store) for g in s.segs[1:]):
            return Seq(s.segs + (Store(i, v),))
        if len(s.segs) == 1 and isinstance(s.segs[0], Comp):
            g = s.segs[0]
            if all(len(p) == 1 and isinstance(p[0], Unit) for _c, p in g.cases) and g.cases[-1][0] is True:
                return Seq([Comp(g.n, g.idx, [(g.idx == i, (Unit(v),))] + list(g.cases))])
        raise Unsupported("assignment into a list of symbolic length")

    def delitem(self, o, i):
        if isinstance(o, VList):
            c = self.heap[o.ref].concrete()
            if c is None or not isinstance(i, int):
                raise Unsupported("del on symbolic list")
            del c[i]
            self.heap[o.ref] = Seq.of(c)
            return
        if isinstance(o, VDict):
            from . import lib
            lib.dict_del(self, o, i)
            return
        raise Unsupported("del item")


# class hierarchy of sympy's expression nodes (sympy registers its numbers with the numbers ABCs)
SYMPY_SUPER = {"Integer": ("Rational",), "Rational": ("Number",), "Float": ("Number",), "Number": ("AtomicExpr",), "Symbol": ("AtomicExpr",),
               "ImaginaryUnit": ("AtomicExpr",), "NumberSymbol": ("AtomicExpr",), "AtomicExpr": ("Expr",), "Add": ("Expr",), "Mul": ("Expr",), "Pow": ("Expr",),
               "Function": ("Expr",), "Expr": ("Basic",)}


class StarArg:
    def __init__(self, seq):
        self.seq = seq


class NotImpl:
    pass


class FrozenFrame:
    pass


STR = Iface("str", classes=("str",))

HARMLESS = {"dtype", "copy"}
_uses = {}


def check_options(fn, kwargs, name):
    """a model that never looks at its keyword arguments must not be given any that matter"""
    code = getattr(fn, "__code__", None)
    if code is None or code.co_argcount < 3:
        return
    if code not in _uses:
        p = code.co_varnames[2]
        _uses[code] = p in code.co_cellvars or any(i.argval == p or isinstance(i.argval, tuple) and p in i.argval for i in dis.get_instructions(code))
    if not _uses[code] and not set(kwargs) <= HARMLESS:
        raise Unsupported(f"options {sorted(kwargs)} of {name}")


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}


def is_generator(node):
    if hasattr(node, "_is_gen"):
        return node._is_gen
    found = False
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            found = True
            break
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    node._is_gen = found
    return found
