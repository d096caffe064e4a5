"""Bounded contracts for C10 (symbolic expression translation, natural ordering)."""
import cmath, functools, itertools, math, numbers, operator
import sympy
from native_lib import clause
from zquantum.core.circuits import symbolic as S
from zquantum.core.circuits.symbolic import expressions as X
from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
from zquantum.core.circuits.symbolic.translations import translate_expression

SY = sympy.symbols("x y z theta_1 theta_10 beta gamma")


def real_axis(z):
    """a value on the real axis up to rounding is put exactly there, so that both sides of a comparison
    evaluate roots on the same side of the branch cut"""
    z = complex(z)
    return complex(z.real + 0.0, 0.0) if abs(z.imag) <= 1e-12 * abs(z) else z


def axis(f):
    return lambda *a: real_axis(f(*[real_axis(x) for x in a]))


FN = {n: axis(getattr(cmath, n)) for n in ("cos", "sin", "exp", "sqrt", "tan")}
power = axis(lambda a, b: a ** b)


def rec(f, init=None):
    return lambda *a: functools.reduce(f, a)


NUM = {"add": rec(operator.add), "mul": rec(operator.mul), "div": operator.truediv, "sub": operator.sub, "pow": power, **FN}


def dialect(env):
    return X.ExpressionDialect(symbol_factory=lambda s: env[s.name], number_factory=lambda n: n * 1.0, known_functions=NUM)


def tree_value(t, e, env):
    """independent meaning of the neutral tree"""
    if isinstance(e, X.FunctionCall):
        a = [tree_value(t, x, env) for x in e.args]
        n = e.name
        if n == "add":
            return sum(a)
        if n == "mul":
            r = 1
            for x in a:
                r *= x
            return r
        if n in ("sub", "div", "pow"):
            t.eq(len(a), 2, f"{n} has two arguments")
            return a[0] - a[1] if n == "sub" else a[0] / a[1] if n == "div" else power(a[0], a[1])
        t.eq(len(a), 1, f"{n} has one argument")
        t.ok(n in FN, f"known function {n}")
        return FN[n](a[0])
    if isinstance(e, X.Symbol):
        return env[e.name]
    t.ok(isinstance(e, numbers.Number) and not isinstance(e, sympy.Basic), f"leaf {e!r} is a native number or a neutral symbol")
    return e


def value(e, env):
    """independent numeric evaluation of a sympy expression by its structure"""
    e = sympy.sympify(e)
    if isinstance(e, sympy.Symbol):
        return env[e.name]
    if e is sympy.I:
        return 1j
    if isinstance(e, sympy.Number):
        return float(e)
    if isinstance(e, sympy.NumberSymbol):
        return float(e)
    a = [value(x, env) for x in e.args]
    if isinstance(e, sympy.Add):
        return sum(a)
    if isinstance(e, sympy.Mul):
        r = 1
        for x in a:
            r *= x
        return r
    if isinstance(e, sympy.Pow):
        return power(a[0], a[1])
    return FN[e.func.__name__](a[0])


def rand(t, d):
    r = t.rng.random()
    if d == 0 or r < .12:
        return t.rng.choice(list(SY) * 2 + [sympy.Integer(2), sympy.Integer(-1), sympy.Integer(-3), sympy.Rational(1, 2), sympy.Rational(-2, 3), sympy.Float(0.7),
                                            sympy.Float(-1.25), sympy.I, sympy.Integer(1), 1 + 2 * sympy.I])
    ev = t.rng.random() < .6
    a, b, c = rand(t, d - 1), rand(t, d - 1), rand(t, d - 1)
    k = t.rng.randint(0, 11)
    if k == 0:
        return sympy.Add(a, b, evaluate=ev)
    if k == 1:
        return sympy.Add(a, b, c, evaluate=ev)
    if k == 2:
        return sympy.Mul(a, b, evaluate=ev)
    if k == 3:
        return sympy.Mul(a, b, c, evaluate=ev)
    if k == 4:
        return a - b if ev else sympy.Add(a, sympy.Mul(-1, b, evaluate=False), evaluate=False)
    if k == 5:
        return a / b if ev else sympy.Mul(a, sympy.Pow(b, -1, evaluate=False), evaluate=False)
    if k == 6:
        return sympy.Pow(a, t.rng.choice([2, 3, -1, -2, sympy.Rational(1, 2), sympy.Rational(-1, 2), sympy.Rational(1, 3), 0.5, 1.5]), evaluate=ev)
    if k == 7:
        return sympy.sqrt(a)
    if k == 8:
        return sympy.Add(a, sympy.Mul(-1, b, c, evaluate=False), evaluate=False)
    if k == 9:
        return sympy.Mul(sympy.Pow(a, -1), b, evaluate=ev)
    return t.rng.choice([sympy.cos, sympy.sin, sympy.exp, sympy.tan])(a)


def supported(e):
    return not any(isinstance(n, (sympy.NumberSymbol, sympy.core.numbers.Infinity, sympy.core.numbers.NegativeInfinity, sympy.core.numbers.ComplexInfinity)) or n is sympy.nan
                   or isinstance(n, sympy.Function) and n.func not in (sympy.cos, sympy.sin, sympy.exp, sympy.tan) for n in sympy.preorder_traversal(e))


def near(t, got, want, what):
    got, want = complex(got), complex(want)
    if abs(want) > 1e6 or want != want:
        return False
    t.ok(abs(got - want) <= 1e-7 * (1 + abs(want)), f"{what}: {got}, expected {want}")
    return True


@clause("translation keeps the value of every expression", budget=60)
def _(t):
    done = 0
    for _ in range(t.n(1500)):
        e = rand(t, t.rng.randint(0, 3))
        if not supported(e):
            continue
        envs = []
        for _e in range(3):
            env = {s.name: t.rng.choice([t.rng.uniform(0.2, 2), t.rng.uniform(-2, 2)]) for s in SY}
            try:
                envs.append((env, value(e, env)))
            except (ZeroDivisionError, OverflowError, ValueError):
                pass
        if not envs:
            continue
        with t.case(sympy.srepr(e), trivial=not e.args):
            text = sympy.srepr(e)
            tree = expression_from_sympy(e)
            back = translate_expression(tree, SYMPY_DIALECT)
            for env, want in envs:
                if not near(t, tree_value(t, tree, env), want, f"neutral tree {tree} at {env}"):
                    continue
                near(t, value(back, env), want, f"translated back: {back} at {env}")
                near(t, translate_expression(tree, dialect(env)), want, f"evaluated in a numeric dialect at {env}")
            t.eq(sympy.srepr(e), text, "the expression is not modified")
            done += 1


@clause("small expressions, systematically", budget=30)
def _(t):
    x, y = SY[:2]
    atoms = [x, y, sympy.Integer(2), sympy.Integer(-1), sympy.Rational(1, 2), sympy.Float(-0.3), sympy.I]
    env = {"x": 0.7, "y": -1.3}
    for a, b in itertools.product(atoms, repeat=2):
        forms = {"a+b": a + b, "a-b": a - b, "b-a": b - a, "a*b": a * b, "a/b": a / b, "a**2": a ** 2, "a**-1": a ** -1, "1/(a*b)": 1 / (a * b), "-a": -a, "-a-b": -a - b,
                 "a-b-1": a - b - 1, "2*a/b": 2 * a / b, "a/b/3": a / b / 3, "sqrt(a)": sympy.sqrt(a), "a**(1/3)": a ** sympy.Rational(1, 3), "1/sqrt(a)": 1 / sympy.sqrt(a),
                 "a+b raw": sympy.Add(a, b, evaluate=False), "a*b raw": sympy.Mul(a, b, evaluate=False), "a-b raw": sympy.Add(a, sympy.Mul(-1, b, evaluate=False), evaluate=False),
                 "a - 2b raw": sympy.Add(a, sympy.Mul(-1, b, 2, evaluate=False), evaluate=False), "a/b raw": sympy.Mul(a, sympy.Pow(b, -1, evaluate=False), evaluate=False),
                 "(a-b)/(a+b+3)": (a - b) / (a + b + 3), "cos(a-b)": sympy.cos(a - b), "exp(-a/b)": sympy.exp(-a / b), "a**b": a ** b if a not in (x, y) or b in (2, -1) else a ** 2,
                 "sin(a)**2": sympy.sin(a) ** 2, "tan(a+b)": sympy.tan(a + b), "a - (b + 1) raw": sympy.Add(a, sympy.Mul(-1, b + 1, evaluate=False), evaluate=False)}
        for n, e in forms.items():
            if not supported(e):
                continue
            try:
                want = value(e, env)
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            with t.case(f"{n} with a={a}, b={b}"):
                tree = expression_from_sympy(e)
                near(t, tree_value(t, tree, env), want, f"neutral tree {tree}")
                near(t, value(translate_expression(tree, SYMPY_DIALECT), env), want, "translated back")
                near(t, translate_expression(tree, dialect(env)), want, "numeric dialect")
    for n in (0, 1, -2, 0.5, -1e-9, 2 + 3j, 10 ** 20):
        with t.case(f"native number {n}", trivial=True):
            t.eq(expression_from_sympy(n), n, "native number")
            t.eq(translate_expression(n, SYMPY_DIALECT), n, "number in the sympy dialect")
    for s in ("x", "theta_10", "beta", "I", "lambda", "a[3]"):
        with t.case(f"symbol {s}"):
            t.eq(expression_from_sympy(sympy.Symbol(s)), X.Symbol(s), "neutral symbol")
            t.eq(translate_expression(X.Symbol(s), SYMPY_DIALECT), sympy.Symbol(s), "symbol in the sympy dialect")


@clause("every neutral function in the sympy dialect", budget=10)
def _(t):
    x, y = SY[:2]
    A, B, C_ = X.Symbol("x"), X.Symbol("y"), 3
    env = {"x": 0.8, "y": 1.7}
    want = {"add": (0.8 + 1.7 + 3, (A, B, C_)), "mul": (0.8 * 1.7 * 3, (A, B, C_)), "sub": (0.8 - 1.7, (A, B)), "div": (0.8 / 1.7, (A, B)), "pow": (0.8 ** 1.7, (A, B)),
            "cos": (math.cos(.8), (A,)), "sin": (math.sin(.8), (A,)), "exp": (math.exp(.8), (A,)), "sqrt": (math.sqrt(.8), (A,)), "tan": (math.tan(.8), (A,))}
    t_names = set(SYMPY_DIALECT.known_functions)
    with t.case("the functions of the dialect are those with a defined meaning", trivial=True):
        t.ok(set(want) <= t_names, f"functions {sorted(set(want) - t_names)} are known")
    for n, (v, args) in want.items():
        for src in (tuple, list, lambda a: (q for q in a), iter):
            with t.case(f"{n} {getattr(src, '__name__', src)}"):
                near(t, value(translate_expression(X.FunctionCall(n, src(args)), SYMPY_DIALECT), env), v, n)
                near(t, translate_expression(X.FunctionCall(n, src(args)), dialect(env)), v, n)
    for n in ("add", "mul"):
        for k in (1, 2, 5, 8):
            with t.case(f"{n} of {k} arguments"):
                args = [0.5 + i for i in range(k)]
                r = translate_expression(X.FunctionCall(n, tuple(args)), SYMPY_DIALECT)
                near(t, r, sum(args) if n == "add" else functools.reduce(operator.mul, args), n)


@clause("unsupported functions are rejected", budget=10)
def _(t):
    x, y = SY[:2]
    for f in (sympy.asin, sympy.log, sympy.Abs, sympy.gamma, sympy.sinh, sympy.sec, sympy.conjugate, sympy.Function("foo"), sympy.Max, sympy.sign, sympy.re):
        for wrap in (lambda e: e, lambda e: e + 1, lambda e: sympy.cos(e) * y, lambda e: x - e, lambda e: 1 / e, lambda e: sympy.sqrt(e)):
            e = wrap(f(x, y) if f is sympy.Max else f(x))
            if supported(e):  # sympy rewrote it, e.g. cos(asin(x))
                continue
            with t.case(str(e)):
                t.raises((ValueError, NotImplementedError), lambda: translate_expression(expression_from_sympy(e), SYMPY_DIALECT), "unsupported function")
    few = X.ExpressionDialect(lambda s: s.name, lambda n: n, {"add": lambda *a: ("add",) + a})
    for e in (X.FunctionCall("mul", (1, 2)), X.FunctionCall("add", (1, X.FunctionCall("cos", (2,)))), X.FunctionCall("plus", (1,))):
        with t.case(f"{e} in a dialect with addition only"):
            t.raises(ValueError, lambda: translate_expression(e, few), "unknown function")
    with t.case("custom dialect"):
        t.eq(translate_expression(X.FunctionCall("add", (1, X.Symbol("q"), X.FunctionCall("add", (2,)))), few), ("add", 1, "q", ("add", 2)), "dialect decides")
    for bad in (sympy.Matrix([[x]]), "x", None, sympy.true, sympy.Eq(x, y), {1: 2}):
        with t.case(f"not an expression: {bad!r}"):
            t.raises(NotImplementedError, lambda: expression_from_sympy(bad), "not an expression")
    for c in (sympy.pi, sympy.E, sympy.pi * x, x ** sympy.pi):
        with t.case(f"constant {c}: exact or rejected"):
            try:
                r = translate_expression(expression_from_sympy(c), SYMPY_DIALECT)
            except (ValueError, NotImplementedError):
                continue
            near(t, value(r, {"x": 1.7}), value(c, {"x": 1.7}), "constant")


def chunks(s):
    out, cur = [], ""
    for ch in s:
        if cur and ch.isdecimal() != cur[-1].isdecimal():
            out.append(cur)
            cur = ""
        cur += ch
    out.append(cur)
    return [int(c) if c.isdecimal() else c for c in out]


def ref_less(a, b):
    """names compared piece by piece: digit groups as numbers, other groups as text; a name starting with
    a digit group has an empty text before it"""
    def norm(s):
        c = chunks(s)
        if isinstance(c[0], int):
            c = [""] + c
        return c
    x, y = norm(a), norm(b)
    for p, q in zip(x, y):
        if p != q:
            return p < q
    return len(x) < len(y)


@clause("natural ordering of symbol names", budget=20)
def _(t):
    base = ["x", "x1", "x2", "x10", "x02", "x_1", "x_2", "x_10", "a", "b", "theta_1", "theta_2", "theta_12", "beta_2", "beta_10", "beta_1_3", "beta_1_12", "beta_2_1", "p[2]", "p[10]",
            "2x", "10x", "x1y2", "x1y10", "x10y1", "X_3", "theta", "theta_", "", "z99999999999999999999", "z100000000000000000000",
            "x\u00b2", "x1\u00b2", "x10\u00b2", "\u00b2", "x\u0663", "x1_\u2463"]
    sy = [sympy.Symbol(n) for n in base]
    for a, b in itertools.product(sy, repeat=2):
        with t.case(f"{a.name!r} < {b.name!r}", trivial=a == b):
            ka, kb = S.natural_key(a), S.natural_key(b)
            t.eq((ka < kb), ref_less(a.name, b.name), "natural order")
            t.ok((ka < kb) + (kb < ka) + (ka == kb) == 1, "exactly one of <, >, =")
            ra, rb = S.natural_key_revlex(a), S.natural_key_revlex(b)
            t.ok((ra < rb) + (rb < ra) + (ra == rb) == 1, "reversed order: exactly one of <, >, =")
            t.eq(list(ra), list(reversed(ka)), "reversed natural key")
    for _ in range(t.n(80)):
        l = t.rng.sample(sy, 8)
        with t.case(f"sorting {[s.name for s in l]}"):
            r = sorted(l, key=S.natural_key)
            t.ok(not any(ref_less(r[j].name, r[i].name) for i in range(8) for j in range(i, 8)), "sorted naturally")
            t.eq(sorted(sorted(l, key=S.natural_key_revlex), key=S.natural_key_revlex), sorted(l, key=S.natural_key_revlex), "sorting is stable under repetition")
    for _ in range(t.n(60)):
        names = t.rng.sample(["gamma", "beta", "theta", "a", "zz", "delta"], t.rng.randint(1, 5))
        idx = t.rng.sample(range(0, 30), 4)
        l = [sympy.Symbol(f"{n}_{i}") for n in names for i in idx]
        t.rng.shuffle(l)
        with t.case(f"names {names} indices {idx}"):
            r = sorted(l, key=S.natural_key_fixed_names_order(names))
            t.eq([s.name for s in r], [f"{n}_{i}" for i in sorted(idx) for n in names], "by number, then by the given order of names")
            r = sorted(l, key=S.natural_key_revlex)
            t.eq([s.name for s in r], [f"{n}_{i}" for i in sorted(idx) for n in sorted(names)], "by number, then by name")
            r = sorted(l, key=S.natural_key)
            t.eq([s.name for s in r], [f"{n}_{i}" for n in sorted(names) for i in sorted(idx)], "by name, then by number")
