"""Bounded contracts for C16 (operator algebra)."""
import copy, functools, itertools, math
import numpy as np, sympy
import ops as O, ref
from native_lib import clause
from zquantum.core.openfermion.ops import FermionOperator, IsingOperator, QubitOperator

KINDS = ("qubit", "ising", "fermion")
N = 4


def eqm(t, op, m, what):
    O.canonical(t, op, what)
    t.close(O.matrix(op, N), m, f"{what}: matrix of {O.text(op)}", 1e-9)


@clause("sums, products, multiples, quotients, powers denote those of matrices", budget=70)
def _(t):
    for i in range(t.n(260)):
        k = KINDS[i % 3]
        a, b, c = (O.operator(t.rng, k, N) for _ in range(3))
        A, B, C = (O.matrix(x, N) for x in (a, b, c))
        s = O.coef(t.rng)
        I = np.eye(2 ** N)
        with t.case(f"{O.text(a)} ; {O.text(b)} ; {O.text(c)} ; {s}", trivial=not (a.terms and b.terms)):
            sa, sb = O.snapshot(a), O.snapshot(b)
            for name, f, m in (("a+b", lambda: a + b, A + B), ("a-b", lambda: a - b, A - B), ("a*b", lambda: a * b, A @ B), ("b*a", lambda: b * a, B @ A), ("-a", lambda: -a, -A),
                               ("s*a", lambda: s * a, O.num(s) * A), ("a*s", lambda: a * s, O.num(s) * A), ("a/s", lambda: a / s, A / O.num(s)),
                               ("a+s", lambda: a + s, A + O.num(s) * I), ("s+a", lambda: s + a, A + O.num(s) * I), ("a-s", lambda: a - s, A - O.num(s) * I),
                               ("s-a", lambda: s - a, O.num(s) * I - A), ("a**0", lambda: a ** 0, I), ("a**1", lambda: a ** 1, A), ("a**2", lambda: a ** 2, A @ A), ("a**3", lambda: a ** 3, A @ A @ A) if len(a.terms) < 4 else ("a", lambda: +1 * a, A),
                               ("a+a", lambda: a + a, 2 * A), ("a*a", lambda: a * a, A @ A), ("a-a", lambda: a - a, 0 * A),
                               ("(a+b)*c", lambda: (a + b) * c, (A + B) @ C), ("a*(b*c)", lambda: a * (b * c), A @ B @ C), ("(a*b)*c", lambda: (a * b) * c, A @ B @ C),
                               ("sum", lambda: sum([a, b, c]), A + B + C), ("accumulate", lambda: type(a).accumulate([a, b, c]), A + B + C),
                               ("accumulate from", lambda: type(a).accumulate(iter([b, c]), a), A + B + C),
                               ("zero", lambda: type(a).zero() + a, A), ("identity", lambda: type(a).identity() * a, A)):
                r = f()
                eqm(t, r, m, name)
                t.ok(r is not a and r is not b, f"{name}: a new operator")
                t.ok(type(r) is type(a), f"{name}: type")
                t.eq((O.snapshot(a), O.snapshot(b)), (sa, sb), f"{name}: operands unchanged")
                if r.terms:
                    r *= 2
                    r += type(r)(())
                    t.eq((O.snapshot(a), O.snapshot(b)), (sa, sb), f"{name}: result shares nothing with the operands")
            for name, f, m in (("a+=b", lambda x: x.__iadd__(b), A + B), ("a-=b", lambda x: x.__isub__(b), A - B), ("a*=b", lambda x: x.__imul__(b), A @ B), ("a*=s", lambda x: x.__imul__(s), O.num(s) * A),
                               ("a/=s", lambda x: x.__itruediv__(s), A / O.num(s)), ("a+=s", lambda x: x.__iadd__(s), A + O.num(s) * I), ("a-=s", lambda x: x.__isub__(s), A - O.num(s) * I),
                               ("a+=a", lambda x: x.__iadd__(x), 2 * A), ("a*=a", lambda x: x.__imul__(x), A @ A), ("a-=a", lambda x: x.__isub__(x), 0 * A)):
                x = copy.deepcopy(a)
                y = f(x)
                t.ok(y is x, f"{name}: in place")
                eqm(t, x, m, name)
                t.eq((O.snapshot(a), O.snapshot(b)), (sa, sb), f"{name}: right operand unchanged")


@clause("products of factors follow the Pauli table / keep ladder order, exhaustively", budget=40)
def _(t):
    for n, L in ((1, 4), (2, 3)):
        for length in range(L + 1):
            for f in itertools.product([(q, p) for q in range(n) for p in "XYZ"], repeat=length):
                with t.case(f"qubit {f}", trivial=length < 2):
                    m = O.term_matrix("qubit", f, N)
                    eqm(t, QubitOperator(f), m, "term")
                    eqm(t, QubitOperator(" ".join(f"{p}{q}" for q, p in f)), m, "term as a string")
                    r = functools.reduce(lambda a, b: a * b, [QubitOperator((x,)) for x in f], QubitOperator(()))
                    eqm(t, r, m, "product of factors")
                    t.eq(len(r.terms), 1, "a single term")
    for n, L in ((2, 3),):
        for length in range(L + 1):
            for f in itertools.product([(q, a) for q in range(n) for a in (0, 1)], repeat=length):
                with t.case(f"fermion {f}", trivial=length < 2):
                    t.eq(O.snapshot(FermionOperator(f)), [(f, 1.0)], "factors keep their order")
                    t.eq(O.snapshot(FermionOperator(" ".join(f"{q}{'^' if a else ''}" for q, a in f))), [(f, 1.0)], "as a string")
            for f in itertools.product(range(3), repeat=length):
                with t.case(f"ising {f}", trivial=length < 2):
                    eqm(t, IsingOperator(tuple((q, "Z") for q in f)), O.term_matrix("ising", [(q, "Z") for q in f], N), "term")
                    eqm(t, functools.reduce(lambda a, b: a * b, [IsingOperator(f"Z{q}") for q in f], IsingOperator(())), O.term_matrix("ising", [(q, "Z") for q in f], N), "product")


@clause("strings, tuples and lists denote the same operator", budget=30)
def _(t):
    for i in range(t.n(250)):
        k = KINDS[i % 3]
        cls = O.CLS[k]
        big = t.rng.choice([N, 120])
        f = O.factors(t.rng, k, big, t.rng.randint(0, 4))
        c = O.coef(t.rng)
        show = lambda f: " ".join(f"{q}{'^' if a else ''}" if k == "fermion" else f"{a}{q}" for q, a in f)
        with t.case(f"{k} {f} {c}", trivial=not f):
            want = O.snapshot(cls(f, c))
            t.ok(want[0][1] == c or k == "qubit", "coefficient")
            for name, g in (("list", list(f)), ("string", show(f)), ("spaces", "  " + show(f).replace(" ", "   ") + " ")):
                t.eq(O.snapshot(cls(g, c)), want, name)
            if len(f) == 1:
                t.eq(O.snapshot(cls(f[0], c)), want, "single factor")
            if not isinstance(c, sympy.Expr):
                g = O.factors(t.rng, k, big, 2)
                s = f"{complex(c) if isinstance(c, complex) else float(c)} [{show(f)}] + 2.5 [{show(g)}]"
                w = cls(f, c)
                x = cls(g, 2.5)
                for term, cc in x.terms.items():
                    w.terms[term] = w.terms.get(term, 0) + cc
                r = cls(s)
                t.eq(set(r.terms), set(w.terms), f"long string {s}")
                t.ok(all(abs(r.terms[z] - w.terms[z]) < 1e-12 for z in w.terms), f"long string {s}: {r.terms}")
                r = cls(f"- [{show(f)}]", 3.0)
                t.eq(O.matrix(r, N).tolist() if big == N else sorted(r.terms), O.matrix(-3. * cls(f), N).tolist() if big == N else sorted(cls(f).terms), "sign only")
    with t.case("no term"):
        t.eq((QubitOperator().terms, QubitOperator(()).terms, QubitOperator("").terms, QubitOperator([]).terms), ({}, {(): 1.0}, {(): 1.0}, {(): 1.0}), "zero and identity")
        a, b = QubitOperator(), QubitOperator()
        a += QubitOperator("X0")
        t.eq(b.terms, {}, "independent operators")
    bad = {QubitOperator: ["X", "0X", "Q3", "X-1", "X1 Y", "x0", "X1Y2", ((0, "A"),), ((-1, "X"),), ((0.5, "X"),), ((0, "X", 1),), 3, 1.5, {0: "X"}, "a [X0]", ((0, 1),)],
           IsingOperator: ["X0", "Y2", "Z-1", ((0, "X"),), ((0, "Z"), (1, "Y")), "Z"], FermionOperator: ["^3", "3^^", "a3", "-1^", ((0, 2),), ((0, "X"),), ((-2, 1),)]}
    for cls, l in bad.items():
        for x in l:
            with t.case(f"{cls.__name__}({x!r})"):
                t.raises((ValueError, TypeError), lambda: cls(x), "malformed term")
    for c in ("1", None, [1], np.array([1., 2.])):
        with t.case(f"coefficient {c!r}"):
            t.raises(ValueError, lambda: QubitOperator("X0", c), "coefficient that is no number")
    for k in KINDS:
        a = O.operator(t.rng, k, N, 2)
        for bad in ("x", None, [1], O.operator(t.rng, KINDS[(KINDS.index(k) + 1) % 3], N, 1)):
            for name, f in (("*", lambda: a * bad), ("+", lambda: a + bad), ("-", lambda: a - bad), ("/", lambda: a / bad)):
                with t.case(f"{k} {name} {bad!r}"):
                    keep = O.snapshot(a)
                    t.raises(TypeError, f, "operand of another type")
                    t.eq(O.snapshot(a), keep, "unchanged")
        for e in (-1, 1.5, "2"):
            with t.case(f"{k} ** {e!r}"):
                t.raises((ValueError, TypeError), lambda: a ** e, "exponent")


@clause("approximate comparison", budget=30)
def _(t):
    for i in range(t.n(300)):
        k = KINDS[i % 3]
        cls = O.CLS[k]
        n = t.rng.randint(0, 5)
        terms = {}
        while len(terms) < n:
            f = O.factors(t.rng, k, N, t.rng.randint(0, 3), True)
            f = tuple(sorted(f)) if k != "fermion" else f
            terms[f] = t.rng.choice([1, -3.5, 100., 1e3, 2j, 1 + 1j, 1e-3, -1e-2, 50])
        a, b = cls(), cls()
        tol = t.rng.choice([None, 1e-8, 1e-3, .1])
        T = 1e-8 if tol is None else tol
        close = True
        for f, c in terms.items():
            a.terms[f] = c
            r = t.rng.random()
            scale = max(1, abs(c))
            d = 0 if r < .3 else T * scale * .2 if r < .75 else T * scale * 20 if r < .85 else 0
            if r >= .85 and abs(c) > 20 * T:
                close = False
                continue
            if .75 <= r < .85:
                close = False
            b.terms[f] = c + d
        for f, c in (((), T * .5), (((0, "Z"),), T * 20)) if t.rng.random() < .3 else ():
            f = f if k != "fermion" or not f else ((3, 1), (2, 1), (1, 1), (0, 1))
            if f in a.terms:
                continue
            b.terms[f] = c
            if c > T:
                close = False
        with t.case(f"{O.text(a)} ; {O.text(b)} tol {tol}", trivial=not n):
            keep = O.snapshot(a), O.snapshot(b)
            r1 = a.isclose(b) if tol is None else a.isclose(b, tol)
            r2 = b.isclose(a) if tol is None else b.isclose(a, tol)
            t.eq((bool(r1), bool(r2)), (close, close), "accepted exactly when corresponding coefficients agree within tolerance")
            if tol is None:
                t.eq((a == b, a != b), (close, not close), "== and !=")
            t.eq((O.snapshot(a), O.snapshot(b)), keep, "operators unchanged")
    u, v = O.SYMS
    for x, y, want in ((u, u, True), (u, v, False), (u + v, v + u, True), (2 * u, u, False), (sympy.Integer(2), 2.0, True), (sympy.Rational(1, 3), 1 / 3, True), (u, 1.0, False), (u * 0 + 1, 1, True)):
        with t.case(f"symbolic {x} == {y}"):
            t.eq(QubitOperator("X0", x) == QubitOperator("X0", y), want, "comparison")
            t.eq(QubitOperator("X0", x) + QubitOperator("Z1", 7.) == QubitOperator("X0", y) + QubitOperator("Z1", 7.), want, "comparison beside another term")
    with t.case("other kinds"):
        t.ok(not (QubitOperator("Z0") == FermionOperator("0")), "operators of different kinds")
        t.ok(not (QubitOperator("Z0") == "Z0") and QubitOperator("Z0") != 3, "other objects")


@clause("compression removes only negligible parts", budget=30)
def _(t):
    for i in range(t.n(250)):
        k = KINDS[i % 3]
        tol = t.rng.choice([None, 1e-8, 1e-3, 0.0])
        T = 1e-8 if tol is None else tol
        op = O.CLS[k]()
        want = {}
        for _ in range(t.rng.randint(0, 5)):
            f = O.factors(t.rng, k, N, t.rng.randint(0, 3), True)
            f = tuple(sorted(f)) if k != "fermion" else f
            part = lambda: t.rng.choice([0, 0, T * .3, -T * .3, 1, -1, -2.5, .01, -.01])
            re, im = part(), part()
            kind = t.rng.choice(["num", "sym", "int"])
            c = complex(re, im) if kind != "int" else t.rng.choice([3, -3, 0, 2.5])
            if kind == "sym":
                c = sympy.Float(re) + sympy.I * sympy.Float(im) if t.rng.random() < .7 else sympy.Integer(t.rng.choice([-3, 2, 0])) + sympy.I * sympy.Integer(t.rng.choice([-2, 0, 5]))
            z = complex(c)
            op.terms[f] = c
            r = complex(z.real if abs(z.real) > T else 0, z.imag if abs(z.imag) > T else 0)
            want[f] = r
        with t.case(f"{O.text(op)} tol {tol}", trivial=not want):
            op.compress() if tol is None else op.compress(tol)
            t.eq(set(op.terms), {f for f, c in want.items() if c != 0}, "remaining terms")
            for f, c in op.terms.items():
                t.ok(abs(complex(c) - want[f]) < 1e-14, f"coefficient of {f}: {c}, expected {want[f]}")
    u = O.SYMS[0]
    r = sympy.Symbol("r", real=True)
    p = sympy.Symbol("p", positive=True)
    for c in (u, -u, r, -r, r + 2 * sympy.I, 2 + sympy.I * u, p, -p, sympy.I * p, -sympy.I * p, -2 - sympy.I, u * 3 - 1, sympy.I * r - 4, p + sympy.I * p):
        with t.case(f"symbolic {c}"):
            op = QubitOperator("X0", c)
            op.compress()
            t.eq(list(op.terms), [((0, "X"),)], "the term remains")
            val = lambda e: complex(sympy.N(sympy.sympify(e).subs({u: .7, r: -1.3, p: .9})))
            t.ok(abs(val(op.terms[((0, "X"),)]) - val(c)) < 1e-9, f"coefficient {op.terms}")


@clause("inspection", budget=30)
def _(t):
    for i in range(t.n(200)):
        k = KINDS[i % 3]
        op = O.operator(t.rng, k, N, coefs=t.rng.choice(["real", "mixed"]), length=3)
        M = O.matrix(op, N)
        with t.case(O.text(op), trivial=not op.terms):
            keep = O.snapshot(op)
            parts = list(op.get_operators())
            t.eq([O.snapshot(x) for x in parts], [[x] for x in keep], "single-term operators in order")
            t.eq([O.snapshot(x) for x in op], [[x] for x in keep], "iteration")
            for g in (1, 2, 3, 10):
                l = list(op.get_operator_groups(g))
                t.eq(len(l), min(g, len(keep)), "number of groups")
                t.eq([x for y in l for x in O.snapshot(y)], keep, "groups partition the terms in order")
            t.eq(O.snapshot(copy.deepcopy(op)), keep, "copy")
            t.eq(O.snapshot(op), keep, "unchanged")
            if all(not isinstance(c, sympy.Expr) for c in op.terms.values()):
                for p in (1, 2, 3):
                    t.close(op.induced_norm(p), sum(abs(c) ** p for c in op.terms.values()) ** (1 / p), f"induced {p}-norm")
                t.eq(op.many_body_order(), max([len(s) for s, c in op.terms.items() if abs(c) >= 1e-8], default=0), "many-body order")
            t.eq(op.constant, op.terms.get((), 0.0), "constant")
            x = copy.deepcopy(op)
            x.constant = 2.5
            t.eq(x.terms, {**op.terms, (): 2.5}, "constant set")
    for c in (1e-12, 0, -1e-9):
        with t.case(f"negligible {c}"):
            t.eq(QubitOperator("X0 Y1", c).many_body_order(), 0, "many-body order")
    for i in range(t.n(20)):
        op = O.operator(t.rng, "qubit", N, 3, coefs="complex")
        if not op.terms:
            continue
        with t.case(f"renormalize {O.text(op)}"):
            M = O.matrix(op, N)
            s = op.induced_norm(2)
            op.renormalize()
            t.close(O.matrix(op, N), M / s, "rescaled")
            t.close(op.induced_norm(2), 1, "norm")
    for z in (QubitOperator(), QubitOperator("X0", 0.)):
        with t.case(f"renormalize {O.text(z)}"):
            t.raises(ZeroDivisionError, z.renormalize, "zero operator")
