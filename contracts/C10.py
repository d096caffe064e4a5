"""C10: symbolic expressions, by structural induction, for expressions of any size.

Value of a sympy expression: V (an uninterpreted function on expressions, with the meaning of sums, products, powers and
of multiplying by a number as axioms).  Value of a neutral tree: `meaning` below.  Expressions without a value (division by zero) are left out.  Each obligation handles one kind of
node, takes `meaning(translation of x) = V(x)` for its children x as the induction hypothesis (a contract on the recursive
call), and shows the same for the node.  Values are in the field of reals; the identities used are field identities."""
from pyvc.contract import Property
from .spec import *

P = Property("C10", trusted=["a sympy node is given by its class and args; x == c for a number c only if x has that value; binary rounding of numbers is not considered",
                             "re.split on a captured group of digits returns text, digits, text, ..., text (first and last may be empty)"])
SM = C + "circuits.symbolic.sympy_expressions:"
TM = C + "circuits.symbolic.translations:"
XM = C + "circuits.symbolic.expressions:"
OM = C + "circuits.symbolic._sorting:"
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

V = z3.Function("value_of", U, R)            # of a sympy expression
NA = z3.Function("n_args", U, I)
ARG = z3.Function("arg", U, I, U)
TR = z3.Function("translation_of", U, U)     # induction hypothesis: the neutral tree of a child
TIMES = z3.Function("times", U, R, U)        # sympy expression multiplied by a number
EQN = z3.Function("equals_number", U, R, B)
POW = z3.Function("power", R, R, R)
SQRT = z3.Function("square_root", R, R)
FUN = z3.Function("function_value", U, R, R)   # by name of the function


def num(x):
    return to_z3_real(x)


# what sympy's nodes mean: facts are added as the code looks at a node

def eq(it, s, o):
    if is_z3(o) or is_num(o):
        c = EQN(s.term, num(o))
        it.assume(z3.Implies(c, V(s.term) == num(o)))
        return c
    if isinstance(o, SU):
        return s.term == o.term
    raise Unsupported("comparing an expression")


def times(it, s, o):
    if not (is_z3(o) or is_num(o)):
        raise Unsupported("product of expressions")
    r = TIMES(s.term, num(o))
    it.assume(V(r) == V(s.term) * num(o))
    return SU(r, NODE)


def power(it, x):
    """facts about a node known to be a power; its value"""
    b, e = V(ARG(x, 0)), V(ARG(x, 1))
    it.assume(z3.And(V(x) == POW(b, e), z3.Implies(e == -1, z3.And(b != 0, POW(b, e) == 1 / b)), z3.Implies(e == z3.Q(1, 2), POW(b, e) == SQRT(b))))
    return POW(b, e)


def args(it, x):
    if it.valid(z3.Function("k:isinstance_Pow", U, B)(x)):
        power(it, x)
        return (SU(ARG(x, 0), NODE), SU(ARG(x, 1), NODE))
    i = z3.Int(it.fresh_name("ai"))
    if it.valid(z3.Function("k:isinstance_Mul", U, B)(x)):
        it.assume(NA(x) >= 1)
        return Seq.of([SU(ARG(x, 0), NODE)]) + Seq([Comp(NA(x) - 1, i, [(True, (Unit(SU(ARG(x, i + 1), NODE)),))])])
    it.assume(NA(x) >= 0)
    return Seq([Comp(NA(x), i, [(True, (Unit(SU(ARG(x, i), NODE)),))])])


NODE = Iface("expression", maybe={"Mul", "Pow", "Add"}, eq=eq, attrs={"args": lambda it, s: args(it, s.term)}, ops={"*": times, "r*": lambda it, a, b: times(it, b, a), "neg": lambda it, a: times(it, a, -1)})
TREE = Iface("neutral tree")


def recursion(v, node):
    """the node itself and the tuple of its children are translated by the code, the children by the induction hypothesis"""
    def h(it, a, k):
        if isinstance(a[0], SU) and a[0].iface is NODE:
            return SU(TR(a[0].term), TREE)
        return NotImplemented
    v.contract(SM + "expression_from_sympy", h)


def reduce_(v, op, s):
    return v.it.models["functools.reduce"](v.it, [VLib("operator." + op), s], {})


def meaning(v, t):
    """value of a neutral tree"""
    it = v.it
    if isinstance(t, SU):
        if t.iface is TREE and z3.is_app(t.term) and t.term.decl().name() == "translation_of":
            return V(t.term.arg(0))
        raise Unsupported("meaning of an unknown tree")
    if is_z3(t) or is_num(t):
        return num(t)
    if not isinstance(t, VObj):
        v.prove(False, f"not a tree: {t!r}"[:200])
        raise Unsupported("meaning of an unknown tree")
    if t.cls.name != "FunctionCall":
        raise Unsupported("meaning of an unknown tree")
    name, a = v.attr(t, "name"), it.as_seq(v.attr(t, "args"))
    vals = it.map_seq(a, lambda x: meaning(v, x))
    if isinstance(name, SU):
        c = vals.concrete()
        v.prove(len(c) == 1, "one argument")
        return FUN(name.term, c[0])
    if name in ("add", "mul"):
        return num(reduce_(v, name, vals))
    c = vals.concrete()
    if c is None:
        n = it.seq_len(vals)
        k = 1 if name == "sqrt" else 2
        v.prove(it.eq(n, k), f"{name} has {k} arguments")
        c = [it.seq_get(vals, i) for i in range(k)]
    v.prove(len(c) == (1 if name == "sqrt" else 2), f"number of arguments of {name}")
    c = [num(x) for x in c]
    return {"sub": lambda: c[0] - c[1], "div": lambda: c[0] / c[1], "pow": lambda: POW(c[0], c[1]), "sqrt": lambda: SQRT(c[0])}[name]()


def node(v, kind, n=None, **attrs):
    x = z3.Const("node", U)
    if n is not None:
        k = n[0] if n[0] == n[1] else v.int("n_args", *n)
        v.assume(NA(x) == k)
    at = {"args": lambda it, s: args(it, x) if not isinstance(k, int) else tuple(SU(ARG(x, i), NODE) for i in range(k))} if n else {}
    sup = {"Integer": ["Rational", "Number"], "Rational": ["Number"], "Float": ["Number"]}.get(kind, [])
    s = SU(x, Iface(kind, classes={kind, "Expr", "Basic"} | set(sup), attrs=dict(at, **attrs), ops={"float": lambda it, s: V(x), "int": lambda it, s: z3.ToInt(V(x)), "str": lambda it, s: SU(z3.Const("printed name", U), STRG)}))
    recursion(v, s)
    return x, s


STRG = Iface("string", classes=("str",))


def n_ary(kind, op):
    for what, bounds in (("any number of", (3, None)), ("two", (2, 2)), ("one", (1, 1))):
        @P.obligation(f"{kind} of {what} terms keeps its value", targets=[SM + ("addition_from_sympy_add" if kind == "Add" else "multiplication_from_sympy_mul"), SM + "expression_from_sympy"])
        def _(v, bounds=bounds):
            x, s = node(v, kind, bounds)
            r = v.call(SM + "expression_from_sympy", s)
            n = s.iface.attrs["args"](v.it, s)
            want = num(reduce_(v, op, v.it.map_seq(v.it.as_seq(n), lambda y: V(y.term))))
            v.prove(meaning(v, r) == want, "value")


n_ary("Add", "add")
n_ary("Mul", "mul")


@P.obligation("Pow keeps its value", targets=[SM + "power_from_sympy_pow"])
def _(v):
    x, s = node(v, "Pow", (2, 2))
    value = power(v.it, x)
    r = v.call(SM + "expression_from_sympy", s)
    v.prove(meaning(v, r) == value, "value")


@P.obligation("a function of one argument is the call of the same function on the translated argument", targets=[SM + "function_call_from_sympy_function"])
def _(v):
    f = z3.Const("function", U)
    x, s = node(v, "Function", (1, 1), func=lambda it, s: SU(f, Iface("function class", ops={"str": lambda it, s: SU(z3.Const("function name", U), STRG)}, attrs={"__name__": lambda it, s: SU(z3.Const("function name", U), STRG)})))
    r = v.call(SM + "expression_from_sympy", s)
    v.prove(meaning(v, r) == FUN(z3.Const("function name", U), V(ARG(x, 0))), "value")


@P.obligation("numbers, the imaginary unit and symbols", targets=[SM + "native_integer_from_sympy_integer", SM + "native_float_from_sympy_float", SM + "native_float_from_sympy_rational", SM + "native_imaginary_unit_from_sympy_imaginary_unit", SM + "symbol_from_sympy", SM + "identity"])
def _(v):
    for kind in ("Integer", "Float", "Rational"):
        x, s = node(v, kind)
        if kind == "Integer":
            v.assume(z3.IsInt(V(x)))
        r = v.call(SM + "expression_from_sympy", s)
        v.prove(is_z3(r) and num(r) == V(x), f"value of {kind}")
    x, s = node(v, "ImaginaryUnit")
    v.prove(v.it.eq(v.call(SM + "expression_from_sympy", s), 1j), "imaginary unit")
    y = v.real("y")
    v.prove(v.it.eq(v.call(SM + "expression_from_sympy", y), y), "native number")
    z = SC(v.real("re"), v.real("im"))
    v.prove(v.it.eq(v.call(SM + "expression_from_sympy", z), z), "native complex number")
    name = SU(z3.Const("printed name", U), STRG)
    x, s = node(v, "Symbol", name=lambda it, s: name)
    r = v.call(SM + "expression_from_sympy", s)
    v.prove(isinstance(r, VObj) and r.cls.name == "Symbol", "neutral symbol")
    v.same(v.attr(r, "name"), name, "name")


@P.obligation("anything else is rejected", targets=[SM + "expression_from_sympy"])
def _(v):
    for kinds in (("NumberSymbol", "Expr", "Basic"), ("Expr", "Basic"), ("MatrixBase",), ("dict",)):
        v.raises(NotImplementedError, lambda: v.call(SM + "expression_from_sympy", SU(z3.Const("other", U), Iface("other", classes=set(kinds)))), f"{kinds[0]}")
    v.raises(NotImplementedError, lambda: v.call(SM + "expression_from_sympy", None), "None")
    v.raises(NotImplementedError, lambda: v.call(SM + "expression_from_sympy", "x"), "text")


# ---- neutral tree to a dialect
CHILD = Iface("tree")
OUT = z3.Function("in_dialect", U, U)
RES = Iface("translated")


def dialect(v, known, calls):
    def made(kind):
        def h(it, s, a, k):
            calls.append((kind, a))
            return SU(z3.Function("made_" + kind, U, U)(it.embed(a[0])), RES)
        return h

    def function(name):
        def h(it, s, a, k):
            calls.append((name, a))
            return SU(z3.Const("result of " + name, U), RES)
        return v.opaque("function " + name, Iface("function", call=h))
    return v.call(XM + "ExpressionDialect", v.opaque("symbols", Iface("factory", call=made("symbol"))), v.opaque("numbers", Iface("factory", call=made("number"))), v.it.new_dict([(n, function(n)) for n in known]))


@P.obligation("a call becomes the dialect's function of that name on the translated arguments, in order; an unknown name is rejected", targets=[TM + "translate_function_call", TM + "translate_tuple"], bound="calls of up to 4 arguments; any arguments")
def _(v):
    calls = []
    d = dialect(v, ["add", "cos", "weird"], calls)

    def h(it, a, k):
        if isinstance(a[0], SU) and a[0].iface is CHILD:
            v.same(a[1] if len(a) > 1 else k["dialect"], d, "the same dialect")
            return SU(OUT(a[0].term), RES)
        return NotImplemented
    v.contract(TM + "translate_expression", h)
    for name in ("add", "cos", "weird"):
        for n in range(5):
            ch = [v.opaque(f"c{i}", CHILD) for i in range(n)]
            for make in (tuple, lambda c: v.list(list(c)), lambda c: v.it.new_iter(Seq.of(c))):
                calls.clear()
                r = v.call(TM + "translate_expression", v.call(XM + "FunctionCall", name, make(ch)), d)
                v.prove(len(calls) == 1 and calls[0][0] == name, f"one call of {name}")
                v.same(tuple(calls[0][1]), tuple(SU(OUT(c.term), RES) for c in ch), f"arguments of {name} {n}")
                v.same(r, SU(z3.Const("result of " + name, U), RES), f"result of {name}")
    for name in ("sin", "Add", "foo", ""):
        v.raises(ValueError, lambda: v.call(TM + "translate_expression", v.call(XM + "FunctionCall", name, (v.opaque("c", CHILD),)), d), f"unknown {name}")


@P.obligation("symbols and numbers go to the dialect's factories", targets=[TM + "translate_symbol", TM + "translate_number"])
def _(v):
    calls = []
    d = dialect(v, [], calls)
    for x in (3, Fraction(1, 2), v.real("x"), v.int("k"), SC(v.real("re"), v.real("im"))):
        calls.clear()
        v.call(TM + "translate_expression", x, d)
        v.prove(len(calls) == 1 and calls[0][0] == "number", "number factory")
        v.same(calls[0][1][0], x, "the number")
    calls.clear()
    s = v.call(XM + "Symbol", v.opaque("name", STRG))
    v.call(TM + "translate_expression", s, d)
    v.prove(len(calls) == 1 and calls[0][0] == "symbol", "symbol factory")
    v.same(v.attr(calls[0][1][0], "name"), v.opaque("name", STRG), "the symbol")


@P.obligation("the sympy dialect: sums and products of any number of arguments", targets=[SM + "SYMPY_DIALECT", XM + "reduction"])
def _(v):
    d = v.it.module_attr(C + "circuits.symbolic.sympy_expressions", "SYMPY_DIALECT")
    f = v.attr(d, "known_functions")
    for n in range(1, 6):
        xs = [v.real(f"x{i}") for i in range(n)]
        s, p = xs[0], xs[0]
        for x in xs[1:]:
            s, p = s + x, p * x
        v.prove(v.call(v.it.getitem(f, "add"), *xs) == s, f"sum of {n}")
        v.prove(v.call(v.it.getitem(f, "mul"), *xs) == p, f"product of {n}")


@P.obligation("the sympy dialect: differences, quotients, powers, functions, numbers and symbols", targets=[SM + "SYMPY_DIALECT"])
def _(v):
    d = v.it.module_attr(C + "circuits.symbolic.sympy_expressions", "SYMPY_DIALECT")
    f = v.attr(d, "known_functions")
    x, y = v.real("x"), v.real("y")
    v.prove(v.call(v.it.getitem(f, "sub"), x, y) == x - y, "difference")
    v.assume(y != 0)
    v.prove(v.call(v.it.getitem(f, "div"), x, y) == x / y, "quotient")
    seen = []
    b = v.opaque("base", Iface("base", ops={"**": lambda it, a, e: seen.append((a, e)) or v.opaque("power")}))
    e = v.opaque("exponent")
    v.same(v.call(v.it.getitem(f, "pow"), b, e), v.opaque("power"), "power")
    v.same(tuple(seen[0]), (b, e), "base and exponent")
    t = v.gen("t")
    v.poly_eq(v.call(v.it.getitem(f, "cos"), t), cos(t), "cos")
    v.poly_eq(v.call(v.it.getitem(f, "sin"), t), sin(t), "sin")
    for n in ("exp", "sqrt", "tan"):
        v.prove(v.it.getitem(f, n) == VLib("sympy." + n), n)
    v.prove(v.it.eq(v.call(v.attr(d, "number_factory"), x), x), "numbers")
    v.poly_eq(v.call(v.attr(d, "symbol_factory"), v.call(XM + "Symbol", "alpha")), v.gen("alpha"), "symbols")


# ---- natural ordering
GR = z3.Function("group", U, I, U)
NUMBER = z3.Function("number_of_digits", U, I)


def piece(it, s, a, k):
    """whether group i of a split consists of digits only: exactly the odd ones do"""
    t = s.term
    if not (z3.is_app(t) and t.decl().name() == "group"):
        raise Unsupported("not a group")
    return t.arg(1) % 2 == 1


DIGITS = Iface("text", classes=("str",), methods={"isdecimal": piece}, ops={"int": lambda it, s: NUMBER(s.term)})


def split(v):
    def h(it, a, k):
        v.prove(a[0] == r"(\d+)", "groups of digits are captured")
        i = z3.Int(it.fresh_name("gi"))
        n = z3.Int("n_numbers")
        it.assume(n >= 0)
        return v.list(Seq([Comp(2 * n + 1, i, [(True, (Unit(SU(GR(a[1].term, i), DIGITS)),))])]))
    return h


def want_key(v, name, rev=False):
    n = z3.Int("n_numbers")
    at = (lambda i: 2 * n - i) if rev else (lambda i: i)
    return v.seq("key", 2 * n + 1, lambda i: SU(GR(name, at(i)), DIGITS), [(lambda i: at(i) % 2 == 1, lambda i: NUMBER(GR(name, at(i))))])


@P.obligation("the natural key is text, number, text, ... with the embedded numbers as numbers (so keys of any two names compare position by position, numbers with numbers and text with text)", targets=[OM + "natural_key", OM + "natural_key_revlex", OM + "_convert_string_to_int_if_possible"])
def _(v):
    v.it.models["re.split"] = split(v)
    name = z3.Const("name", U)
    s = v.opaque("symbol", Iface("symbol", attrs={"name": lambda it, s: SU(name, STRG)}))
    for f, rev in (("natural_key", False), ("natural_key_revlex", True)):
        r = v.call(OM + f, s)
        v.prove(isinstance(r, (VList, tuple, Seq)), "a list")
        v.same(v.it.as_seq(r), want_key(v, name, rev), f"key {rev}")


@P.obligation("ordering with given names: by number, then by the position of the name", targets=[OM + "natural_key_fixed_names_order"], bound="up to 4 names")
def _(v):
    names = ["gamma", "beta", "theta", "a"]
    for k in range(1, 5):
        key = v.call(OM + "natural_key_fixed_names_order", v.list(list(names[:k])))
        for i, n in enumerate(names[:k]):
            for num_ in (0, 7, 12):
                s = v.opaque("symbol", Iface("symbol", attrs={"name": lambda it, s: f"{n}_{num_}"}))
                v.same(v.call(key, s), (num_, i), f"{n}_{num_}")
