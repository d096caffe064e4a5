"""C28: conversions; numbers of any size, lists and strings of any length."""
from pyvc.contract import Property
from pyvc.loops import big_sum
from .spec import *

P = Property("C28", trusted=[])
UM = C + "utils:"
from pyvc.interp import _pow2


def bits(v, name="bits", lo=0):
    n = v.int("n_" + name, lo)
    x = v.int_fn(name, 0, 1)
    return n, x, v.seq(name, n, lambda i: x(i))


@P.obligation("bin2dec: value of the bit list, most significant first", targets=[UM + "bin2dec"])
def _(v):
    n, x, s = bits(v)
    l = v.list(s)
    r = v.call(UM + "bin2dec", l)
    i = z3.Int("i")
    want = big_sum(v.it, n, i, v.it.binop("**", 2, i) * x(n - 1 - i))
    v.prove(r == want, "value")


@P.obligation("bitstrings to tuples", targets=[UM + "convert_bitstrings_to_tuples"])
def _(v):
    n = v.int("n", 0)
    ln = v.int_fn("length", 0)
    ch = z3.Function("char", z3.IntSort(), z3.IntSort(), U)
    val = z3.Function("digit", U, z3.IntSort())
    CH = Iface("character", ops={"int": lambda it, s: val(s.term)})
    s = v.seq("strings", n, lambda i: v.seq("chars", ln(i), lambda j: SU(ch(i, j), CH)))
    r = v.call(UM + "convert_bitstrings_to_tuples", v.list(s))
    v.same(v.it.as_seq(r), v.seq("tuples", n, lambda i: v.seq("digits", ln(i), lambda j: val(ch(i, j)))), "tuples")


def bin_contract(v, number):
    """bin(n) is '0', 'b' and the digits of n without leading zeros (at least one)"""
    it = v.it
    L = z3.Int("bit_length")
    d = v.int_fn("digit", 0, 1)
    m, i = z3.Int("bm"), z3.Int("bi")
    it.axioms += [L >= 1, z3.ForAll([m], z3.Implies(z3.And(m >= 1, number < _pow2(m)), L <= m), patterns=[_pow2(m)])]
    it.axioms.append(big_sum(it, L, i, it.binop("**", 2, i) * d(L - 1 - i)) == number)
    DIGIT = Iface("character", ops={"int": lambda it, s: z3.Function("digit_of", U, z3.IntSort())(s.term)})
    ch = z3.Function("digit_char", z3.IntSort(), U)
    it.axioms.append(z3.ForAll([i], z3.Function("digit_of", U, z3.IntSort())(ch(i)) == d(i), patterns=[ch(i)]))

    def bin_(it, a, k):
        if not it.valid(it.eq(a[0], number)):
            raise Unsupported("bin of another number")
        return Seq.of(["0", "b"]) + v.seq("digits", L, lambda j: SU(ch(j), DIGIT))
    it.builtins["bin"] = Builtin("bin", bin_)
    return L, d


@P.obligation("dec2bin: the digits of the number, padded with zeros on the left", targets=[UM + "dec2bin"])
def _(v):
    number, length = z3.Int("number"), z3.Int("length")
    v.assume(z3.And(number >= 0, length >= 1, number < v.it.pow2(length)))
    L, d = bin_contract(v, number)
    r = v.it.as_seq(v.call(UM + "dec2bin", number, length))
    v.prove(v.it.seq_len(r) == length, "length")
    v.same(r, v.seq("zeros", length - L, lambda i: z3.IntVal(0)) + v.seq("digits", L, lambda i: d(i)), "bits")


@P.obligation("dec2bin rejects numbers that do not fit", targets=[UM + "dec2bin"])
def _(v):
    number, length = z3.Int("number"), z3.Int("length")
    v.assume(z3.And(length >= 0, number >= v.it.pow2(length)))
    bin_contract(v, number)
    v.raises((SystemExit, ValueError), lambda: v.call(UM + "dec2bin", number, length), "rejected")


@P.obligation("dec2bin then bin2dec: leading zeros do not change the value (induction on the position)", targets=[UM + "dec2bin", UM + "bin2dec"])
def _(v):
    # S(k): partial sums of bin2dec on the padded list, T(k): on the digits alone
    S, T = (z3.Function(f, z3.IntSort(), z3.IntSort()) for f in "ST")
    d, x = v.int_fn("d", 0, 1), z3.Function("x", z3.IntSort(), z3.IntSort())
    n, L, k, j = z3.Ints("n L k j")
    v.assume(z3.And(1 <= L, L <= n, k >= 0, k < n))
    v.it.axioms += [z3.ForAll([j], x(j) == z3.If(j < n - L, 0, d(j - (n - L))), patterns=[x(j)])]
    s1 = S(k) + _pow2(k) * x(n - 1 - k)
    t1 = T(k) + _pow2(k) * d(L - 1 - k)
    v.prove(z3.Implies(z3.And(k < L, S(k) == T(k)), s1 == t1), "step inside the digits")
    v.prove(z3.Implies(z3.And(k >= L, S(k) == T(L)), s1 == T(L)), "step inside the padding")


@P.obligation("bin2dec then dec2bin: the value of n bits is below 2^n, and equal values have equal bits (induction)", targets=[UM + "bin2dec"])
def _(v):
    S, T = (z3.Function(f, z3.IntSort(), z3.IntSort()) for f in "ST")
    x, y = v.int_fn("x", 0, 1), v.int_fn("y", 0, 1)
    k = z3.Int("k")
    v.assume(k >= 0)
    p = _pow2(k)
    v.it.axioms += [_pow2(k + 1) == 2 * p, p >= 1]
    # partial value of the k lowest bits; bit k enters with weight 2^k
    inv = lambda F: z3.And(F(k) >= 0, F(k) < p)
    v.assume(z3.And(inv(S), inv(T)))
    s1, t1 = S(k) + p * x(k), T(k) + p * y(k)
    v.prove(z3.And(s1 >= 0, s1 < _pow2(k + 1)), "value below 2^(k+1)")
    v.prove(z3.Implies(s1 == t1, z3.And(x(k) == y(k), S(k) == T(k))), "equal values have equal bits")


def shapes(v, f):
    for sh in ((0,), (1,), (3,), (2, 2), (2, 3), (2, 1, 2)):
        n = 1
        for q in sh:
            n *= q
        f(sh, n)


@P.obligation("arrays to dictionaries and back", targets=[UM + "convert_array_to_dict", UM + "convert_dict_to_array"], bound="shapes (1), (3), (2,2), (2,3), (2,1,2); all entries")
def _(v):
    def real(sh, n):
        if n:
            vals = [z3.Real(f"a{i}") for i in range(n)]
            a = v.it.new_arr(vals, sh)
            v.same(v.call(UM + "convert_dict_to_array", v.call(UM + "convert_array_to_dict", a)), v.it.new_arr(vals, sh), f"real array of shape {sh}")
    shapes(v, real)

    def cplx(sh, n):
        if n:
            vals = [SC(z3.Real(f"a{i}"), z3.Real(f"b{i}")) for i in range(n)]
            a = v.it.new_arr(vals, sh)
            v.same(v.call(UM + "convert_dict_to_array", v.call(UM + "convert_array_to_dict", a)), v.it.new_arr(vals, sh), f"complex array of shape {sh}")
    shapes(v, cplx)


@P.obligation("tuples to bitstrings: the digits of each tuple joined in order, tuples in order", targets=[UM + "convert_tuples_to_bitstrings"])
def _(v):
    n = v.int("n", 0)
    ln = v.int_fn("length", 0)
    x = z3.Function("bit", z3.IntSort(), z3.IntSort(), z3.IntSort())
    s = v.seq("tuples", n, lambda i: v.seq("bits", ln(i), lambda j: x(i, j)))
    it = v.it
    text = lambda i: it.opaque_app("join", ["", v.seq("digits", ln(i), lambda j: it.builtins["str"].fn(it, [x(i, j)], {}))])
    r = v.call(UM + "convert_tuples_to_bitstrings", v.list(s))
    v.same(it.as_seq(r), v.seq("strings", n, text), "strings")


def files(v):
    """contract of ensure_open (a path is opened, an open file is passed on)"""
    v.contract(C + "serialization:ensure_open", lambda it, a, k: it.builtins["open"].fn(it, a, k))


@P.obligation("lists, dictionaries, timings and measurement estimates: file round trip", targets=[UM + "save_list", UM + "load_list", UM + "save_nmeas_estimate", UM + "load_nmeas_estimate"])
def _(v):
    s = v.opaque_seq("items", v.int("n", 0))
    l = v.list(s)
    v.call(UM + "save_list", l, "list.json")
    v.same(v.it.as_seq(v.call(UM + "load_list", "list.json")), s, "list from file")
    with_handle = v.call(v.it.builtins["open"], "list.json", "r")
    v.same(v.it.as_seq(v.call(UM + "load_list", with_handle)), s, "list from file object")
    v.same(v.it.as_seq(l), s, "saving leaves the list alone")
    k, t = v.real("K"), v.int("n_terms", 0)
    fr = [z3.Real(f"f{i}") for i in range(3)]
    v.call(UM + "save_nmeas_estimate", k, t, "n.json", v.it.new_arr(fr, (3,)))
    a, b, c_ = v.call(UM + "load_nmeas_estimate", "n.json")
    v.prove(a == k, "number of measurements")
    v.prove(b == t, "number of terms")
    v.same(c_, v.it.new_arr(fr, (3,)), "measurements per frame")


@P.obligation("arrays: file round trip", targets=[C + "serialization:save_array", C + "serialization:load_array"], bound="shapes (3), (2,2); real and complex entries")
def _(v):
    files(v)
    for sh in ((3,), (2, 2)):
        for cplx in (False, True):
            n = 3 if len(sh) == 1 else 4
            vals = [SC(z3.Real(f"a{i}"), z3.Real(f"b{i}")) if cplx else z3.Real(f"a{i}") for i in range(n)]
            v.call(C + "serialization:save_array", v.it.new_arr(vals, sh), "a.json")
            v.same(v.call(C + "serialization:load_array", "a.json"), v.it.new_arr(vals, sh), f"shape {sh}")
