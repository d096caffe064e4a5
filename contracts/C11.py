"""C11: wavefunctions.  Numeric states with symbolic complex amplitudes (arrays of the given sizes, numpy views modelled
exactly); construction and probabilities for any number of amplitudes."""
from pyvc.contract import Property
from pyvc.loops import big_sum
from .spec import *

P = Property("C11", trusted=["float arithmetic is read as exact"])
WM = C + "wavefunction:"
W = WM + "Wavefunction"
R = z3.RealSort()


SQ = z3.Function("squared_magnitude", U, R)      # |a|^2 of a complex number
SQRT = z3.Function("sqrt", R, R)


def mag(it, a):
    it.assume(SQ(a.term) >= 0)
    return SQRT(SQ(a.term))


AMP = Iface("amplitude", ops={"abs": mag}, classes={"complex", "complex128"})


def amp(name):
    return SU(z3.Const(name, U), AMP)


def amps(v, n, name="a"):
    r = [amp(f"{name}{i}") for i in range(n)]
    for x in r:
        v.assume(SQ(x.term) >= 0)
    return r


def weight(l):
    return z3.Sum([z3.RealVal(0)] + [SQ(x.term) for x in l])


TOL = z3.Q(1, 10 ** 8) + z3.Q(1, 10 ** 5)


def unit(l):
    w = weight(l)
    return z3.And(w - 1 <= TOL, 1 - w <= TOL)


def content(v, w):
    return v.it.as_seq(v.attr(w, "amplitudes")).concrete()


def state(v, n, name="a"):
    l = amps(v, n, name)
    v.assume(unit(l))
    return l, v.call(W, v.it.new_arr(l, (n,)))


def same(v, got, want, why):
    v.prove(len(got) == len(want), f"{why}: number of amplitudes")
    v.prove(v.it.and_([v.it.eq(a, b) for a, b in zip(got, want)]), why)


def construct(n):
    @P.obligation(f"construction from {n} amplitudes is accepted exactly for normalized vectors of 2^n amplitudes, which it keeps in order", targets=[W + ".__init__", W + "._check_normalization"], bound=f"{n} amplitudes, any values")
    def _(v):
        l = amps(v, n)
        for how in ("array", "list", "column"):
            arg = v.list(list(l)) if how == "list" else v.it.new_arr(l, (n,) if how == "array" else (n, 1))
            try:
                w = v.call(W, arg)
            except PyExc as e:
                v.prove(e.value.cls is ValueError, "ValueError")
                if n in (1, 2, 4, 8):
                    v.prove(z3.Not(unit(l)), f"a normalized vector of {n} amplitudes is accepted")
                continue
            v.prove(n in (1, 2, 4, 8) and unit(l), f"{n} amplitudes: accepted, so normalized")
            v.same(content(v, w), l, "amplitudes")
            v.prove(v.it.eq(v.attr(w, "n_qubits"), n.bit_length() - 1), "number of qubits")
            v.prove(v.it.eq(v.it.length(w), n), "length")
            v.prove(v.attr(w, "_amplitude_vector").ref != getattr(arg, "ref", None), "own array")


for _n in range(1, 10):
    construct(_n)


INDICES = [("element", None)] + [(f"slice {a}:{b}:{c}", VSlice(a, b, c)) for a, b, c in ((None, None, None), (0, 2, None), (1, None, 2), (None, None, -1), (2, 2, None), (-1, None, None))]


def assign(n, what, ix):
    @P.obligation(f"assigning to {what} of {n} amplitudes leaves a normalized state with exactly those amplitudes changed, or raises and leaves the state as it was", targets=[W + ".__setitem__", W + "._check_normalization"], bound=f"{n} amplitudes, any values")
    def _(v):
        l, w = state(v, n)
        pos = v.int("k", -n - 1, n) if ix is None else ix
        for scalar in (True, False) if ix is not None else (True,):
            sel = None if ix is None else list(range(n))[ix.a:ix.b:ix.c]
            val = amp("x") if scalar else v.it.new_arr(amps(v, len(sel), "y"), (len(sel),))
            before = content(v, w)
            try:
                v.it.setitem(w, pos, val)
            except PyExc as e:
                after = content(v, w)
                v.same(after, before, "unchanged after an error")
                if ix is None:
                    if e.value.cls is IndexError:
                        v.prove(z3.Or(pos < -n, pos >= n), "index out of range")
                    else:
                        v.prove(e.value.cls is ValueError, "ValueError")
                continue
            after = content(v, w)
            if ix is None:
                k = next((k for k in range(n) if v.it.decide(z3.Or(pos == k, pos == k - n))), None)
                v.prove(k is not None, "index in range")
                sel, new = [k], [val]
            else:
                new = [val] * len(sel) if scalar else v.it.arr_vals(val)
            want = list(before)
            for i, x in zip(sel, new):
                want[i] = x
            v.same(after, want, "exactly the assigned amplitudes change")
            v.prove(unit(want), "normalized")


for _n in (2, 4):
    for _w, _i in INDICES:
        assign(_n, _w, _i)


@P.obligation("probabilities are the squared magnitudes in order, for any number of amplitudes", targets=[W + ".get_probabilities", W + ".amplitudes"])
def _(v):
    n = v.int("n", 1)
    f = z3.Function("amp", z3.IntSort(), U)
    i = z3.Int("ai")
    v.it.axioms.append(z3.ForAll([i], SQ(f(i)) >= 0, patterns=[f(i)]))
    w = v.it.new_obj(v.fn(W), {"_amplitude_vector": SArr(v.it.alloc(v.seq("amps", n, lambda j: SU(f(j), AMP))))})
    v.same(v.it.as_seq(v.method(w, "get_probabilities")), v.seq("want", n, lambda j: SQ(f(j))), "probabilities")


def rev(i, n):
    return sum(((i >> k) & 1) << (n - 1 - k) for k in range(n))


def bits(i, n):
    return "".join(str((i >> (n - 1 - q)) & 1) for q in range(n))


@P.obligation("outcome strings, last qubit first, carry the probability of the basis state they name", targets=[W + ".get_outcome_probs"], bound="1 to 4 qubits, any amplitudes")
def _(v):
    for n in range(1, 5):
        l, w = state(v, 2 ** n, f"a{n}_")
        d = v.method(w, "get_outcome_probs")
        items = v.it.heap[d.ref]
        v.prove(isinstance(items, tuple) and sorted(k for k, _ in items) == sorted(bits(i, n)[::-1] for i in range(2 ** n)), f"outcomes {n}")
        for i in range(2 ** n):
            v.prove(v.it.eq(dict(items)[bits(i, n)[::-1]], SQ(l[i].term)), f"probability of state {i} of {n} qubits")


@P.obligation("reversing the qubit order moves the amplitude of every basis state to the state with reversed index bits; twice is the identity", targets=[WM + "flip_amplitudes", WM + "flip_wavefunction", WM + "_flip_bits"], bound="up to 4 qubits, any amplitudes")
def _(v):
    for n in range(5):
        l, w = state(v, 2 ** n, f"a{n}_")
        f = v.call(WM + "flip_wavefunction", w)
        v.same(content(v, f), [l[rev(i, n)] for i in range(2 ** n)], f"reordered {n}")
        v.same(content(v, v.call(WM + "flip_wavefunction", f)), l, f"reordered twice {n}")
        v.same(content(v, w), l, "the argument is left alone")
        v.same(v.it.as_seq(v.call(WM + "flip_amplitudes", v.list(list(l)))).concrete(), [l[rev(i, n)] for i in range(2 ** n)], f"list of amplitudes {n}")


@P.obligation("the zero state", targets=[W + ".zero_state"], bound="1 to 6 qubits")
def _(v):
    for n in range(1, 7):
        w = v.call(v.attr(v.fn(W), "zero_state"), n)
        v.same(content(v, w), [1] + [0] * (2 ** n - 1), f"{n} qubits")
    for n in (0, -1, -7):
        v.raises(ValueError, lambda: v.call(v.attr(v.fn(W), "zero_state"), n), f"{n} qubits")


@P.obligation("Dicke states: equal amplitudes exactly on the states of the given Hamming weight", targets=[W + ".dicke_state", WM + "_get_next_number_with_same_hamming_weight", WM + "_most_significant_set_bit"], bound="1 to 4 qubits, every weight")
def _(v):
    import math
    made = []
    v.contract(W, lambda it, a, k: made.append(it.as_seq(a[0]).concrete()) or v.opaque("state"))
    for n in range(1, 5):
        for k in range(n + 1):
            made.clear()
            v.call(v.attr(v.fn(W), "dicke_state"), n, k)
            c = math.comb(n, k)
            got = made[-1]
            v.prove(len(got) == 2 ** n, f"{n} qubits weight {k}: amplitudes")
            for i, x in enumerate(got):
                if bin(i).count("1") != k:
                    v.prove(v.it.eq(x, 0), f"{n} qubits weight {k}: state {i} is absent")
                else:
                    v.prove(v.it.eq(x, v.it.binop("/", 1, v.it.models["numpy.sqrt"](v.it, [c], {}))), f"{n} qubits weight {k}: state {i}")
        for k in (-1, n + 1):
            v.raises(ValueError, lambda: v.call(v.attr(v.fn(W), "dicke_state"), n, k), f"{n} qubits weight {k}")


@P.obligation("equality compares all amplitudes", targets=[W + ".__eq__"], bound="4 against 4 and 2 amplitudes")
def _(v):
    l, w = state(v, 4)
    m, x = state(v, 4, "b")
    r = v.it.eq(w, x)
    v.prove(to_z3_bool(r) == z3.And([a.term == b.term for a, b in zip(l, m)]), "equal iff all amplitudes are")
    _, y = state(v, 2, "c")
    v.prove(v.it.not_(v.it.eq(w, y)), "different numbers of qubits")
    v.prove(v.it.not_(v.it.eq(w, 3)), "not a wavefunction")


@P.obligation("a saved state is loaded again", targets=[C + "measurement:save_wavefunction", C + "measurement:load_wavefunction"])
def _(v):
    k = z3.Function("array_dict", U, U)

    def back(it, a, kw):
        t = a[0].term
        if not (z3.is_app(t) and t.decl().name() == "array_dict"):
            raise Unsupported("not the dictionary of an array")
        return SU(t.arg(0), OPAQUE)
    v.contract(C + "utils:convert_array_to_dict", lambda it, a, kw: SU(k(a[0].term), OPAQUE))
    v.contract(C + "utils:convert_dict_to_array", back)
    v.contract(C + "serialization:ensure_open", lambda it, a, k: it.builtins["open"].fn(it, a, k))
    made = []
    v.contract(W, lambda it, a, kw: made.append(a[0]) or v.opaque("loaded"))
    l = v.opaque("amplitudes")
    w = v.opaque("state", Iface("state", attrs={"amplitudes": lambda it, s: l}))
    v.call(C + "measurement:save_wavefunction", w, "x.json")
    r = v.call(C + "measurement:load_wavefunction", "x.json")
    v.prove(len(made) == 1, "one state")
    v.same(made[0], l, "amplitudes")
    v.same(r, v.opaque("loaded"), "result")


# ---- symbolic states
def mixed(v, nums, syms):
    """a sympy vector: numeric amplitudes first, then symbols"""
    return v.it.new_arr([v.gen(f"x{i}") if j else v.real(f"a{i}") for i, j in enumerate([0] * nums + [1] * syms)], (nums + syms, 1), "sympy")


@P.obligation("states with symbols: the numeric part may not exceed probability one", targets=[W + ".__init__", W + "._check_normalization"], bound="4 amplitudes, 1 to 4 of them symbols; real numeric amplitudes")
def _(v):
    for s in (1, 2, 4):
        m = mixed(v, 4 - s, s)
        tot = z3.Sum([z3.RealVal(0)] + [x * x for x in v.it.arr_vals(m) if is_z3(x)])
        try:
            w = v.call(W, m)
        except PyExc as e:
            v.prove(e.value.cls is ValueError and tot > 1, f"rejected, so above one {s}")
            continue
        v.prove(tot <= 1, f"accepted, so at most one {s}")
        v.same(v.it.arr_vals(v.attr(w, "_amplitude_vector")), v.it.arr_vals(m), f"amplitudes {s}")


def symbolic_state(v, seen):
    syms = z3.Const("symbols", U)
    vec = v.opaque("vector", Iface("matrix", classes={"Matrix", "MutableDenseMatrix", "MatrixBase"}, attrs={"free_symbols": lambda it, s: SU(syms, Iface("set", truth=lambda it, s: z3.Bool("has symbols")))},
                                   methods={"subs": lambda it, s, a, k: seen.append((a, k)) or v.opaque("substituted")}))
    return v.it.new_obj(v.fn(W), {"_amplitude_vector": vec})


@P.obligation("binding builds a new state from the vector with all symbols substituted at once, an error is a ValueError, and the state itself is left alone", targets=[W + ".bind", W + ".free_symbols"])
def _(v):
    seen, made = [], []

    def construct(it, a, k):
        made.append(a[0])
        if it.decide(z3.Bool("violates unity")):
            raise PyExc(ExcInst(ValueError, ("unity",)))
        return v.opaque("bound state")
    w = symbolic_state(v, seen)
    v.contract(W, construct)
    m = v.opaque("symbol map")
    before = v.attr(w, "_amplitude_vector")
    try:
        r = v.method(w, "bind", m)
    except PyExc as e:
        v.prove(e.value.cls is ValueError, "ValueError")
        v.prove(z3.Bool("violates unity"), "rejected, so not a state")
    else:
        if not v.it.decide(z3.Bool("has symbols")):
            v.same(r, w, "nothing to bind")
            v.prove(not made, "no new state")
            return
        v.prove(z3.Not(z3.Bool("violates unity")), "accepted, so a state")
        v.same(r, v.opaque("bound state"), "the new state")
    v.prove(len(seen) == 1 and len(made) == 1, "one substitution")
    v.same(seen[0][0][0], m, "the given map")
    v.prove(seen[0][1].get("simultaneous") is True, "all symbols at once")
    v.same(made[0], v.opaque("substituted"), "the substituted vector")
    v.same(v.attr(w, "_amplitude_vector"), before, "the state is left alone")


@P.obligation("length, iteration and indexing show the amplitudes; symbols are those of the vector", targets=[W + ".__len__", W + ".__iter__", W + ".__getitem__", W + ".free_symbols"], bound="4 amplitudes, any values")
def _(v):
    l, w = state(v, 4)
    v.prove(v.it.eq(v.it.length(w), 4), "length")
    v.same(v.it.iterate(w), Seq.of(l), "iteration")
    for i in range(-4, 4):
        v.same(v.it.getitem(w, i), l[i], f"index {i}")
    v.prove(v.it.eq(v.it.length(v.attr(w, "free_symbols")), 0), "a numeric state has no symbols")
    v.same(v.attr(symbolic_state(v, []), "free_symbols"), SU(z3.Const("symbols", U), OPAQUE), "symbols of the vector")


@P.obligation("sampling draws the outcome strings with their probabilities and returns them first qubit first; fewer than one sample is rejected", targets=[C + "measurement:sample_from_wavefunction"], bound="1 and 2 qubits; any amplitudes; every outcome drawn")
def _(v):
    for n in (1, 2):
        l, w = state(v, 2 ** n, f"a{n}_")
        names = [bits(i, n)[::-1] for i in range(2 ** n)]
        drawn = names + names[::-1] + names[1:]
        seen = []

        def choice(it, s, a, k):
            seen.append(dict(zip(["a", "size", "replace", "p"], a), **k))
            return v.it.new_list(drawn)
        v.it.models["numpy.random.default_rng"] = lambda it, a, k: v.opaque("rng", Iface("rng", methods={"choice": choice}))
        r = v.call(C + "measurement:sample_from_wavefunction", w, len(drawn))
        v.prove(len(seen) == 1 and seen[0].get("replace", True) is True, f"one drawing with replacement {n}")
        o, p = v.it.as_seq(seen[0]["a"]).concrete(), v.it.as_seq(seen[0]["p"]).concrete()
        v.prove(sorted(o) == sorted(names) and v.it.eq(seen[0]["size"], len(drawn)), f"all outcomes, as many samples as asked {n}")
        for x, q in zip(o, p):
            v.prove(v.it.eq(q, SQ(l[int(x[::-1], 2)].term)), f"probability of {x}")
        v.same(v.it.as_seq(r), Seq.of([tuple(int(b) for b in x[::-1]) for x in drawn]), f"samples {n}")
        for k in (0, -3):
            v.raises(ValueError, lambda: v.call(C + "measurement:sample_from_wavefunction", w, k), f"{k} samples")


@P.obligation("numbers of qubits that are not integers are rounded down; weights that are not integers are rejected", targets=[W + ".zero_state", W + ".dicke_state"], bound="samples of numbers")
def _(v):
    for x, n in ((Fraction(2), 2), (Fraction(7, 2), 3)):
        v.same(content(v, v.call(v.attr(v.fn(W), "zero_state"), x)), [1] + [0] * (2 ** n - 1), f"{x} qubits")
    v.raises(ValueError, lambda: v.call(v.attr(v.fn(W), "dicke_state"), 2, Fraction(1, 2)), "half weight")
    v.raises(ValueError, lambda: v.call(v.attr(v.fn(W), "dicke_state"), 2, -1), "negative weight")
