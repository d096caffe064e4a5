"""C13: expectation values and parities; any number of outcomes, terms and marked qubits."""
from pyvc.contract import Property
from pyvc.loops import big_sum
from .spec import *

P = Property("C13", trusted=[])
MM = C + "measurement:"


def count(v, n, f):
    i = z3.Int("ci")
    r = big_sum(v.it, n, i, z3.If(f(i), z3.IntVal(1), z3.IntVal(0)))
    return r if is_z3(r) else z3.IntVal(r)


@P.obligation("check_parity: true iff an even number of the marked bits is 1", targets=[MM + "check_parity"])
def _(v):
    n, m = v.int("n_bits", 1), v.int("n_marked", 0)
    b, q = v.int_fn("bit", 0, 1), v.int_fn("marked", 0)
    j = z3.Int("mj")
    v.it.axioms.append(z3.ForAll([j], q(j) < n, patterns=[q(j)]))
    bits, marked = v.seq("bits", n, lambda i: b(i)), v.seq("marked", m, lambda i: q(i))
    r = v.call(MM + "check_parity", bits, v.list(marked))
    v.prove(to_z3_bool(v.it.truth(r)) == (count(v, m, lambda i: b(q(i)) == 1) % 2 == 0), "parity")


@P.obligation("expectation values from parities: (even - odd) / total for every term; precision squared by the documented rule", targets=[MM + "get_expectation_values_from_parities"])
def _(v):
    n = v.int("n_terms", 0)
    e, o = v.int_fn("even", 0), v.int_fn("odd", 0)
    j = z3.Int("pj")
    v.it.axioms.append(z3.ForAll([j], e(j) + o(j) > 0, patterns=[e(j)]))
    par = v.opaque("parities", Iface("parities", attrs={"values": lambda it, s: v.list(v.seq("values", n, lambda i: (e(i), o(i))))}))
    r = v.call(MM + "get_expectation_values_from_parities", par)
    R = z3.ToReal
    v.same(v.it.as_seq(v.attr(r, "values")), v.seq("means", n, lambda i: (R(e(i)) - R(o(i))) / R(e(i) + o(i))), "values")
    N = lambda i: R(e(i)) + R(o(i))
    p = lambda i: R(e(i)) / N(i)
    mat = lambda x: v.it.new_arr([x], (1, 1))
    regular = lambda i: z3.And(e(i) + o(i) >= 100, p(i) >= z3.Q(1, 10), p(i) <= z3.Q(9, 10))
    v.same(v.it.as_seq(v.attr(r, "estimator_covariances")), v.seq("covariances", n, lambda i: mat(1 / N(i)), [(regular, lambda i: mat(4 * p(i) * (1 - p(i)) / N(i)))]), "squared precision")
    v.prove(v.attr(r, "correlations") is None, "no correlations")


@P.obligation("expectation values from parities reject a term without samples", targets=[MM + "get_expectation_values_from_parities"])
def _(v):
    n = v.int("n_terms", 1)
    e, o = v.int_fn("even", 0), v.int_fn("odd", 0)
    k = v.int("k", 0)
    v.assume(z3.And(k < n, e(k) + o(k) == 0))
    par = v.opaque("parities", Iface("parities", attrs={"values": lambda it, s: v.list(v.seq("values", n, lambda i: (e(i), o(i))))}))
    v.raises(ValueError, lambda: v.call(MM + "get_expectation_values_from_parities", par), "rejected")


EV = MM + "ExpectationValues"


def cat(parts):
    r = Seq()
    for p in parts:
        r = r + p
    return r


def arr(v, s):
    return SArr(v.it.alloc(s))


def evs(v, values, corr, cov):
    return v.call(EV, values, corr, cov)


@P.obligation("concatenation keeps the values, correlations and covariances of all objects in order, and leaves them alone", targets=[MM + "concatenate_expectation_values"], bound="up to 3 objects; each with or without correlations and covariances; any number of values and frames")
def _(v):
    for pat in ((), (3,), (0,), (3, 0), (1, 2), (0, 3), (3, 1, 0), (2, 3, 3)):
        objs, vals, cors, covs = [], [], [], []
        for i, p in enumerate(pat):
            x = v.seq(f"val{i}", v.int(f"n{i}", 0), lambda j, i=i: z3.Function(f"x{i}", z3.IntSort(), z3.RealSort())(j))
            a, b = v.opaque_seq(f"cor{i}", v.int(f"f{i}", 1)), v.opaque_seq(f"cov{i}", v.int(f"g{i}", 1))
            o = evs(v, arr(v, x), v.list(a) if p & 1 else None, v.list(b) if p & 2 else None)
            objs.append((o, x, a if p & 1 else None, b if p & 2 else None))
            vals.append(x)
            cors += [a] if p & 1 else []
            covs += [b] if p & 2 else []
        r = v.call(MM + "concatenate_expectation_values", v.list(list([o[0] for o in objs])))
        v.same(v.it.as_seq(v.attr(r, "values")), cat(vals), f"values {pat}")
        for name, parts in (("correlations", cors), ("estimator_covariances", covs)):
            g = v.attr(r, name)
            if parts:
                v.same(v.it.as_seq(g), cat(parts), f"{name} {pat}")
            else:
                v.prove(g is None, f"no {name} {pat}")
        for o, x, a, b in objs:
            v.same(v.it.as_seq(v.attr(o, "values")), x, f"argument's values {pat}")
            if a is not None:
                v.same(v.it.as_seq(v.attr(o, "correlations")), a, f"argument's correlations {pat}")
            if b is not None:
                v.same(v.it.as_seq(v.attr(o, "estimator_covariances")), b, f"argument's covariances {pat}")


@P.obligation("real part of expectation values, any number of values and frames", targets=[MM + "expectation_values_to_real"])
def _(v):
    R = lambda name: z3.Function(name, z3.IntSort(), z3.RealSort())
    a, b = R("a"), R("b")
    for cplx in (False, True):
        vals = v.seq("values", v.int("n", 0), lambda j: SC(a(j), b(j)) if cplx else a(j))
        for fr in (False, True):
            m = [(R(f"m{i}"), R(f"k{i}")) for i in range(4)]
            mats = v.seq("frames", v.int("f", 1), lambda j: v.it.new_arr([SC(x(j), y(j)) if cplx else x(j) for x, y in m], (2, 2)))
            e = evs(v, arr(v, vals), v.list(mats) if fr else None, None)
            r = v.call(MM + "expectation_values_to_real", e)
            v.same(v.it.as_seq(v.attr(r, "values")), v.seq("want", v.int("n", 0), lambda j: a(j)), f"values {cplx} {fr}")
            if fr:
                v.same(v.it.as_seq(v.attr(r, "correlations")), v.seq("wantf", v.int("f", 1), lambda j: v.it.new_arr([x(j) for x, _ in m], (2, 2))), f"correlations {cplx}")
            else:
                v.prove(v.attr(r, "correlations") is None, f"no correlations {cplx}")


def arrays(v):
    """contract of the array <-> dictionary conversions (proved under C28): inverse to each other"""
    k = z3.Function("array_dict", U, U)

    def back(it, a, kw):
        t = a[0].term
        if not (z3.is_app(t) and t.decl().name() == "array_dict"):
            raise Unsupported("not the dictionary of an array")
        return SU(t.arg(0), ARR)
    v.contract(C + "utils:convert_array_to_dict", lambda it, a, kw: SU(k(a[0].term), OPAQUE))
    v.contract(C + "utils:convert_dict_to_array", back)


ARR = Iface("array")


def round_trips(v, make, save, load, name, fields):
    """both the dictionary and the file round trip, with and without each optional list; lists of any length"""
    arrays(v)
    v.contract(C + "serialization:ensure_open", lambda it, a, k: it.builtins["open"].fn(it, a, k))
    for p in range(2 ** (len(fields) - 1)):
        def cond(v=v, p=p):
            val = v.opaque("values", ARR)
            opt = [v.opaque_seq(f, v.int(f"n_{f}", 1), ARR) if p >> i & 1 else None for i, f in enumerate(fields[1:])]
            o = make(val, *[None if q is None else v.list(q) for q in opt])
            def compare(r, how):
                v.same(v.attr(r, fields[0]), val, f"{how} values {p}")
                for f, q in zip(fields[1:], opt):
                    if q is None:
                        v.prove(v.attr(r, f) is None, f"{how} no {f} {p}")
                    else:
                        v.same(v.it.as_seq(v.attr(r, f)), q, f"{how} {f} {p}")
            d = v.method(o, "to_dict")
            compare(v.call(v.attr(v.fn(MM + name), "from_dict"), d), "dictionary")
            v.call(MM + save, o, "x.json")
            compare(v.call(MM + load, "x.json"), "file")
            compare(o, "argument")
        cond()


@P.obligation("expectation values: dictionary and file round trips", targets=[EV + ".to_dict", EV + ".from_dict", MM + "save_expectation_values", MM + "load_expectation_values"])
def _(v):
    round_trips(v, lambda a, b, c: evs(v, a, b, c), "save_expectation_values", "load_expectation_values", "ExpectationValues", ["values", "correlations", "estimator_covariances"])


@P.obligation("parities: dictionary and file round trips", targets=[MM + "Parities.to_dict", MM + "Parities.from_dict", MM + "save_parities", MM + "load_parities"])
def _(v):
    round_trips(v, lambda a, b: v.call(MM + "Parities", a, b), "save_parities", "load_parities", "Parities", ["values", "correlations"])


TERMS = [(), ((0, "Z"),), ((1, "Z"),), ((0, "Z"), (2, "Z")), ((1, "Z"), (2, "Z"), (5, "Z"))]


@P.obligation("expectation values of an Ising operator from measurements: coefficient times the frequency mean, products of terms act on the qubits in exactly one of them, covariances (E[PQ] - E[P]E[Q]) / N or / (N - 1)", targets=[MM + "Measurements.get_expectation_values"], bound="1 to 3 terms out of 5; any coefficients, any number of shots")
def _(v):
    counts = v.opaque("counts")
    v.contract(MM + "Measurements.get_counts", lambda it, a, k: counts)

    def mean(qs):
        return z3.RealVal(1) if not qs else z3.Real("E_" + "_".join(map(str, sorted(qs))))

    def freq(it, a, k):
        qs = it.as_seq(a[0]).concrete()
        v.prove(a[1] is counts or getattr(a[1], "term", None) is counts.term, "the counts of these measurements")
        return mean(qs)
    v.contract(MM + "get_expectation_value_from_frequencies", freq)
    shots = v.int("shots", 2)
    for bessel in (False, True):
        for ts in ([0], [3], [1, 3], [0, 4], [3, 1, 4], [4, 3, 2], [2, 0, 1]):
            terms = [TERMS[t] for t in ts]
            co = [z3.Real(f"c{i}") for i in range(len(ts))]
            op = v.opaque("operator", Iface("ising", attrs={"terms": lambda it, s: v.it.new_dict(list(zip(terms, co)))}, classes={"IsingOperator"}))
            m = v.call(MM + "Measurements", v.list(v.opaque_seq("bitstrings", shots)))
            r = v.method(m, "get_expectation_values", op, bessel)
            n = len(ts)
            sets = [frozenset(q for q, _ in t) for t in terms]
            E = [co[i] * mean(sets[i]) for i in range(n)]
            cor = [[co[i] * co[j] * mean(sets[i] ^ sets[j]) for j in range(n)] for i in range(n)]
            den = to_z3_real(shots) - (1 if bessel else 0)
            v.same(v.attr(r, "values"), v.it.new_arr(E, (n,)), f"values {ts}")
            v.same(v.it.as_seq(v.attr(r, "correlations")), Seq([Unit(v.it.new_arr(sum(cor, []), (n, n)))]), f"correlations {ts}")
            v.same(v.it.as_seq(v.attr(r, "estimator_covariances")), Seq([Unit(v.it.new_arr([(cor[i][j] - E[i] * E[j]) / den for i in range(n) for j in range(n)], (n, n)))]), f"covariances {ts} {bessel}")


@P.obligation("get_expectation_values and get_parities_from_measurements accept Ising operators only", targets=[MM + "Measurements.get_expectation_values", MM + "get_parities_from_measurements"])
def _(v):
    m = v.call(MM + "Measurements", v.list(v.opaque_seq("bitstrings", v.int("n", 0))))
    v.raises(TypeError, lambda: v.method(m, "get_expectation_values", v.opaque("operator")), "expectation values")
    v.raises(TypeError, lambda: v.call(MM + "get_parities_from_measurements", v.list([]), v.opaque("operator")), "parities")


@P.obligation("check_parity_of_vector: 1 exactly for the rows whose marked bits have even sum", targets=[MM + "check_parity_of_vector"], bound="up to 3 rows of 4 bits, up to 3 marked qubits; all bit values")
def _(v):
    for rows_ in (1, 3):
        x = [[v.int(f"b{i}{j}", 0, 1) for j in range(4)] for i in range(rows_)]
        for marked in ([], [2], [0, 3], [3, 1, 2]):
            r = v.call(MM + "check_parity_of_vector", v.it.new_arr(sum(x, []), (rows_, 4)), v.list(marked))
            got = v.it.as_seq(r).concrete()
            v.prove(len(got) == rows_, f"one entry per row {rows_} {marked}")
            for i in range(rows_):
                odd = z3.BoolVal(False)
                for q in marked:
                    odd = z3.Xor(odd, x[i][q] == 1)
                v.prove(to_z3_real(got[i]) == z3.If(odd, 0, 1), f"row {i} of {rows_} {marked}")
