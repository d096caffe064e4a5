"""Bounded contracts for C13 (expectation values and parities)."""
import itertools, math, warnings
import numpy as np
from native_lib import clause
from zquantum.core.measurement import (ExpectationValues, Measurements, Parities, check_parity, check_parity_of_vector, concatenate_expectation_values, expectation_values_to_real,
                                       get_expectation_value_from_frequencies, get_expectation_values_from_parities, get_parities_from_measurements, load_expectation_values,
                                       load_parities, save_expectation_values, save_parities)
from zquantum.core.openfermion.ops import IsingOperator, QubitOperator


def operator(t, n, k):
    op = IsingOperator()
    for _ in range(k):
        qs = t.rng.sample(range(n), t.rng.randint(0, min(n, 3)) if t.rng.random() < .8 else t.rng.randint(0, n))
        op += IsingOperator(tuple((q, "Z") for q in sorted(qs)), t.rng.choice([1, -1, .5, -2.25, 3, t.rng.uniform(-2, 2)]))
    return op


def record(t, n, k):
    pool = [tuple(t.rng.randint(0, 1) for _ in range(n)) for _ in range(t.rng.randint(1, 5))]
    return [t.rng.choice(pool) for _ in range(k)]


def sign(bits, qs):
    return (-1) ** sum(int(bits[q]) for q in qs)


def qubits(term):
    return [f[0] for f in term]


def mean(b, f):
    return sum(f(x) for x in b) / len(b)


@clause("expectation values, correlations, covariances", budget=40)
def _(t):
    for _ in range(t.n(160)):
        n, k = t.rng.choice([1, 2, 3, 4, 5, 6, 12, 24, 70]), t.rng.choice([1, 2, 3, 10, 57])
        b, op = record(t, n, k), operator(t, n, t.rng.randint(0, 5))
        for bessel in (False, True):
            if bessel and k == 1:
                continue
            with t.case(f"{op.terms} record {b} bessel {bessel}", trivial=not op.terms):
                keep = dict(op.terms)
                m = Measurements(list(b))
                r = m.get_expectation_values(op, bessel) if bessel else m.get_expectation_values(op)
                t.eq(op.terms, keep, "operator unchanged")
                t.eq(m.bitstrings, b, "record unchanged")
                T = list(keep.items())
                v = [c * mean(b, lambda x: sign(x, qubits(s))) for s, c in T]
                t.close(r.values, v, "expectation values, in term order", 1e-10)
                cor = np.array([[c1 * c2 * mean(b, lambda x: sign(x, qubits(s1)) * sign(x, qubits(s2))) for s2, c2 in T] for s1, c1 in T]).reshape(len(T), len(T))
                t.eq(len(r.correlations), 1, "one frame")
                t.close(r.correlations[0], cor, "correlations", 1e-10)
                t.eq(len(r.estimator_covariances), 1, "one frame")
                t.close(r.estimator_covariances[0], (cor - np.outer(v, v)) / (k - 1 if bessel else k), "covariances", 1e-10)
    for bad in (QubitOperator("X0"), QubitOperator("Z0"), "Z0", None):
        with t.case(f"not an Ising operator {bad!r}"):
            t.raises(TypeError, lambda: Measurements([(0,), (1,)]).get_expectation_values(bad), "operator type")
            t.raises(TypeError, lambda: get_parities_from_measurements([(0,), (1,)], bad), "operator type")
    for c in ("X0", "Z0 Y1", ((0, "X"),)):
        with t.case(f"non-Z factor {c!r}"):
            t.raises(ValueError, lambda: IsingOperator(c), "non-Z factor")


@clause("parities", budget=40)
def _(t):
    for n in range(1, 6):
        for bits in itertools.product((0, 1), repeat=n):
            for r in range(n + 1):
                for qs in itertools.combinations(range(n), r):
                    want = sum(bits[q] for q in qs) % 2 == 0
                    with t.case(f"parity of {bits} on {qs}", trivial=r == 0):
                        t.eq(bool(check_parity(bits, qs)), want, "tuple")
                        t.eq(bool(check_parity("".join(map(str, bits)), qs)), want, "string")
                        t.eq(bool(check_parity(list(np.array(bits)), list(qs)[::-1])), want, "numpy bits, other qubit order")
                        f = get_expectation_value_from_frequencies(qs, {"".join(map(str, bits)): 3})
                        t.ok(f == (1 if want else -1) and type(f) is float, f"sign {f}")
    for _ in range(t.n(120)):
        n, k = t.rng.choice([1, 2, 3, 4, 5, 12, 24, 70]), t.rng.choice([1, 2, 5, 40, 130])
        b, op = record(t, n, k), operator(t, n, t.rng.randint(0, 5))
        with t.case(f"{op.terms} record {b}", trivial=not op.terms):
            keep = dict(op.terms)
            p = get_parities_from_measurements(list(b), op)
            t.eq(op.terms, keep, "operator unchanged")
            T = list(keep)
            want = [[sum(sign(x, qubits(s)) == 1 for x in b), sum(sign(x, qubits(s)) == -1 for x in b)] for s in T]
            t.close(np.array(p.values).reshape(len(T), 2), np.array(want).reshape(len(T), 2), "even and odd counts per term", 0)
            cor = np.array([[[sum(sign(x, qubits(a)) == sign(x, qubits(c)) for x in b), sum(sign(x, qubits(a)) != sign(x, qubits(c)) for x in b)] for c in T] for a in T]).reshape(len(T), len(T), 2)
            t.eq(len(p.correlations), 1, "one frame")
            t.close(p.correlations[0], cor, "even and odd counts of products", 0)
            if T:
                e = get_expectation_values_from_parities(p)
                t.close(e.values, [mean(b, lambda x: sign(x, qubits(s))) for s in T], "means from parities", 1e-10)
                for (ev, od), cv in zip(want, e.estimator_covariances):
                    q = ev / k
                    pr = 2 * math.sqrt(q * (1 - q) / k) if k >= 100 and .1 <= q <= .9 else 1 / math.sqrt(k)
                    t.close(cv, [[pr ** 2]], "precision squared", 1e-10)
                m = Measurements(b).get_expectation_values(op)
                t.close(m.values, np.array(e.values) * list(keep.values()), "means agree with the expectation values", 1e-10)
            fr = Measurements(b).get_counts()
            for s in T:
                t.close(get_expectation_value_from_frequencies(qubits(s), fr), mean(b, lambda x: sign(x, qubits(s))), "value from frequencies", 1e-10)
            save_parities(p, "p.json")
            l = load_parities("p.json")
            t.close(np.array(l.values).ravel(), np.array(p.values).ravel(), "values from file", 0)
            if T:
                t.close(l.correlations[0], p.correlations[0], "correlations from file", 0)
    with t.case("no samples"):
        t.raises(ValueError, lambda: get_expectation_values_from_parities(Parities(np.array([[1, 2], [0, 0]]))), "no samples")


def ev(t, cplx=None):
    k = t.rng.randint(0, 4)
    c = t.rng.random() < .4 if cplx is None else cplx
    f = (lambda *s: t.np_rng.normal(size=s) + 1j * t.np_rng.normal(size=s)) if c else (lambda *s: t.np_rng.normal(size=s))
    has = t.rng.random() < .7, t.rng.random() < .7
    sizes = [t.rng.randint(1, 3) for _ in range(t.rng.randint(1, 2))]
    return ExpectationValues(f(k), [f(s, s) for s in sizes] if has[0] else None, [f(s, s) for s in sizes] if has[1] else None)


def snap(e):
    return (np.array(e.values).tolist(), None if e.correlations is None else [x.tolist() for x in e.correlations],
            None if e.estimator_covariances is None else [x.tolist() for x in e.estimator_covariances])


@clause("post-processing and files", budget=20)
def _(t):
    for _ in range(t.n(150)):
        l = [ev(t) for _ in range(t.rng.randint(0, 4))]
        keep = [snap(e) for e in l]
        with t.case(f"{keep}", trivial=not l):
            for src in (list, iter):
                r = concatenate_expectation_values(src(l))
                t.eq(snap(r)[0], [x for s in keep for x in s[0]], "values, in order")
                for i, name in ((1, "correlations"), (2, "covariances")):
                    want = [x for s in keep if s[i] for x in s[i]]
                    t.eq(snap(r)[i] or [], want, f"{name}, in order")
                t.eq([snap(e) for e in l], keep, "inputs unchanged")
            for e, k in zip(l, keep):
                save_expectation_values(e, "e.json")
                x = load_expectation_values("e.json")
                t.eq(snap(x), k, "from file")
                with open("e.json") as f:
                    t.eq(snap(load_expectation_values(f)), k, "from file object")
                t.eq(snap(e), k, "saving leaves the values alone")
                y = expectation_values_to_real(ExpectationValues(np.array(e.values), list(e.correlations) if e.correlations else None, e.estimator_covariances))
                t.ok(not np.iscomplexobj(y.values), "real values")
                t.eq(list(y.values), [complex(v).real for v in k[0]], "real parts, in order")
                if e.correlations:
                    t.eq(len(y.correlations), len(e.correlations), "number of correlation frames")
                    for a, b in zip(y.correlations, e.correlations):
                        t.ok(not np.iscomplexobj(a), "real correlations")
                        t.eq(a.tolist(), b.real.tolist(), "real parts of the correlations")


@clause("histories: records that grow, operators that change, repeated objects", budget=20)
def _(t):
    for _ in range(t.n(60)):
        n = t.rng.choice([1, 2, 3, 11])
        op, b = operator(t, n, t.rng.randint(1, 4)), record(t, n, t.rng.randint(1, 6))
        m = Measurements(list(b))
        steps = [t.rng.choice(["eval", "eval", "grow", "counts", "append", "coefficient", "zero", "term", "negate"]) for _ in range(7)] + ["eval"]
        with t.case(f"{dict(op.terms)} {b} {steps}"):
            for kind in steps:
                if kind == "eval":
                    T = list(op.terms.items())
                    v = [c * mean(b, lambda x: sign(x, qubits(s))) for s, c in T]
                    r = m.get_expectation_values(op)
                    t.close(r.values, v, "expectation values", 1e-10)
                    cor = np.array([[c1 * c2 * mean(b, lambda x: sign(x, qubits(s1)) * sign(x, qubits(s2))) for s2, c2 in T] for s1, c1 in T]).reshape(len(T), len(T))
                    t.close(r.correlations[0], cor, "correlations", 1e-10)
                    t.close(r.estimator_covariances[0], (cor - np.outer(v, v)) / len(b), "covariances", 1e-10)
                    p = get_parities_from_measurements(m.bitstrings, op)
                    t.close(np.array(p.values).reshape(len(T), 2), [[sum(sign(x, qubits(s)) == e for x in b) for e in (1, -1)] for s, _c in T], "parities", 0)
                    r.values[:] = 0          # what the caller does with the result is its own affair
                    r.correlations[0][:] = 7
                    for a in p.values:
                        a[:] = 0
                elif kind in ("grow", "counts"):
                    x = tuple(t.rng.randint(0, 1) for _ in range(n))
                    c = t.rng.randint(0, 3)
                    b = b + [x] * c
                    m.add_counts({"".join(map(str, x)): c})
                elif kind == "append":
                    x = tuple(t.rng.randint(0, 1) for _ in range(n))
                    b = b + [x]
                    m.bitstrings = m.bitstrings + [x]
                elif kind in ("coefficient", "zero", "negate"):
                    k = t.rng.choice(list(op.terms))
                    op.terms[k] = 0.0 if kind == "zero" else -op.terms[k] if kind == "negate" else t.rng.uniform(-2, 2)
                elif kind == "term":
                    op += IsingOperator(tuple((q, "Z") for q in sorted(t.rng.sample(range(n), t.rng.randint(0, n)))), 1.5)
        e = ev(t)
        with t.case(f"repeated object {snap(e)}"):
            k = snap(e)
            r = concatenate_expectation_values([e, e])
            t.eq(snap(r)[0], k[0] * 2, "values twice")
            for i in (1, 2):
                t.eq(snap(r)[i] or [], (k[i] or []) * 2, "frames twice")
            r2 = concatenate_expectation_values([r, e, r])
            t.eq(snap(r2)[0], k[0] * 5, "values five times")
            t.eq(snap(e), k, "input unchanged")
            t.eq(snap(r)[1] or [], (k[1] or []) * 2, "intermediate result unchanged")
