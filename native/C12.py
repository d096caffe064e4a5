"""Bounded contracts for C12 (measurement records, counts, distributions)."""
import itertools, math, warnings
from collections import Counter
import numpy as np
from native_lib import clause
from zquantum.core.distribution import MeasurementOutcomeDistribution as MOD
from zquantum.core.measurement import Measurements, convert_bitstring_to_int
from zquantum.core.utils import convert_bitstrings_to_tuples, convert_tuples_to_bitstrings, get_ordered_list_of_bitstrings, sample_from_probability_distribution


def record(t, n, k):
    pool = [tuple(t.rng.randint(0, 1) for _ in range(n)) for _ in range(t.rng.randint(1, 6))]
    return [t.rng.choice(pool) for _ in range(k)]


def text(b):
    return "".join(str(int(x)) for x in b)


@clause("counts, distribution and rebuilding", budget=30)
def _(t):
    for _ in range(t.n(250)):
        n, k = t.rng.randint(1, 6), t.rng.choice([0, 1, 2, 3, 7, 30, 200])
        b = record(t, n, k)
        if t.rng.random() < .3:
            b = [tuple(np.int8(x) for x in y) for y in b]
        keep = list(b)
        with t.case(f"{b}", trivial=k == 0):
            m = Measurements(b)
            c = m.get_counts()
            t.eq(c, dict(Counter(text(x) for x in b)), "counts")
            t.ok(all(type(v) is int for v in c.values()), "counts are integers")
            t.eq(sum(c.values()), k, "counts sum to the number of shots")
            t.eq(m.bitstrings, keep, "counting leaves the record alone")
            r = Measurements.from_counts(c)
            t.eq(Counter(r.bitstrings), Counter(keep), "record rebuilt from counts")
            t.ok(all(type(x) is tuple for x in r.bitstrings), "tuples")
            t.eq(r.get_counts(), c, "counts of the rebuilt record")
            more = record(t, n, t.rng.randint(0, 9))
            mc = dict(Counter(text(x) for x in more))
            mk = dict(mc)
            r.add_counts(mc)
            t.eq(mc, mk, "added counts are not modified")
            t.eq(Counter(r.bitstrings), Counter(keep) + Counter(more), "record after adding counts")
            t.eq(r.bitstrings[:k], Measurements.from_counts(c).bitstrings, "adding counts appends")
            t.eq(r.get_counts(), dict(Counter(text(x) for x in keep + more)), "counts after adding counts")
            r.add_counts(mc)
            t.eq(Counter(r.bitstrings), Counter(keep) + Counter(more) + Counter(more), "record after adding counts twice")
            if k:
                d = m.get_distribution().distribution_dict
                t.eq(set(d), set(tuple(int(x) for x in y) for y in keep), "support of the distribution")
                for o, p in d.items():
                    t.ok(abs(p - keep.count(o) / k) < 1e-12, f"probability of {o}: {p}")
            else:
                t.eq(Measurements().bitstrings, [], "empty record")
                t.eq(Measurements().get_counts(), {}, "no counts")
    with t.case("independent empty records"):
        a, b = Measurements(), Measurements()
        a.add_counts({"01": 2})
        t.eq(b.bitstrings, [], "other record")
        t.eq(Measurements.from_counts({}).bitstrings, [], "record of no counts")
        t.eq(Measurements.from_counts({"01": 0, "10": 2}).bitstrings, [(1, 0)] * 2, "zero count")


@clause("records representing a distribution", budget=60)
def _(t):
    cases = []
    for _ in range(t.n(300)):
        n = t.rng.randint(1, 4)
        sup = t.rng.sample(list(itertools.product((0, 1), repeat=n)), t.rng.randint(1, 2 ** n))
        kind = t.rng.randint(0, 4)
        w = [t.rng.random() + .01 for _ in sup] if kind == 0 else [1] * len(sup) if kind == 1 else [t.rng.choice([0.5, 1.5, 2.5, 1]) for _ in sup] if kind == 2 else \
            [t.rng.choice([1e-6, 1, 1e-3]) for _ in sup] if kind == 3 else [t.rng.choice([0, 1]) for _ in sup]
        if not any(w):
            w[0] = 1
        s = sum(w)
        cases.append(({o: x / s for o, x in zip(sup, w)}, t.rng.choice([0, 1, 2, 3, 5, 7, 10, 33, 100, 1001])))
    for m in range(1, 9):
        for N in range(0, 26, 1 if t.thorough else 2):
            cases.append(({o: 1 / m for o in list(itertools.product((0, 1), repeat=3))[:m]}, N))
    for d, N in cases:
        with t.case(f"{d} shots {N}", trivial=N == 0):
            dist = MOD(d)
            before = dict(dist.distribution_dict)
            np.random.seed(t.rng.randrange(10 ** 6))
            m = Measurements.get_measurements_representing_distribution(dist, N)
            t.eq(dist.distribution_dict, before, "the distribution is not modified")
            t.eq(len(m.bitstrings), N, "number of bitstrings")
            c = Counter(m.bitstrings)
            t.ok(all(before.get(o, 0) > 0 for o in c), "drawn from the support")
            ideal = {o: p * N for o, p in before.items()}
            rounded = {o: int(round(x)) for o, x in ideal.items()}
            diff = {o: c.get(o, 0) - rounded[o] for o in before}
            total = N - sum(rounded.values())
            t.ok(all(v * total >= 0 and abs(v) <= abs(total) and (total or not v) for v in diff.values()), f"rounded ideal frequencies, corrected by {total} shots in total: {dict(c)}, rounded {rounded}")
            t.ok(all(not diff[o] for o in before if abs(ideal[o] - round(ideal[o])) == 0), "outcomes with an integer frequency are not corrected")
            if abs(total) <= 1:
                t.ok(all(abs(c.get(o, 0) - ideal[o]) < 1.5 for o in before), "close to the ideal frequencies")


@clause("files and conversions", budget=20)
def _(t):
    for _ in range(t.n(60)):
        n, k = t.rng.randint(1, 6), t.rng.choice([0, 1, 3, 20])
        b = record(t, n, k)
        conv = t.rng.choice([int, np.int8, np.int64, np.uint8])
        with t.case(f"{b} {conv.__name__}", trivial=k == 0):
            m = Measurements([tuple(conv(x) for x in y) for y in b])
            m.save("m.json")
            r = Measurements.load_from_file("m.json")
            t.eq(r.bitstrings, b, "loaded bitstrings, in order")
            t.ok(all(type(x) is tuple for x in r.bitstrings), "tuples")
            with open("m.json") as f:
                t.eq(Measurements.load_from_file(f).bitstrings, b, "file object")
            s = convert_tuples_to_bitstrings(b)
            t.eq(s, [text(x) for x in b], "strings")
            t.eq(convert_bitstrings_to_tuples(s), b, "tuples again")
            t.eq(convert_bitstrings_to_tuples(iter(s)), b, "any iterable")
            for x in b:
                t.eq(convert_bitstring_to_int(x), sum(v << i for i, v in enumerate(x)), "integer, first bit least significant")
    for n in range(0, 9):
        with t.case(f"bitstrings of length {n}"):
            l = get_ordered_list_of_bitstrings(n)
            t.eq([x for x in l if n], ["".join(p) for p in itertools.product("01", repeat=n)] if n else [], "ordered bitstrings")
    for _ in range(t.n(60)):
        keys = t.rng.sample([(0, 1), (1, 1), "00", "x", 3, (2, 5, 1), None], t.rng.randint(1, 5))
        w = [t.rng.choice([0, 1, 2.5]) for _ in keys]
        if not any(w):
            w[0] = 1
        p = {k: x / sum(w) for k, x in zip(keys, w)}
        N = t.rng.choice([0, 1, 17])
        with t.case(f"sampling {N} from {p}"):
            keep = dict(p)
            np.random.seed(t.rng.randrange(10 ** 6))
            s = sample_from_probability_distribution(p, N)
            t.eq(p, keep, "not modified")
            t.eq(sum(s.values()), N, "number of samples")
            t.ok(all(p[k] > 0 for k in s), "outcomes of positive probability")
    with t.case("sampling from something else"):
        t.raises(RuntimeError, lambda: sample_from_probability_distribution([.5, .5], 3), "not a dictionary")
    with t.case("sampling frequencies", limit=30):
        np.random.seed(5)
        s = sample_from_probability_distribution({(0,): .7, (1,): .2, (2,): .1}, 40000)
        t.ok(abs(s[(0,)] / 40000 - .7) < .02 and abs(s[(1,)] / 40000 - .2) < .02, f"frequencies {s}")
