"""Bounded contracts for C14 (outcome distributions)."""
import itertools, json, math, warnings
import numpy as np
from native_lib import clause
from zquantum.core import distribution as D
from zquantum.core.distribution import MeasurementOutcomeDistribution as MOD
from zquantum.core.wavefunction import Wavefunction

warnings.simplefilter("ignore")


def raw(t, levels=None):
    n = t.rng.randint(1, 4)
    lv = levels or t.rng.choice([2, 2, 3, 10, 12, 130])
    keys = set()
    for _ in range(t.rng.randint(1, 8)):
        keys.add(tuple(t.rng.randrange(lv) for _ in range(n)))
    keys = list(keys)
    t.rng.shuffle(keys)
    w = [t.rng.choice([0, 1, 2, .5, 1e-9, t.rng.random(), 100]) for _ in keys]
    if not any(w):
        w[-1] = 3
    return dict(zip(keys, w))


def normalized(d):
    s = math.fsum(d.values())
    return {k: v / s for k, v in d.items()}


def near(t, got, want, what, tol=1e-9):
    t.eq(list(got), list(want), f"{what}: outcomes")
    for k in want:
        t.ok(abs(got[k] - want[k]) <= tol * (1 + abs(want[k])), f"{what}: probability of {k}: {got[k]}, expected {want[k]}")


def check(t, d, what):
    t.ok(len(d) > 0, f"{what}: outcomes")
    n = {len(k) for k in d}
    t.eq(len(n), 1, f"{what}: equally long outcomes")
    t.ok(all(type(k) is tuple and all(isinstance(x, (int, np.integer)) and x >= 0 for x in k) for k in d), f"{what}: tuples of non-negative integers")
    t.ok(all(v >= 0 for v in d.values()), f"{what}: non-negative probabilities")


@clause("construction normalizes or rejects", budget=30)
def _(t):
    for _ in range(t.n(300)):
        d = raw(t)
        s = t.rng.choice([1, 1, 3, 1e-6, 1e6])
        d = {k: v * s for k, v in d.items()}
        if t.rng.random() < .3:
            d = normalized(d)
        form = t.rng.choice(["tuple", "comma", "digits", "mixed", "numpy"])
        n = len(next(iter(d)))
        small = max(max(k) for k in d) < 10
        conv = {"tuple": lambda k, i: k, "comma": lambda k, i: ",".join(map(str, k)) if n > 1 or small else k, "digits": lambda k, i: "".join(map(str, k)) if small else k,
                "mixed": lambda k, i: ("".join(map(str, k)) if small and i % 3 == 1 else ",".join(map(str, k)) if n > 1 and i % 3 == 2 else k), "numpy": lambda k, i: tuple(np.int64(x) for x in k)}[form]
        inp = {conv(k, i): v for i, (k, v) in enumerate(d.items())}
        keep = dict(inp)
        want = normalized(d)
        with t.case(f"{inp}"):
            r = MOD(inp)
            t.eq(inp, keep, "the caller's dictionary is not modified")
            check(t, r.distribution_dict, "new")
            t.ok(abs(math.fsum(r.distribution_dict.values()) - 1) < 1e-8, "probabilities sum to one")
            t.ok(D.is_normalized(r.distribution_dict) is True, "is normalized")
            near(t, r.distribution_dict, want, "rescaled proportionally")
            t.eq(r.get_number_of_subsystems(), n, "number of subsystems")
            r.distribution_dict[next(iter(r.distribution_dict))] = .123
            t.eq(inp, keep, "own dictionary")
            q = MOD(inp, False)
            near(t, q.distribution_dict, d, "normalization not requested", 0)
            t.eq(D.is_normalized(q.distribution_dict), abs(math.fsum(d.values()) - 1) <= 1e-9, "is_normalized")
            t.ok(D.is_measurement_outcome_distribution(d) is True, "is a distribution")
            p = D.preprocess_distibution_dict(inp)
            near(t, p, d, "tuple keys", 0)
    bad = [{}, {(0,): -1, (1,): 2}, {(0,): .5, (1, 0): .5}, {"0": .5, "10": .5}, {(0, -1): 1}, {(0.5,): 1}, {("0",): 1}, {(0,): 1, (1,): -1e-9}, {(0, 1): float("nan")}, {(None,): 1},
           {(0,): .4, (1,): .6, (0, 0): 0}, {"00": .5, (1,): .5}]
    for d in bad:
        for norm in (True, False):
            with t.case(f"not a distribution {d} {norm}"):
                t.raises(RuntimeError, lambda: MOD(d, norm), "not a distribution")
                if all(isinstance(k, tuple) for k in d):
                    t.ok(D.is_measurement_outcome_distribution(d) is False, "not a distribution")
    for d in ({1: 1.}, {frozenset([1]): 1.}, {"0": .5, 1: .5}, {None: 1}):
        with t.case(f"keys {d}"):
            t.raises(RuntimeError, lambda: MOD(d), "keys that are no outcomes")
    for d in ({"a": 1}, {"0 1": 1}, {"-1": 1}, {"0,-1": 1}, {"0,x": 1}):
        with t.case(f"text keys {d}"):
            t.raises((RuntimeError, ValueError), lambda: MOD(d), "keys that are no outcomes")
    for d in ({(0,): 0, (1,): 0}, {(0,): 0.}, {(0,): 1e-309}, {(0,): 5e-324, (1,): 0}):
        with t.case(f"weights {d}"):
            t.raises(ValueError, lambda: MOD(d), "weights that cannot be normalized")
            near(t, MOD(d, False).distribution_dict, d, "not normalized", 0)
    with t.case("a warning when left unnormalized"):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            MOD({(0,): 2.}, False)
        t.ok(rec, "warning")


@clause("probability vectors and key conversion", budget=20)
def _(t):
    for n in range(1, 9):
        for _ in range(t.n(4)):
            v = t.np_rng.random_sample(2 ** n)
            if t.rng.random() < .5:
                v[t.rng.randrange(2 ** n)] = 0
            if not v.any():
                v[0] = 1
            v = v / v.sum() * t.rng.choice([1, 1, 3])
            keep = v.copy()
            with t.case(f"vector {v.tolist()}"):
                r = D.create_bitstring_distribution_from_probability_distribution(v)
                near(t, r.distribution_dict, dict(zip(itertools.product((0, 1), repeat=n), v / v.sum())), "outcomes, qubit 0 most significant")
                t.eq(v.tolist(), keep.tolist(), "vector unchanged")
                t.ok(all(type(x) is float for x in r.distribution_dict.values()), "native floats")
    for _ in range(t.n(40)):
        d = raw(t)
        with t.case(f"{d}"):
            keep = dict(d)
            c = D.change_tuple_dict_keys_to_comma_separated_integers(d)
            t.eq(d, keep, "not modified")
            t.eq(len(c), len(d), "number of outcomes")
            t.eq(list(c.values()), list(d.values()), "probabilities in order")
            near(t, MOD(c, False).distribution_dict, d, "and back", 0)
            t.eq(D.change_tuple_dict_keys_to_comma_separated_integers(c), c, "text keys stay")


@clause("files", budget=30)
def _(t):
    for _ in range(t.n(120)):
        l = [MOD(raw(t)) for _ in range(t.rng.randint(0, 4))]
        keep = [dict(x.distribution_dict) for x in l]
        with t.case(f"{keep}", trivial=not l):
            for x, k in zip(l, keep):
                D.save_measurement_outcome_distribution(x, "d.json")
                r = D.load_measurement_outcome_distribution("d.json")
                near(t, r.distribution_dict, k, "loaded")
                check(t, r.distribution_dict, "loaded")
                with open("d.json") as f:
                    near(t, D.load_measurement_outcome_distribution(f).distribution_dict, k, "loaded from a file object")
                t.eq(x.distribution_dict, k, "saving leaves the distribution alone")
            D.save_measurement_outcome_distributions(l, "s.json")
            r = D.load_measurement_outcome_distributions("s.json")
            t.eq(len(r), len(l), "number of distributions")
            for a, k in zip(r, keep):
                near(t, a.distribution_dict, k, "loaded from a set")
            with open("s.json") as f:
                t.eq(len(D.load_measurement_outcome_distributions(f)), len(l), "set from a file object")
    for k in range(0, 130, 3):
        with t.case(f"one subsystem, outcome {k}"):
            x = MOD({(k,): .25, (k + 1,): .75})
            D.save_measurement_outcome_distribution(x, "o.json")
            near(t, D.load_measurement_outcome_distribution("o.json").distribution_dict, x.distribution_dict, "loaded")
    with t.case("older files"):
        with open("old.json", "w") as f:
            json.dump({"bitstring_distribution": {"01": .25, "10": .75}}, f)
        near(t, D.load_measurement_outcome_distribution("old.json").distribution_dict, {(0, 1): .25, (1, 0): .75}, "loaded")


@clause("distances are evaluated on comparable distributions only", budget=15)
def _(t):
    got = []

    def measure(*a, **k):
        got.append((a, k))
        return 1.25
    for _ in range(t.n(60)):
        a, b = raw(t), raw(t)
        na, nb = len(next(iter(a))), len(next(iter(b)))
        A, B = MOD(a, t.rng.random() < .6), MOD(b, t.rng.random() < .6)
        ok = na == nb and (abs(math.fsum(A.distribution_dict.values()) - 1) < 1e-9) == (abs(math.fsum(B.distribution_dict.values()) - 1) < 1e-9)
        with t.case(f"{A} {B}"):
            got.clear()
            f = lambda: D.evaluate_distribution_distance(A, B, measure, distance_measure_parameters={"epsilon": .1})
            if ok:
                t.eq(f(), 1.25, "the measure's value")
                t.ok(len(got) == 1 and got[0][0][0] is A and got[0][0][1] is B and got[0][1] == {"distance_measure_parameters": {"epsilon": .1}}, "the measure of the two")
            else:
                t.raises(RuntimeError, f, "not comparable")
                t.eq(got, [], "not evaluated")
            for x in (a, None, "01"):
                t.raises(TypeError, lambda: D.evaluate_distribution_distance(x, B, measure), "target")
                t.raises(TypeError, lambda: D.evaluate_distribution_distance(A, x, measure), "measured")
