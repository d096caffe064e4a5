"""Bounded contracts for C15 (distances between distributions)."""
import itertools, math, warnings
from fractions import Fraction
import numpy as np
from native_lib import clause
from zquantum.core import distribution as D
from zquantum.core.distribution import MeasurementOutcomeDistribution as MOD

warnings.simplefilter("ignore")


def dist(t, n, size=None, wide=False):
    keys = set()
    for _ in range(size or t.rng.randint(1, 8)):
        keys.add(tuple(t.rng.randint(0, 1) for _ in range(n)))
    keys = list(keys)
    t.rng.shuffle(keys)
    w = [t.rng.choice([0, 1, 2.5, t.rng.random(), 1e-12]) for _ in keys]
    if not any(w):
        w[0] = 1
    s = sum(w)
    return {k: x / s for k, x in zip(keys, w)}


def num(k):
    return int("".join(map(str, k)), 2)


def kernel(a, b, sigma):
    d2 = (num(a) - num(b)) ** 2
    ss = sigma if hasattr(sigma, "__len__") else [sigma]
    return math.fsum(math.exp(float(-Fraction(d2) / (2 * Fraction(s)))) if d2 / (2 * s) < 1000 else 0. for s in ss) / len(ss)


def mmd(p, q, sigma):
    ks = list(set(p) | set(q))
    d = {k: p.get(k, 0) - q.get(k, 0) for k in ks}
    return math.fsum(d[a] * d[b] * kernel(a, b, sigma) for a in ks for b in ks)


def nll(p, q, eps):
    return -math.fsum(p.get(k, 0) * math.log(max(eps, q.get(k, 0))) for k in set(p) | set(q))


def pairs(t, count, sizes=(1, 2, 3, 5, 8, 12, 20)):
    for _ in range(count):
        n = t.rng.choice(sizes)
        p = dist(t, n)
        q = dist(t, n)
        r = t.rng.random()
        if r < .25:
            q = {k: q.get(k, 0) + .1 for k in p}
            s = sum(q.values())
            q = {k: v / s for k, v in q.items()}
        elif r < .35:
            q = dict(reversed(list(p.items())))
        yield p, q


def shuffled(t, d):
    l = list(d.items())
    t.rng.shuffle(l)
    return dict(l)


def close(t, got, want, what):
    t.ok(abs(got - want) <= 1e-9 * (1 + abs(want)), f"{what}: {got}, expected {want}")


@clause("kernel discrepancy", budget=40)
def _(t):
    for p, q in pairs(t, t.n(250), (1, 2, 3, 5, 8, 12, 20, 31, 33, 40, 50, 62)):
        sigma = t.rng.choice([None, 1.0, .25, 7, [1.0], [.5, 2, 10], (1e-3, 1e3), np.array([.1, 1.]), 1e12])
        with t.case(f"{p} {q} sigma {sigma}"):
            a, b = MOD(p), MOD(q)
            ka, kb = dict(a.distribution_dict), dict(b.distribution_dict)
            par = {} if sigma is None else {"sigma": sigma}
            kp = dict(par)
            v = D.compute_mmd(a, b, par)
            t.ok(a.distribution_dict == ka and b.distribution_dict == kb and par.keys() == kp.keys(), "arguments unchanged")
            close(t, v, mmd(ka, kb, 1.0 if sigma is None else sigma), "discrepancy")
            t.ok(v >= -1e-12, "non-negative")
            close(t, D.compute_mmd(b, a, par), v, "symmetric")
            close(t, D.compute_mmd(a, a, par), 0, "equal distributions")
            close(t, D.compute_mmd(MOD(shuffled(t, ka)), MOD(shuffled(t, kb)), par), v, "order of the outcomes")
            close(t, D.compute_mmd(MOD({**{k: 0 for k in kb}, **ka}), b, par), v, "zero entries do not matter")
            close(t, D.evaluate_distribution_distance(a, b, D.compute_mmd, distance_measure_parameters=par), v, "through evaluate_distribution_distance")
    for x in ([0, 1, 2, 3], [5, 0, 100], [0, 2 ** 20], [7]):
        for y in ([0, 1], [3, 2, 1, 0], [2 ** 16]):
            with t.case(f"kernel {x} {y}"):
                for s in (.5, 1, 30.):
                    K = D.compute_rbf_kernel(np.array(x), np.array(y), s)
                    t.close(K, [[math.exp(-(i - j) ** 2 / (2 * s)) for j in y] for i in x], "kernel", 1e-12)
                    L = D.compute_multi_rbf_kernel(np.array(x), np.array(y), [s, 2 * s, 9])
                    t.close(L, [[sum(math.exp(-(i - j) ** 2 / (2 * z)) for z in (s, 2 * s, 9)) / 3 for j in y] for i in x], "multi-width kernel", 1e-12)
    for s in (0, 0.0, [1, 0]):
        with t.case(f"width {s}"):
            t.raises(ZeroDivisionError, lambda: D.compute_mmd(MOD({(0,): 1.}), MOD({(1,): 1.}), {"sigma": s}), "kernel width zero")


@clause("log-likelihood and its symmetric version", budget=30)
def _(t):
    for p, q in pairs(t, t.n(250)):
        eps = t.rng.choice([None, 1e-9, 1e-3, .1, .5, 1e-300])
        with t.case(f"{p} {q} epsilon {eps}"):
            a, b = MOD(p), MOD(q)
            ka, kb = dict(a.distribution_dict), dict(b.distribution_dict)
            par = {} if eps is None else {"epsilon": eps}
            e = 1e-9 if eps is None else eps
            v = D.compute_clipped_negative_log_likelihood(a, b, par)
            close(t, v, nll(ka, kb, e), "clipped negative log-likelihood")
            j = D.compute_jensen_shannon_divergence(a, b, par)
            close(t, j, (nll(ka, kb, e) + nll(kb, ka, e)) / 2, "symmetrized value")
            close(t, D.compute_jensen_shannon_divergence(b, a, par), j, "symmetric")
            t.ok(a.distribution_dict == ka and b.distribution_dict == kb and (eps is None or par == {"epsilon": eps}), "arguments unchanged")
            sa, sb = MOD(shuffled(t, ka)), MOD(shuffled(t, kb))
            close(t, D.compute_clipped_negative_log_likelihood(sa, sb, par), v, "order of the outcomes")
            close(t, D.compute_jensen_shannon_divergence(sa, sb, par), j, "order of the outcomes")
            for f, w in ((D.compute_clipped_negative_log_likelihood, v), (D.compute_jensen_shannon_divergence, j)):
                close(t, D.evaluate_distribution_distance(a, b, f, distance_measure_parameters=par), w, "through evaluate_distribution_distance")


@clause("arguments of a distance are checked", budget=10)
def _(t):
    p, q, w = MOD({(0, 1): .5, (1, 1): .5}), MOD({(0,): 1.}), MOD({(0, 1): 3.}, False)
    f = lambda a, b, **k: (a, b, k)
    with t.case("forwarded"):
        t.ok(D.evaluate_distribution_distance(p, p, f, x=1, y=2) == (p, p, {"x": 1, "y": 2}), "arguments forwarded in order")
        o = MOD({(1, 0): 1.})
        t.ok(D.evaluate_distribution_distance(p, o, f) == (p, o, {}), "target first")
        t.ok(D.evaluate_distribution_distance(w, w, f)[0] is w, "both unnormalized")
    for a, b in ((p, q), (q, p), (p, w), (w, p)):
        with t.case(f"{a} {b}"):
            t.raises(RuntimeError, lambda: D.evaluate_distribution_distance(a, b, f), "inconsistent distributions")
    for a, b in ((p, {(0, 1): 1.}), ({}, p), (None, None)):
        with t.case(f"{a} {b}"):
            t.raises(TypeError, lambda: D.evaluate_distribution_distance(a, b, f), "not distributions")
