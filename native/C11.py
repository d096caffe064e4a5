"""Bounded contracts for C11 (wavefunctions)."""
import itertools, math, os, warnings
import numpy as np, sympy
from native_lib import clause
from zquantum.core.wavefunction import Wavefunction, flip_amplitudes, flip_wavefunction
from zquantum.core.measurement import load_wavefunction, save_wavefunction, sample_from_wavefunction

A, B, C = sympy.symbols("alpha beta gamma")


def state(t, n):
    v = t.np_rng.normal(size=2 ** n) + 1j * t.np_rng.normal(size=2 ** n)
    if t.rng.random() < .4:
        v[t.rng.randrange(2 ** n)] = 0
        if not v.any():
            v[0] = 1
    return v / np.linalg.norm(v)


def symbolic(t, n):
    """list with numeric part below 1 and some symbols, plus the indices of the symbols"""
    v = list(state(t, n) * t.rng.choice([.3, .6, .9]))
    idx = t.rng.sample(range(2 ** n), t.rng.randint(1, min(3, 2 ** n)))
    for i in idx:
        v[i] = t.rng.choice([A, B, C, A + B, A * sympy.I, sympy.cos(B)])
    return v


def content(w):
    return [complex(x) if not getattr(x, "free_symbols", None) else x for x in w]


def numeric_weight(l):
    return sum(abs(x) ** 2 for x in l if isinstance(x, complex))


def is_sym(l):
    return any(not isinstance(x, complex) for x in l)


def valid(t, w, what):
    l = content(w)
    t.ok(len(l) and len(l) & (len(l) - 1) == 0 and len(w) == len(l), f"{what}: 2^n amplitudes")
    t.eq(w.n_qubits, len(l).bit_length() - 1, f"{what}: number of qubits")
    p = numeric_weight(l)
    t.ok(p <= 1 + 1e-4 if is_sym(l) else abs(p - 1) < 1e-4, f"{what}: total probability {p}")


def as_index(l, idx):
    return np.arange(len(l))[idx]


@clause("construction accepts exactly normalized vectors of 2^n amplitudes", budget=30)
def _(t):
    for size in range(1, 34):
        with t.case(f"length {size}"):
            v = np.zeros(size)
            v[0] = 1
            if size & (size - 1) == 0:
                w = Wavefunction(v)
                valid(t, w, "new")
                v[0] = .5
                t.close(w.amplitudes[0], 1, "own amplitudes, not the caller's array")
            else:
                t.raises(ValueError, lambda: Wavefunction(v), "length that is not a power of two")
    for _ in range(t.n(120)):
        n = t.rng.randint(0, 4)
        v = state(t, n)
        for mk in (np.array, list, tuple, lambda x: np.array(x).reshape(-1, 1), lambda x: sympy.Matrix(list(x))):
            with t.case(f"{mk(v)!r}"):
                w = Wavefunction(mk(v))
                valid(t, w, "new")
                t.close(w.amplitudes, v, "amplitudes")
                t.close(w.get_probabilities(), np.abs(v) ** 2, "probabilities")
                t.close(list(w), v, "iteration")
                t.eq(w.free_symbols, set(), "no symbols")
                t.ok(w.amplitudes.dtype == np.complex128, "numeric amplitudes")
                f = t.rng.choice([.9, 1.1, 0, 2, .99, 1.01])
                t.raises(ValueError, lambda: Wavefunction(mk(v * f)), f"vector of weight {f}^2")
    for _ in range(t.n(60)):
        n = t.rng.randint(1, 3)
        l = symbolic(t, n)
        with t.case(f"{l}"):
            w = Wavefunction(sympy.Matrix(l))
            valid(t, w, "new")
            t.eq(w.free_symbols, set().union(*[x.free_symbols for x in l if isinstance(x, sympy.Basic)]), "free symbols")
            t.eq(w.amplitudes.shape, (2 ** n,), "one-dimensional amplitudes")
            k = next(i for i, x in enumerate(l) if not isinstance(x, sympy.Basic) or i + 1 == len(l))
            big = list(l)
            big[k] = 1.2
            t.raises(ValueError, lambda: Wavefunction(sympy.Matrix(big)), "numeric part above one") if is_sym([x if isinstance(x, sympy.Basic) else complex(x) for x in big]) else None


@clause("histories of assignments and bindings: valid or unchanged", budget=60)
def _(t):
    for _ in range(t.n(220)):
        n = t.rng.randint(1, 3)
        sym = t.rng.random() < .5
        w = Wavefunction(sympy.Matrix(symbolic(t, n)) if sym else state(t, n))
        hist = []
        with t.case(f"start {content(w)} seed {t.rng.random()}", limit=40):
            for _s in range(t.rng.randint(1, 8)):
                before = content(w)
                size = len(before)
                k = t.rng.randint(0, 6)
                after = None
                if k <= 1:
                    i = t.rng.randrange(-size, size)
                    val = t.rng.choice([before[i], -1 * before[i], 0, 1, 1j, 2, .1, t.rng.uniform(-1, 1), -before[i] if isinstance(before[i], complex) else A])
                    idx = i
                    new = list(before)
                    new[i] = val
                elif k == 2:
                    a = t.rng.randrange(size)
                    idx = slice(a, t.rng.choice([size, None, a + 1, a]), t.rng.choice([1, 2]))
                    if sym:
                        idx = slice(a, size, 1)
                    new = list(before)
                    vals = new[idx]
                    vals = list(t.rng.choice([vals[::-1], [0] * len(vals), [1] * len(vals), [-v for v in vals]]))
                    new[idx] = vals
                    val = sympy.Matrix(vals) if sym else np.array(vals, dtype=complex)
                elif k == 3 and not sym:
                    idx = t.rng.choice([slice(None), [0, size - 1], np.arange(size) % 2 == 0])
                    val = t.rng.choice([0.5, 1 / math.sqrt(size), 1, 0])
                    new = np.array(before, dtype=complex)
                    new[idx] = val
                    new = list(new)
                elif k == 4:
                    i = t.rng.randrange(size)
                    idx, val = i, t.rng.choice([A, B * 2, sympy.Symbol("new")])
                    new = list(before)
                    new[i] = val
                elif k == 5:
                    m = {s: t.rng.choice([0, .1, .5, 1, 5, B, sympy.I * .2]) for s in t.rng.sample([A, B, C, sympy.Symbol("unused")], t.rng.randint(1, 4))}
                    exp = [complex(x) if not getattr(x, "free_symbols", None) else x for x in
                           [sympy.sympify(x).subs(m, simultaneous=True) if isinstance(x, sympy.Basic) else x for x in before]]
                    hist.append(f"bind {m}")
                    okay = not is_sym(exp) and abs(numeric_weight(exp) - 1) < 1e-6 or is_sym(exp) and numeric_weight(exp) < 1 - 1e-9 or not is_sym(before)
                    bad = not is_sym(exp) and abs(numeric_weight(exp) - 1) > 1e-3 or is_sym(exp) and numeric_weight(exp) > 1 + 1e-9
                    try:
                        r = w.bind(m)
                    except ValueError:
                        t.ok(not okay, f"{hist}: a valid binding is accepted")
                    else:
                        t.ok(not (bad and is_sym(before)), f"{hist}: a binding to an invalid state is rejected")
                        valid(t, r, f"{hist}: bound")
                        t.ok(all(a == b if not isinstance(a, complex) else abs(a - b) < 1e-9 for a, b in zip(content(r), exp)) if is_sym(exp) else np.allclose(content(r), exp), f"{hist}: bound amplitudes are the substituted ones")
                        t.ok(r.free_symbols == set().union(set(), *[x.free_symbols for x in exp if not isinstance(x, complex)]), f"{hist}: free symbols")
                    t.ok(content(w) == before, f"{hist}: binding leaves the original alone")
                    continue
                else:
                    idx, val, new = t.rng.choice([size, size + 3, "0", None] if sym else [size, size + 3, "0"]), 0.5, None
                hist.append(f"[{idx!r}] = {val!r}")
                if new is not None:
                    new = [complex(x) if not getattr(x, "free_symbols", None) else x for x in new]
                try:
                    w[idx] = val
                except Exception as e:
                    t.ok(content(w) == before, f"{hist}: a failed assignment ({type(e).__name__}) changes nothing: {content(w)}, before {before}")
                    wt = numeric_weight(new) if new else 9
                    if new and k <= 1 and not (not sym and is_sym(new)):
                        t.ok(isinstance(e, ValueError), f"{hist}: ValueError")
                        t.ok(wt > 1 - 1e-9 if is_sym(new) else abs(wt - 1) > 1e-9, f"{hist}: a valid assignment is accepted")
                else:
                    t.ok(new is not None, f"{hist}: invalid index accepted")
                    valid(t, w, f"{hist}")
                    t.ok(all(a == b if not isinstance(a, complex) else abs(a - b) < 1e-12 for a, b in zip(content(w), new)), f"{hist}: exactly the assigned amplitudes change: {content(w)}, expected {new}")


@clause("standard states", budget=20)
def _(t):
    for n in range(1, 8):
        with t.case(f"zero state {n}"):
            w = Wavefunction.zero_state(n)
            valid(t, w, "zero state")
            t.close(w.amplitudes, np.eye(2 ** n)[0], "zero state")
        for k in range(0, n + 1):
            with t.case(f"dicke {n} {k}"):
                w = Wavefunction.dicke_state(n, k)
                valid(t, w, "dicke state")
                t.close(w.amplitudes, [1 / math.sqrt(math.comb(n, k)) if bin(i).count("1") == k else 0 for i in range(2 ** n)], "dicke state")
        for k in (-1, n + 1, n + 5, 0.5):
            with t.case(f"dicke {n} {k}"):
                t.raises(ValueError, lambda: Wavefunction.dicke_state(n, k), "invalid weight")
    for n in (0, -1, -5):
        with t.case(f"zero state {n}"):
            t.raises(ValueError, lambda: Wavefunction.zero_state(n), "invalid number of qubits")
            t.raises(ValueError, lambda: Wavefunction.dicke_state(n, 0), "invalid number of qubits")
    for n in (2.0, 3.7, np.float64(2)):
        with t.case(f"zero state {n}"):
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                w = Wavefunction.zero_state(n)
            t.ok(rec, "a warning is given")
            t.close(w.amplitudes, np.eye(2 ** int(n))[0], "zero state")
    with t.case("independent objects"):
        a = Wavefunction.zero_state(2)
        a[[0, 3]] = [0, 1]
        t.close(Wavefunction.zero_state(2).amplitudes, [1, 0, 0, 0], "zero state")
        d = Wavefunction.dicke_state(2, 1)
        d[1] = -d[1]
        t.close(Wavefunction.dicke_state(2, 1).amplitudes, np.array([0, 1, 1, 0]) / math.sqrt(2), "dicke state")


def rev(i, n):
    return sum(((i >> k) & 1) << (n - 1 - k) for k in range(n))


@clause("outcome probabilities, reordering, sampling, files, equality", budget=30)
def _(t):
    for _ in range(t.n(60)):
        n = t.rng.randint(1, 5)
        v = state(t, n)
        w = Wavefunction(v)
        with t.case(f"{list(v)}"):
            p = w.get_outcome_probs()
            t.eq(len(p), 2 ** n, "one probability per outcome")
            for i in range(2 ** n):
                bits = "".join(str((i >> (n - 1 - q)) & 1) for q in range(n))
                t.close(p[bits[::-1]], abs(v[i]) ** 2, f"probability of qubits {bits} (listed last qubit first)", 1e-12)
            f = flip_wavefunction(w)
            t.close(f.amplitudes, [v[rev(i, n)] for i in range(2 ** n)], "reordered")
            t.close(flip_wavefunction(f).amplitudes, v, "reordering twice")
            t.close(w.amplitudes, v, "original unchanged")
            t.close(flip_amplitudes(list(v)), f.amplitudes, "amplitudes as a list")
            save_wavefunction(w, "wf.json")
            t.eq(load_wavefunction("wf.json").amplitudes.tolist(), v.tolist(), "file")
            with open("wf.json") as h:
                t.eq(load_wavefunction(h).amplitudes.tolist(), v.tolist(), "file object")
            t.ok((w == Wavefunction(v)) is True, "equal states are equal")
            o = v.copy()
            k = t.rng.randrange(2 ** n)
            o[k] = -o[k] if o[k] else o[k]
            t.ok((w == Wavefunction(o)) is bool(o[k] == v[k]), "states differing in one amplitude are not")
            t.ok((w == Wavefunction.zero_state(n + 1)) is False, "states on different numbers of qubits are not equal")
            s = sample_from_wavefunction(w, 40, seed=t.rng.randrange(1000))
            t.eq(len(s), 40, "number of samples")
            for b in s:
                t.eq(len(b), n, "sample length")
                t.ok(abs(v[int("".join(map(str, b)), 2)]) > 0, f"sample {b} has probability above zero")
    for n in range(1, 5):
        for i in range(2 ** n):
            w = Wavefunction(np.eye(2 ** n)[i] * 1j)
            with t.case(f"basis state {i} of {n} qubits"):
                bits = tuple((i >> (n - 1 - q)) & 1 for q in range(n))
                t.eq(sample_from_wavefunction(w, 3, seed=1), [bits] * 3, "samples")
                t.close(flip_wavefunction(w).amplitudes, np.eye(2 ** n)[rev(i, n)] * 1j, "reordered")
                t.raises(ValueError, lambda: sample_from_wavefunction(w, 0), "no samples")
    for _ in range(t.n(30)):
        n = t.rng.randint(1, 3)
        l = symbolic(t, n)
        with t.case(f"symbolic {l}"):
            w = Wavefunction(sympy.Matrix(l))
            f = flip_wavefunction(w)
            t.ok(all(a == b for a, b in zip(content(f), [content(w)[rev(i, n)] for i in range(2 ** n)])), "reordered")
            t.ok(all(a == b for a, b in zip(content(flip_wavefunction(f)), content(w))), "reordering twice")
            t.ok((w == Wavefunction(sympy.Matrix(l))) is True, "equal states are equal")
            t.eq(len(w.get_probabilities()), 2 ** n, "probabilities")
            d = w.get_outcome_probs()
            t.ok(all(str(d["".join(str((i >> k) & 1) for k in range(n))]) == str(w.get_probabilities()[i]) for i in range(2 ** n)), "outcome probabilities")
