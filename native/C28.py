"""Bounded contracts for C28 (number, bitstring and array conversions)."""
import io, itertools, json, math
import numpy as np, sympy
from native_lib import clause, Violation
from zquantum.core import utils as u
from zquantum.core.serialization import load_array, save_array


def bits(n, length):
    return [(n >> (length - 1 - i)) & 1 for i in range(length)]


@clause("integers and bit lists are inverse")
def _(t):
    cases = [(n, k) for k in range(1, 9) for n in range(2 ** k)]
    cases += [(2 ** e + d, k) for e in (8, 16, 31, 32, 52, 53, 62, 63, 64, 100, 300) for d in (-1, 0, 1) for k in (e, e + 1, e + 5) if 0 <= 2 ** e + d < 2 ** k]
    for _ in range(t.n(150)):
        k = t.rng.randint(1, 120)
        cases.append((t.rng.randrange(2 ** k), k))
    for n, k in cases:
        with t.case(f"dec2bin({n}, {k})", trivial=n < 2):
            got = u.dec2bin(n, k)
            t.eq(list(got), bits(n, k), "bit list")
            t.ok(all(isinstance(b, (int, np.integer)) for b in got), "the list does not hold integers")
            t.eq(u.bin2dec(got), n, "back to the number")
    for _ in range(t.n(200)):
        x = [t.rng.randint(0, 1) for _ in range(t.rng.randint(0, 90))]
        kind = t.rng.choice([list, tuple])
        with t.case(f"bin2dec({kind(x)})"):
            n = u.bin2dec(kind(x))
            t.eq(n, int("".join(map(str, x)) or "0", 2), "number")
            if x:
                t.eq(list(u.dec2bin(n, len(x))), x, "back to the bits")


@clause("numbers that do not fit are rejected")
def _(t):
    for k in list(range(0, 12)) + [31, 32, 53, 63, 64]:
        for n in sorted({2 ** k, 2 ** k + 1, 2 ** (k + 1), 3 * 2 ** k + 1}):
            with t.case(f"dec2bin({n}, {k})"):
                try:
                    r = u.dec2bin(n, k)
                except BaseException as e:
                    t.ok(isinstance(e, (SystemExit, Exception)), f"raised {type(e).__name__}")
                else:
                    raise Violation(f"returned {r}")


@clause("bitstrings and tuples are inverse and ordered")
def _(t):
    for _ in range(t.n(250)):
        n = t.rng.randint(0, 12)
        k = t.rng.randint(0, 9)
        strs = ["".join(t.rng.choice("01") for _ in range(n)) for _ in range(k)]
        with t.case(f"{strs}", trivial=not strs):
            tup = u.convert_bitstrings_to_tuples(list(strs))
            t.eq([tuple(x) for x in tup], [tuple(int(c) for c in s) for s in strs], "tuples")
            t.ok(all(isinstance(x, tuple) for x in tup), "not tuples")
            t.eq(list(u.convert_tuples_to_bitstrings(tup)), strs, "back to strings")
            t.eq(list(u.convert_tuples_to_bitstrings([tuple(int(c) for c in s) for s in strs])), strs, "strings")
            t.eq([tuple(x) for x in u.convert_bitstrings_to_tuples(iter(strs))], [tuple(x) for x in tup], "tuples of an iterator")
    for n in range(1, 11):
        with t.case(f"get_ordered_list_of_bitstrings({n})"):
            t.eq(list(u.get_ordered_list_of_bitstrings(n)), ["".join(p) for p in itertools.product("01", repeat=n)], "ordered bitstrings")


def rand_array(t, dims=None):
    nd = t.rng.randint(1, 4) if dims is None else dims
    shape = tuple(t.rng.randint(1, 4) for _ in range(nd))
    kind = t.rng.choice(["real", "complex", "purely imaginary", "complex, imaginary part zero", "int", "bool", "extreme", "fortran", "view", "float32"])
    a = t.np_rng.normal(size=shape)
    if kind == "complex":
        a = a + 1j * t.np_rng.normal(size=shape)
    elif kind == "purely imaginary":
        a = 1j * a
    elif kind == "complex, imaginary part zero":
        a = a.astype(complex)
    elif kind == "int":
        a = t.np_rng.randint(-10 ** 9, 10 ** 9, size=shape)
    elif kind == "bool":
        a = a > 0
    elif kind == "extreme":
        a = np.where(a > 0, 1e-300, -1.7e308) * np.where(np.abs(a) > 1, 1, 0)
    elif kind == "fortran" and a.ndim:
        a = np.asfortranarray(a + 1j * a[::-1])
    elif kind == "view":
        a = (t.np_rng.normal(size=tuple(2 * s for s in shape)) * (1 + 2j))[tuple(slice(None, None, 2) for _ in shape)].T
    elif kind == "float32":
        a = a.astype(np.float32)
    return kind, a


@clause("arrays survive dictionaries and files")
def _(t):
    for i in range(t.n(300)):
        kind, a = rand_array(t, 0 if i % 10 == 0 else None)
        a = np.asarray(a)
        with t.case(f"{kind} {a.tolist()}"):
            keep = a.copy()
            d = u.convert_array_to_dict(a)
            for name, got in (("dict", u.convert_dict_to_array(d)), ("json", u.convert_dict_to_array(json.loads(json.dumps(d))))):
                t.eq(np.shape(got), a.shape, f"{name}: shape")
                t.ok(np.array_equal(np.asarray(got), keep), f"{name}: got {np.asarray(got).tolist()}")
                if a.ndim:
                    t.eq(np.iscomplexobj(got), np.iscomplexobj(a), f"{name}: complexness")
            save_array(a, "a.json")
            got = load_array("a.json")
            t.ok(np.shape(got) == a.shape and np.array_equal(np.asarray(got), keep), f"file: got {np.asarray(got).tolist()}")
            f = open("b.json", "w")
            save_array(a, f)
            f.close()
            with open("b.json") as f:
                got = load_array(f)
            t.ok(np.array_equal(np.asarray(got), keep), f"file object: got {np.asarray(got).tolist()}")
            t.ok(np.array_equal(a, keep), "the array was changed")


@clause("value estimates survive dictionaries and files")
def _(t):
    vals = [0.0, -0.0, 1.0, -2.5, 1e-300, 1.7e308, 5e-324, 0.1, 1 / 3, 12345678.90123, np.float64(0.25), np.float32(0.1), 3, np.int64(4)]
    precs = [None, 0.0, 0.1, 1e-12, np.float64(0.3), 2, 1e300, np.int64(1)]
    for v, p in itertools.product(vals, precs):
        with t.case(f"ValueEstimate({v!r}, {p!r})"):
            e = u.ValueEstimate(v, p)
            other = (p or 0) * 2 + 1
            t.ok(float(e) == float(v) and e.precision == p, "value and precision as given")
            for name, f in (("dict", lambda: u.ValueEstimate.from_dict(e.to_dict())), ("json", lambda: u.ValueEstimate.from_dict(json.loads(json.dumps(e.to_dict()))))):
                got = f()
                t.ok(isinstance(got, u.ValueEstimate) and float(got) == float(v) and (got.precision is None) == (p is None) and (p is None or float(got.precision) == float(p)), f"{name}: got {got!r} ± {got.precision!r}")
                t.ok(got == e and not got != e, f"{name}: not equal to the original")
                t.ok(math.copysign(1, float(got)) == math.copysign(1, float(v)), f"{name}: sign of zero lost")
            u.save_value_estimate(e, "v.json")
            got = u.load_value_estimate("v.json")
            t.ok(got == e and (got.precision is None) == (p is None), f"file: got {got!r} ± {got.precision!r}")
            with open("v.json") as fo:
                t.ok(u.load_value_estimate(fo) == e, "file object: not equal")
            t.ok(not (e == u.ValueEstimate(v, other)) and e != u.ValueEstimate(v, other), "equal despite another precision")
            t.ok(not (e == u.ValueEstimate(float(v) + 1 if abs(float(v)) < 1e15 else 1.0, p)), "equal despite another value")
            t.ok((e == float(v)) == (p is None), "comparison with a plain number")


def rand_json(t, depth):
    r = t.rng.random()
    if depth == 0 or r < 0.5:
        return t.rng.choice([None, True, False, t.rng.randint(-10 ** 12, 10 ** 12), t.rng.gauss(0, 1), "", "text", "é\n\"", 1e-300])
    if r < 0.8:
        return [rand_json(t, depth - 1) for _ in range(t.rng.randint(0, 4))]
    return {t.rng.choice(["a", "b", "list", "schema", "x y"]): rand_json(t, depth - 1) for _ in range(t.rng.randint(0, 3))}


@clause("lists, dictionaries and measurement estimates survive files")
def _(t):
    for _ in range(t.n(200)):
        x = [rand_json(t, 3) for _ in range(t.rng.randint(0, 5))]
        name = t.rng.choice(["", "energies"])
        with t.case(f"save_list({x!r}, artifact_name={name!r})"):
            keep = json.dumps(x)
            u.save_list(x, "l.json", name)
            t.eq(u.load_list("l.json"), json.loads(keep), "loaded list")
            with open("l.json") as f:
                t.eq(u.load_list(f), json.loads(keep), "list from a file object")
            t.eq(json.dumps(x), keep, "the list was changed")
            d = {k: rand_json(t, 2) for k in t.rng.sample(["a", "b", "c", "list"], 2)}
            before = json.dumps(d)
            u.save_generic_dict(d, "d.json")
            with open("d.json") as f:
                got = json.load(f)
            got.pop("schema")
            t.eq(got, json.loads(before), "saved dictionary")
            t.eq(json.dumps(d), before, "the dictionary was changed")
    for _ in range(t.n(100)):
        fm = np.abs(rand_array(t, 1)[1].real).astype(float)
        K, n = t.rng.choice([0.0, 1e9, t.rng.random() * 100]), t.rng.randint(0, 99)
        with t.case(f"save_nmeas_estimate({K}, {n}, {fm.tolist()})"):
            u.save_nmeas_estimate(K, n, "n.json", fm)
            k2, n2, f2 = u.load_nmeas_estimate("n.json")
            t.ok(k2 == K and n2 == n and np.array_equal(f2, fm), f"got {k2}, {n2}, {f2}")


def rand_unitary(t, n):
    q, r = np.linalg.qr(t.np_rng.normal(size=(n, n)) + 1j * t.np_rng.normal(size=(n, n)))
    return q


def near(a, b, tol):
    """verdict of 'all |a-b| <= tol + 1e-5 |b|', None within rounding of the border"""
    lo = np.all(np.abs(a - b) <= (tol + 1e-5 * np.abs(b)) * 0.999 - 1e-15)
    hi = np.all(np.abs(a - b) <= (tol + 1e-5 * np.abs(b)) * 1.001 + 1e-15)
    return bool(lo) if lo == hi else None


@clause("matrix helpers accept exactly what they describe")
def _(t):
    def verdict(f, want, what):
        if want is None:
            return
        got = f()
        t.eq(bool(got), want, what)
    for _ in range(t.n(350)):
        n = t.rng.choice([1, 2, 2, 3, 4, 8])
        tol = t.rng.choice([1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 0.1])
        size = t.rng.choice([0, tol / 10, tol / 2, 2 * tol, 3 * tol, 10 * tol, 1e-7, 1e-4, 1e-2, 0.5])
        i, j = t.rng.randrange(n), t.rng.randrange(n)
        e = np.zeros((n, n), dtype=complex)
        e[i, j] = size * t.rng.choice([1, -1, 1j, -1j])
        pick = t.rng.choice(["identity", "minus", "random", "permuted", "same phase", "phase"])
        v = rand_unitary(t, n)
        w = rand_unitary(t, n)
        with t.case(f"n={n} tol={tol} error {size} at {i},{j} ({pick}) seed state {np.round(v[0], 3).tolist()}"):
            m = np.eye(n) + e
            verdict(lambda: u.is_identity(m, tol), near(m, np.eye(n), tol), "is_identity")
            verdict(lambda: u.is_identity(-np.eye(n), tol), False, "is_identity of minus identity")
            if not np.iscomplex(e[i, j]):
                verdict(lambda: u.is_identity(m.real, tol), near(m, np.eye(n), tol), "is_identity of a real matrix")
            x = v + e
            verdict(lambda: u.is_unitary(x, tol), near(x.conj().T @ x, np.eye(n), tol), "is_unitary")
            if tol < 1e-9:
                continue      # rounding of the products decides
            big = 1e-5 if tol < 1e-3 else tol
            ph = np.exp(1j * t.rng.uniform(0, 7))
            verdict(lambda: u.compare_unitary(v, ph * v, tol), True, "a unitary and its multiple by a phase")
            verdict(lambda: u.compare_unitary(ph * v, v, tol), True, "a multiple by a phase and the unitary")
            if n > 1 and tol <= 1e-3:
                d = np.diag([1] * (n - 1) + [np.exp(0.5j)])
                verdict(lambda: u.compare_unitary(v, v @ d, tol), False, "a unitary and another with a relative phase")
                verdict(lambda: u.compare_unitary(v, d @ v, tol), False if not near(d @ v, v * (d @ v)[0, 0] / v[0, 0], 0.05) else None, "a unitary and another with a relative phase (left)")
                p = np.roll(np.eye(n), 1, axis=0)
                verdict(lambda: u.compare_unitary(v, v @ p, tol), False, "a unitary and a permuted one")
                verdict(lambda: u.compare_unitary(np.eye(n), p, tol), False, "identity and a permutation")
                t.raises(Exception, lambda: u.compare_unitary(v, v + np.eye(n), tol) if near((v + np.eye(n)).conj().T @ (v + np.eye(n)), np.eye(n), 0.3) is False else (_ for _ in ()).throw(Exception()), "a matrix that is not unitary")
                t.raises(Exception, lambda: u.compare_unitary(2 * v, v, tol), "a first matrix that is not unitary")
    for n in (1, 2, 4):
        p = np.roll(np.eye(n), 1, axis=0)
        with t.case(f"default tolerance, n={n}"):
            verdict(lambda: u.is_identity(np.eye(n)), True, "identity")
            verdict(lambda: u.is_unitary(p), True, "a permutation")
            verdict(lambda: u.compare_unitary(p, p), True if n == 1 else None, "a permutation and itself")
            verdict(lambda: u.compare_unitary(np.eye(n), -np.eye(n)), True, "identity and minus identity")
            for size in (1e-3, 0.1, 0.5, 0.9):
                m = np.eye(n)
                m[0, -1] += size
                verdict(lambda: u.is_identity(m), False, f"identity with an error of {size}")
                verdict(lambda: u.is_unitary(m), False, f"a permutation with an error of {size}")
                t.raises(Exception, lambda: u.compare_unitary(m, np.eye(n)), "a first matrix that is not unitary")
                if n > 1:
                    verdict(lambda: u.compare_unitary(np.eye(n), np.diag([1] * (n - 1) + [np.exp(1j * np.pi * size)])), False, "identity and a relative phase")
    for shape in [(2, 3), (3, 2), (1, 2), (4, 2)]:
        for f in (u.is_identity, u.is_unitary):
            with t.case(f"{f.__name__} of a {shape} matrix"):
                t.raises(Exception, lambda: f(np.ones(shape)), "a matrix that is not square")


@clause("symbols are mapped in order")
def _(t):
    for _ in range(t.n(120)):
        n = t.rng.randint(0, 8)
        syms = sympy.symbols(" ".join(f"{t.rng.choice('abxyz')}{i}" for i in range(n)) + " ", seq=True) if n else []
        syms = list(syms)
        t.rng.shuffle(syms)
        p = t.np_rng.normal(size=n)
        with t.case(f"{syms} {p.tolist()}", trivial=n == 0):
            m = u.create_symbols_map(syms, p)
            t.eq(m, dict(zip(syms, p.tolist())), "map")
            t.ok(list(m) == syms, "order of the symbols")
            for k in (n + 1, n - 1):
                if k >= 0:
                    t.raises(ValueError, lambda: u.create_symbols_map(syms, np.ones(k)), "lengths differ")
