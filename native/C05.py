"""Bounded contracts for C05 (circuit construction, concatenation, equality, unitary)."""
import itertools
import numpy as np, sympy
import ref, gen
from native_lib import clause
from zquantum.core import circuits as zc


def rand_circuit(t, n=None, length=None, symbolic=True):
    n = n or t.rng.randint(1, 4)
    mo = gen.ops(t.rng, n, t.rng.randint(0, 4) if length is None else length, symbolic=symbolic)
    lst = [o.op for o in mo]
    declared = t.rng.choice([None, None, n, n + 1, n + 2])
    width = declared or max([q for o in mo for q in o.qs], default=-1) + 1
    src = t.rng.choice([list, tuple, iter, lambda l: (x for x in l)])
    c = zc.Circuit(src(lst), n_qubits=declared) if declared or t.rng.random() < .5 else zc.Circuit(src(lst))
    return c, mo, width


def used(mo):
    out = []
    for o in mo:
        for s in sorted(o.g.symbols, key=str):
            if s not in out:
                out.append(s)
    return out


def is_circuit(t, c, mo_ops, width, what):
    t.eq(c.n_qubits, width, f"{what}: width")
    t.ok(type(c.n_qubits) is int or isinstance(c.n_qubits, (int, np.integer)), f"{what}: width is an integer")
    t.eq(list(c.operations), mo_ops, f"{what}: operations")
    t.ok(all(a is b for a, b in zip(c.operations, mo_ops)), f"{what}: the operation objects themselves")


@clause("construction: width and operations", budget=25)
def _(t):
    for _ in range(t.n(120)):
        c, mo, width = rand_circuit(t)
        with t.case(f"{gen.text(mo)} width {width}", trivial=not mo):
            is_circuit(t, c, [o.op for o in mo], width, "circuit")
            fs = c.free_symbols
            t.eq(list(fs), used(mo), "free symbols in order of first use")
    for bad in (-1, -3, 1.5, 2.25, -0.5):
        with t.case(f"n_qubits={bad}"):
            t.raises(ValueError, lambda: zc.Circuit([zc.X(0)], n_qubits=bad), "invalid width rejected")
    for ok in (3.0, np.int64(4), np.float64(2.0), True):
        with t.case(f"n_qubits={ok!r}"):
            c = zc.Circuit([zc.X(0)], n_qubits=ok)
            t.eq(c.n_qubits, int(ok), "integral width accepted")
            t.ok(isinstance(c.n_qubits, (int, np.integer)), "stored as an integer")
            t.eq(c.to_unitary().shape, (2 ** int(ok),) * 2, "unitary of that width")


@clause("width ignores operation order and qubit order within an operation", budget=15)
def _(t):
    for _ in range(t.n(60)):
        n = t.rng.randint(1, 9)
        pool = [zc.X(q) for q in range(n)] + [zc.CNOT(*p) for p in itertools.permutations(range(n), 2)] + [zc.X.controlled(2)(*p) for p in itertools.permutations(range(n), 3)][:80]
        l = t.rng.sample(pool, min(len(pool), t.rng.randint(1, 5)))
        with t.case(f"{[str(o) for o in l]}"):
            t.eq(zc.Circuit(l).n_qubits, max(q for o in l for q in o.qubit_indices) + 1, "width")
            t.eq(zc.Circuit(l[::-1]).n_qubits, zc.Circuit(l).n_qubits, "width does not depend on order")


@clause("addition of circuits and operations", budget=40)
def _(t):
    for _ in range(t.n(90)):
        (a, ma, wa), (b, mb, wb), (d, md, wd) = rand_circuit(t), rand_circuit(t), rand_circuit(t)
        oa, ob, od = [o.op for o in ma], [o.op for o in mb], [o.op for o in md]
        op = gen.ops(t.rng, 5, 1)[0]
        with t.case(f"{gen.text(ma)}/{wa} + {gen.text(mb)}/{wb} + {gen.text(md)}/{wd}; + {op.text}"):
            s = a + b
            is_circuit(t, s, oa + ob, max(wa, wb), "sum")
            is_circuit(t, a, oa, wa, "left operand after addition")
            is_circuit(t, b, ob, wb, "right operand after addition")
            t.ok(s is not a and s is not b and s.operations is not a.operations and s.operations is not b.operations, "sum is a new circuit with its own operation list")
            t.eq((a + b) + d, a + (b + d), "associativity")
            is_circuit(t, (a + b) + d, oa + ob + od, max(wa, wb, wd), "three summands")
            r = a + op.op
            is_circuit(t, r, oa + [op.op], max(wa, max(op.qs) + 1), "circuit plus operation")
            is_circuit(t, a, oa, wa, "circuit after adding an operation")
            acc = zc.Circuit()
            for o in oa + ob:
                acc += o
            t.eq(list(acc.operations), oa + ob, "accumulated with +=")
            t.eq(acc.n_qubits, max([q + 1 for o in oa + ob for q in o.qubit_indices], default=0), "accumulated width")
            keep = zc.Circuit(oa, n_qubits=wa) if wa else zc.Circuit(oa)
            x = a
            x += b
            is_circuit(t, a, oa, wa, "+= rebinds and leaves the old circuit")
            t.eq(list(s.free_symbols), used(ma + mb), "free symbols of the sum")


@clause("equality of circuits", budget=25)
def _(t):
    for _ in range(t.n(90)):
        a, ma, wa = rand_circuit(t)
        ops = list(a.operations)
        with t.case(f"{gen.text(ma)}/{wa}", trivial=not ops):
            same = zc.Circuit(list(ops), n_qubits=wa or None)
            t.ok(a == same and not (a != same), "equal to a rebuilt copy")
            t.ok(not (a == zc.Circuit(ops, n_qubits=wa + 1)), "different width")
            t.ok(a != zc.Circuit(ops, n_qubits=wa + 1), "different width (!=)")
            extra = zc.Circuit(ops + [zc.X(0)], n_qubits=max(wa, 1))
            t.ok(not (a == extra) and not (extra == a), "an operation more")
            if ops:
                t.ok(not (a == zc.Circuit(ops[:-1], n_qubits=wa)), "last operation missing")
                i = t.rng.randrange(len(ops))
                o = ops[i]
                if wa > len(o.qubit_indices):
                    other = next(q for q in range(wa) if q not in o.qubit_indices)
                    changed = ops[:i] + [o.gate(*((other,) + o.qubit_indices[1:]))] + ops[i + 1:]
                    t.ok(not (a == zc.Circuit(changed, n_qubits=wa)), f"qubit of operation {i} changed")
                if len(o.qubit_indices) > 1:
                    t.ok(not (a == zc.Circuit(ops[:i] + [o.gate(*o.qubit_indices[::-1])] + ops[i + 1:], n_qubits=wa)), "qubits in another order")
                if o.params:
                    np_ = tuple(p + 0.5 for p in o.params)
                    t.ok(not (a == zc.Circuit(ops[:i] + [o.replace_params(np_)] + ops[i + 1:], n_qubits=wa)), "parameters changed")
                wrapped = o.gate.controlled(1)
                t.ok(not (a == zc.Circuit(ops[:i] + [zc.GateOperation(wrapped, o.qubit_indices)] + ops[i + 1:], n_qubits=wa)), "gate changed")
                perm = ops[1:] + ops[:1]
                t.eq(a == zc.Circuit(perm, n_qubits=wa), all(x == y for x, y in zip(ops, perm)), "order matters")
            t.ok(not (a == "circuit") and a != 3 and a != None, "other types")


@clause("unitary is the product of lifted operations in time order", budget=60)
def _(t):
    for _ in range(t.n(45)):
        n = t.rng.randint(1, 4)
        sym = t.rng.random() < .35
        if sym:
            n = min(n, 3)
        (a, ma, wa), (b, mb, wb) = rand_circuit(t, n, t.rng.randint(0, 3), sym), rand_circuit(t, n, t.rng.randint(0, 3), sym)
        e = gen.env(t.rng)
        if max(wa, wb) > (3 if sym else 5) or not (wa and wb):
            continue
        with t.case(f"{gen.text(ma)}/{wa}, {gen.text(mb)}/{wb}"):
            u = a.to_unitary()
            t.eq(isinstance(u, np.ndarray), not used(ma), "numpy array exactly when there are no free symbols")
            t.close(gen.evalm(u, e), gen.unitary(ma, wa, e), "unitary of the first")
            w = max(wa, wb)
            s = a + b
            t.close(gen.evalm(s.to_unitary(), e), gen.unitary(mb, w, e) @ gen.unitary(ma, w, e), "unitary of the sum")


@clause("circuits combined with themselves, repeated operation objects, long circuits", budget=25)
def _(t):
    for _ in range(t.n(50)):
        a, ma, wa = rand_circuit(t, t.rng.choice([1, 2, 12]), t.rng.choice([0, 1, 3, 25]), False)
        oa = [o.op for o in ma]
        reps = [t.rng.choice(oa) for _ in range(t.rng.randint(1, 6))] if oa else []
        with t.case(f"{gen.text(ma)[:300]}/{wa}", trivial=not oa):
            is_circuit(t, a + a, oa + oa, wa, "doubled")
            is_circuit(t, (a + a) + a, oa * 3, wa, "tripled")
            is_circuit(t, a, oa, wa, "the circuit itself")
            b = a
            b += b
            is_circuit(t, b, oa + oa, wa, "+= itself")
            is_circuit(t, a, oa, wa, "the old circuit")
            acc = a
            for o in reps:
                acc = acc + o
            is_circuit(t, acc, oa + reps, wa, "with operations it already has")
            r = zc.Circuit(reps, n_qubits=max(wa, 1))
            is_circuit(t, r + a, reps + oa, max(wa, 1), "a circuit of repeated operations first")
            t.ok((a + a == a) == (not oa), "equal to its double only when empty")
            if reps:
                t.ok(not (acc == a) and acc != a, "extended by an operation it has")
            e = zc.Circuit(n_qubits=wa + 3)
            is_circuit(t, a + e, oa, wa + 3, "with an empty wider circuit")
            is_circuit(t, e + a, oa, wa + 3, "an empty wider circuit first")
            is_circuit(t, a + zc.Circuit(), oa, wa, "with the empty circuit")
            lst = list(oa)
            c = zc.Circuit(lst, n_qubits=wa or None)
            lst.append(zc.X(0))
            is_circuit(t, c, oa, wa, "after the list it was made from has changed")
