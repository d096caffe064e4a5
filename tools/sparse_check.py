"""Compare the verifier's model of scipy.sparse with scipy on random programs.  python3-vt tools/sparse_check.py [COUNT]"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), HERE]
N = int(sys.argv[1]) if len(sys.argv) > 1 else 150
import sparse_program
code = f"""
import sys, json; sys.path.insert(0, {HERE!r})
import numpy as np, scipy.sparse as S, sparse_program as P
class sp:
    csc = staticmethod(lambda r: S.csc_matrix(r)); coo = staticmethod(lambda r: S.coo_matrix(r))
    triplets = staticmethod(lambda v, r, c, n, m: S.coo_matrix((v, (r, c)), shape=(n, m)))
    identity = staticmethod(lambda n, f: S.identity(n, format=f)); kron = staticmethod(lambda a, b, f: S.kron(a, b, f))
print(json.dumps([P.run(sp, lambda x: [int(y) for y in x], s) for s in range({N})]))
"""
out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; exec \"$PY\" -c \"$0\"", code], capture_output=True, text=True)
if out.returncode:
    sys.exit(out.stderr)
want = json.loads(out.stdout)
from pyvc import sparse, interp, lib
from pyvc.contract import *
from pyvc.values import *
it = interp.Interp()
import time
it.deadline = time.time() + 10 ** 6


class W:
    def __init__(self, v):
        self.v = v

    def __getattr__(self, n):
        r = sparse.attr(it, self.v, n)
        return (lambda *a: wrap(r.fn(it, list(a), {}))) if isinstance(r, Builtin) else wrap(r)

    def __mul__(self, o):
        return wrap(sparse.binop(it, "*", self.v, o.v))

    def __rmul__(self, x):
        return wrap(sparse.binop(it, "*", x, self.v))

    def __add__(self, o):
        return wrap(sparse.binop(it, "+", self.v, o.v))

    def __sub__(self, o):
        return wrap(sparse.binop(it, "-", self.v, o.v))


def wrap(x):
    if isinstance(x, sparse.VSp):
        return W(x)
    if isinstance(x, VArr):
        vs = it.arr_vals(x)
        return vs if len(x.shape) == 1 else [vs[i * x.shape[1]:(i + 1) * x.shape[1]] for i in range(x.shape[0])]
    return tuple(wrap(y) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], VArr) else x


L = lambda x: it.new_list([L(y) if isinstance(y, list) else y for y in x])
raw = lambda x: x.v if isinstance(x, W) else x


class sp:
    csc = staticmethod(lambda r: wrap(sparse.construct(it, [L(r)], {}, "csc")))
    coo = staticmethod(lambda r: wrap(sparse.construct(it, [L(r)], {}, "coo")))
    triplets = staticmethod(lambda v, r, c, n, m: wrap(sparse.construct(it, [(L(v), (L(r), L(c)))], {"shape": (n, m)}, "coo")))
    identity = staticmethod(lambda n, f: wrap(sparse.new(it, f, (n, n), [(i, i, 1) for i in range(n)])))
    kron = staticmethod(lambda a, b, f: wrap(sparse.kron(it, raw(a), raw(b), f)))


bad = 0
for s in range(N):
    got = json.loads(json.dumps(sparse_program.run(sp, lambda x: [int(y) for y in x], s)))
    if got != want[s]:
        bad += 1
        for a, b in zip(got, want[s]):
            if a != b:
                print("seed", s, "\n model", a, "\n scipy", b)
                break
print(f"sparse model: {N - bad} of {N} programs agree with scipy")
sys.exit(bad > 0)
