"""Random programs on sparse matrices: run by scipy and by the verifier's model (tools/sparse_check.py)."""
import random


def run(sp, ones, seed):
    """sp: namespace with csc(rows), coo(rows), triplets(v, r, c, n, m), identity(n, fmt), kron(a, b, fmt); -> log"""
    rng = random.Random(seed)
    rows = lambda n, m: [[rng.choice([0, 0, 1, -1, 2]) for _ in range(m)] for _ in range(n)]
    pool = []
    for _ in range(3):
        n, m = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2, 3])
        k = rng.randint(0, 5)
        pool += [sp.csc(rows(n, m)), sp.coo(rows(n, m)), sp.identity(n, rng.choice(["csc", "coo"])),
                 sp.triplets([rng.choice([1, -1, 2]) for _ in range(k)], [rng.randrange(n) for _ in range(k)], [rng.randrange(m) for _ in range(k)], n, m)]
    log = []
    for _ in range(12):
        a, b = rng.choice(pool), rng.choice(pool)
        op = rng.randrange(9)
        if op == 0:
            if a.shape[0] * b.shape[0] > 24 or a.shape[1] * b.shape[1] > 24:
                continue
            c = sp.kron(a, b, rng.choice(["csc", "coo"]))
        elif op == 1:
            if a.shape[1] != b.shape[0]:
                continue
            c = a.tocsc() * b.tocsc()
        elif op == 2:
            if a.shape != b.shape:
                continue
            c = a.tocsc() + b.tocsc() if rng.random() < .5 else a.tocsc() - b.tocsc()
        elif op == 3:
            c = rng.choice([2, -1]) * a
        elif op == 4:
            c = a.tocoo()
        elif op == 5:
            c = a.tocsc()
        elif op == 6:
            c = a.tocsc()
            c.eliminate_zeros()
        elif op == 7:
            c = a.getH().tocoo() if a.format == "coo" else a.getH().tocsc()
        else:
            c = sp.kron(rng.choice([3, 0]), a, "csc") if a.shape[0] < 9 else a.tocsc()
        pool.append(c)
        r, q = c.nonzero()
        log.append([op, list(c.shape), c.format, ones(c.data), ones(r), ones(q), [ones(x) for x in c.toarray()], c.nnz])
    return log
