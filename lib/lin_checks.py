from core import *
import gen, lin_gen as lg
from gen import half, cen, ints, value
from lin_gen import vecmat


def c11(c):
    rng = c.rng
    for t in range(24 if not THOROUGH else 150):
        far_tri(c, rng, t)
    c.rules.append("the last rows of matrices of more than 2^31 or 2^32 entries (filled with copies of the same pages)")
    c.rules.append("permuted triangular matrices up to 30x40 (pivot first or anywhere, chains, cancellations), several right-hand sides through one workspace; arbitrary patterns for reach; non-trivial = a non-empty matrix and right-hand side")
    for t in range(3000 if not THOROUGH else 20000):
        p = lg.prime(rng)
        h = half(p)
        big = t % 8 == 0
        m = rng.randint(1, 40 if big else 8)
        n = rng.randint(0 if t % 5 == 0 else 1, m)
        kind = rng.choice(["reach", "sparse", "sparse", "sparse", "forward", "back"])
        d = rng.choice([.1, .2, .4, .8])
        if kind == "reach" and rng.random() < .6:
            A = gen.pattern(rng, rng.randint(1, m), m, d)
            # any injective choice of pivots among the entries
            qinv = [-1] * m
            for i in rng.sample(range(A.n), A.n):
                cs = [j for j, _ in A.rows[i] if qinv[j] == -1]
                if cs and rng.random() < .8:
                    qinv[rng.choice(cs)] = i
            B = gen.pattern(rng, rng.randint(1, 4), m, rng.choice([.05, .2, .5]))
            ks = [rng.randrange(B.n) for _ in range(rng.randint(1, 5))]
            c.add("reach %s %s %s %s" % (A.tok(), B.tok(), ints(qinv), ints(ks)), {"op": "reach", "A": A.rec(), "B": B.rec(), "qinv": qinv, "acyclic": False}, A.nnz() > 0)
            continue
        if kind in ("reach", "sparse"):
            U, qinv = lg.perm_triangular(rng, p, n, m, d, rng.random() < .5)
            # drop the pivots of some rows: these rows are simply not used
            if rng.random() < .2:
                for j in range(m):
                    if qinv[j] >= 0 and rng.random() < .3:
                        qinv[j] = -1
            rows = []
            for _ in range(rng.randint(1, 5)):
                if rng.random() < .5:
                    y = vecmat([value(rng, p) if rng.random() < .4 else 0 for _ in range(n)], U, p)
                    if rng.random() < .3:
                        j = rng.randrange(m)
                        y[j] = cen(y[j] + value(rng, p), p)
                    r = [(j, y[j]) for j in range(m) if y[j]]
                    rng.shuffle(r)
                else:
                    r = [(j, value(rng, p)) for j in rng.sample(range(m), m) if rng.random() < rng.choice([.1, .5])]
                rows.append(r)
            B = gen.Mat(len(rows), m, p, rows)
            ks = [rng.randrange(B.n) for _ in range(rng.randint(1, 6))]
            if kind == "reach":
                c.add("reach %s %s %s %s" % (U.tok(), B.tok(), ints(qinv), ints(ks)), {"op": "reach", "A": U.rec(), "B": B.rec(), "qinv": qinv, "acyclic": True}, n > 0)
            else:
                c.add("tri 0 %s %s %s %s" % (U.tok(), B.tok(), ints(qinv), ints(ks)), {"op": "sparse", "h": h, "U": U.rec(), "B": B.rec(), "qinv": qinv}, n > 0 and B.nnz() > 0)
        elif kind == "forward":
            if rng.random() < .2:       # q = NULL: pivot of row i on column i
                rows = [[(i, 1)] + [(j, value(rng, p)) for j in range(i + 1, m) if rng.random() < d] for i in range(n)]
                for r in rows:
                    rng.shuffle(r)
                U, q = gen.Mat(n, m, p, rows), None
            else:
                U, qinv = lg.perm_triangular(rng, p, n, m, d, rng.random() < .5, True, True)
                q = [0] * n
                for j in range(m):
                    if qinv[j] >= 0:
                        q[qinv[j]] = j
            bs = []
            for _ in range(rng.randint(1, 4)):
                b = vecmat([rng.choice([0, value(rng, p)]) for _ in range(n)], U, p)
                if rng.random() < .45:
                    j = rng.randrange(m)
                    b[j] = cen(b[j] + value(rng, p), p)
                bs.append(b)
            c.add("tri 1 %s %s %d %s" % (U.tok(), "1 " + ints(q) if q is not None else "0", len(bs), " ".join(ints(b) for b in bs)), {"op": "forward", "h": h, "U": U.rec(), "b": bs}, n > 0)
        else:
            # L: N rows, r columns, row p[j] has its last entry (the diagonal) on column j
            N, r = m, n
            pr = rng.sample(range(N), r)
            rows = [[(j, value(rng, p)) for j in range(r) if rng.random() < d] for _ in range(N)]
            for j in range(r):
                e = [(k, value(rng, p)) for k in range(j) if rng.random() < d] + [(j, value(rng, p))]
                rng.shuffle(e)
                rows[pr[j]] = e
            nullp = rng.random() < .2
            if nullp:
                pr2 = list(range(r))
                rows2 = [rows[pr[j]] for j in range(r)] + [rows[i] for i in range(N) if i not in pr]
                rows, pr = rows2, pr2
            L = gen.Mat(N, r, p, rows)
            bs = [[rng.choice([0, value(rng, p), value(rng, p)]) for _ in range(r)] for _ in range(rng.randint(1, 4))]
            c.add("tri 2 %s %s %d %s" % (L.tok(), "0" if nullp else "1 " + ints(pr), len(bs), " ".join(ints(b) for b in bs)), {"op": "back", "h": h, "U": L.rec(), "p": pr, "b": bs}, n > 0)
    c.rules.append("plus systems of 100-260 and of more than 65536 unknowns with long chains")
    for t in range(40 if not THOROUGH else 500):
        large_tri(c, rng, t)


    for t in range(6 if not THOROUGH else 60):
        huge_tri(c, rng, t)


def schur_case(c, rng, kind, size=8, wl=None, sched=None, p=None, lcap=None, est=None, exe="det", module=None, many="", trace=0):
    p = p or lg.prime(rng)
    h = half(p)
    m = rng.randint(1, size)
    r = rng.randint(0, m if rng.random() < .3 else max(0, m - 1))
    first = kind == 2 or rng.random() < .4
    U, qinv = lg.perm_triangular(rng, p, r, m, rng.choice([.1, .3, .6]), first, True, kind == 2)
    n = rng.randint(1, size)
    A = lg.matrix(rng, p, n, m)
    if rng.random() < .4 and r:      # rows that the pivots annihilate, or nearly
        D = A.dense()
        for i in range(n):
            if rng.random() < .6:
                D[i] = vecmat([value(rng, p) if rng.random() < .5 else 0 for _ in range(r)], U, p)
                if rng.random() < .5:
                    j = rng.randrange(m)
                    D[i][j] = cen(D[i][j] + value(rng, p), p)
        A = gen.from_dense(D, n, m, p, rng)
    np_ = rng.randint(1 if kind >= 2 else 0, n)
    prm = rng.sample(range(n), np_)
    norig = n + rng.randint(0, 6)
    pin = rng.sample(range(norig), n) if rng.random() < .5 else []
    wl = (rng.random() < .6 if wl is None else wl) if kind in (0, 1) else False
    pre = [rng.randrange(norig) for _ in range(rng.choice([0, 0, 1, 3]))] if wl and r else []
    lcap = rng.choice([0, 1, 2, 5, 40]) if lcap is None else lcap
    est = rng.choice([-1, 0, 0, .05, .3, 1]) if est is None else est
    if est == -1 and r == m:
        est = 0
    dt = -1 if rng.random() < .6 else (0 if p <= 189812531 else -1)
    N = rng.randint(1, 2 * size)
    w = rng.choice([0, 0, -1, 1, 1, 2, 3, n])
    if kind == 3 and r == m:
        return
    sd = sched or lg.sched(rng)
    tok = "%sschur %d %s %d %s %s %s %s %d %d %s %s %d %d %d %d" % (many, kind, sd, trace, A.tok(), U.tok(), ints(qinv), ints(prm), wl, lcap, "1 " + ints(pin) if pin else "0", est, dt, N, w, norig)
    if wl:
        tok += " " + ints(pre)
    rec = {"kind": kind, "h": h, "A": A.rec(), "U": U.rec(), "qinv": qinv, "piv": U.piv, "ord": [i + 1 for i in U.order], "prm": prm, "pin": pin, "wl": int(wl), "pre": pre, "N": N, "w": w}
    c.add(tok, rec, r > 0 and np_ > 0, exe=exe, module=module)


def huge_tri(c, rng, t):
    """more than 65536 unknowns: one long chain, or many short ones"""
    p = lg.prime(rng)
    m = 65536 + rng.randint(10, 3000)
    n = m - rng.randint(1, 20)
    h = half(p)
    keep = t % 3 == 1
    cols = rng.sample(range(m), m)
    order = list(range(n)) if keep else rng.sample(range(n), n)
    rows, qinv, q = [None] * n, [-1] * m, [0] * n
    L = m if t % 6 < 3 else rng.choice([3, 50])
    for k in range(n):
        e = {k + 1} if (k + 1) % L else set()
        if rng.random() < .1:
            e.add(min(m - 1, k + rng.randint(1, 50)))
        e = [(cols[j], value(rng, p)) for j in e]
        e.insert(rng.randint(0, len(e)), (cols[k], 1))
        rows[order[k]] = e
        qinv[cols[k]], q[order[k]] = order[k], cols[k]
    U = gen.Mat(n, m, p, rows)
    if t % 3 == 0:
        B = gen.Mat(2, m, p, [[(cols[0], value(rng, p))], lg.srow(rng, p, m, 5)])
        ks = [0, 1, 0] if L < m else [0, 1]
        c.add("tri 0 %s %s %s %s" % (U.tok(), B.tok(), ints(qinv), ints(ks)), {"op": "sparse", "h": h, "U": U.rec(), "B": B.rec(), "qinv": qinv})
    elif t % 3 == 1:
        bs = [vecmat([value(rng, p) if rng.random() < .01 else 0 for _ in range(n)], U, p)]
        c.add("tri 1 %s %s 1 %s" % (U.tok(), "1 " + ints(q), ints(bs[0])), {"op": "forwardyes", "h": h, "U": U.rec(), "b": bs})
    else:           # long chain downwards
        pr = rng.sample(range(m), n)
        rows = [[] for _ in range(m)]
        for j in range(n):
            rows[pr[j]] = ([(j - 1, value(rng, p))] if j % L else []) + [(j, value(rng, p))]
        M = gen.Mat(m, n, p, rows)
        b = [rng.choice([0, value(rng, p)]) for _ in range(n)]
        c.add("tri 2 %s %s 1 %s" % (M.tok(), "1 " + ints(pr), ints(b)), {"op": "back", "h": h, "U": M.rec(), "p": pr, "b": [b]})


def large_tri(c, rng, t):
    """long paths and deep recursions"""
    p = lg.prime(rng)
    m = rng.randint(100, 260)
    n = rng.randint(m // 2, m - 1)
    h = half(p)
    if t % 2:
        U, qinv = lg.perm_triangular(rng, p, n, m, rng.choice([1, 2, 3]) / m, rng.random() < .5)
    else:       # one chain through all the pivots, with shortcuts
        cols = rng.sample(range(m), m)
        order = rng.sample(range(n), n)
        rows, qinv = [None] * n, [-1] * m
        for k in range(n):
            e = {cols[k + 1]} | {cols[rng.randrange(k + 1, m)] for _ in range(rng.choice([0, 0, 1]))}
            e = [(j, value(rng, p)) for j in e]
            e.insert(rng.randint(0, len(e)), (cols[k], 1))
            rows[order[k]] = e
            qinv[cols[k]] = order[k]
        U = gen.Mat(n, m, p, rows)
    rows = [lg.srow(rng, p, m, rng.choice([1, 1, 2, 5])) for _ in range(2)] + [lg.combos(rng, p, U.rows, rng.choice([1, 3, n // 2]), m)]
    B = gen.Mat(3, m, p, rows)
    ks = [rng.randrange(3) for _ in range(4)]
    c.add("tri 0 %s %s %s %s" % (U.tok(), B.tok(), ints(qinv), ints(ks)), {"op": "sparse", "h": h, "U": U.rec(), "B": B.rec(), "qinv": qinv})
    U, qinv = lg.perm_triangular(rng, p, n, m, rng.choice([1, 3, 10]) / m, rng.random() < .5, True, True)
    q = [0] * n
    for j in range(m):
        if qinv[j] >= 0:
            q[qinv[j]] = j
    bs = []
    for k in range(2):
        b = vecmat([rng.choice([0, value(rng, p)]) for _ in range(n)], U, p)
        if k:
            j = rng.randrange(m)
            b[j] = cen(b[j] + value(rng, p), p)
        bs.append(b)
    c.add("tri 1 %s %s %d %s" % (U.tok(), "1 " + ints(q), len(bs), " ".join(ints(b) for b in bs)), {"op": "forward", "h": h, "U": U.rec(), "b": bs})
    L, pr = lower(rng, p, m, n, 2 / m)
    bs = [[rng.choice([0, value(rng, p)]) for _ in range(n)]]
    c.add("tri 2 %s %s %d %s" % (L.tok(), "1 " + ints(pr), 1, ints(bs[0])), {"op": "back", "h": h, "U": L.rec(), "p": pr, "b": bs})


def far_tri(c, rng, t):
    """the last rows of matrices of more than 2^31 (or 2^32) entries"""
    p = lg.prime(rng)
    m = rng.randint(500, 900)
    n = rng.randint(5, 60)
    U, qinv = lg.perm_triangular(rng, p, n, m, rng.choice([1, 3, 10]) / m, rng.random() < .5)
    rows = [lg.srow(rng, p, m, rng.choice([1, 4])) for _ in range(2)] + [lg.combos(rng, p, U.rows, rng.choice([1, 3]), m)]
    B = gen.Mat(3, m, p, rows)
    ks = [rng.randrange(3) for _ in range(4)]
    far = "far %d %d " % (31 + t % 2, [3, 1, 2, 3][t % 4])
    if t % 3 == 2:
        c.add(far + "reach %s %s %s %s" % (U.tok(), B.tok(), ints(qinv), ints(ks)), {"op": "reach", "A": U.rec(), "B": B.rec(), "qinv": qinv, "acyclic": True}, exe="plain")
    else:
        c.add(far + "tri 0 %s %s %s %s" % (U.tok(), B.tok(), ints(qinv), ints(ks)), {"op": "sparse", "h": half(p), "U": U.rec(), "B": B.rec(), "qinv": qinv}, exe="plain")


def large_schur(c, rng, kind, t, sched, many="", module=None, far=False):
    """more than 1000 rows to process; far: they are the last rows of a matrix of more than 2^31 entries"""
    p = lg.prime(rng)
    huge = t % 8 == 7 and not far
    if far:
        m = rng.randint(500, 700)
        A = gen.Mat(0, m, p, [lg.srow(rng, p, m, rng.choice([0, 1, 2, 4])) for _ in range(rng.randint(10, 60))])
        A.n = len(A.rows)
    elif huge:             # row and column numbers beyond 16 bits
        A = lg.huge(rng, p, t % 16 == 7)
        m = A.m
    elif t % 2:
        A = lg.large(rng, p, rng.choice([0, 5]))
        m = A.m
    else:
        m = rng.randint(60, 140)
        A = gen.Mat(0, m, p, [lg.srow(rng, p, m, rng.choice([0, 1, 2, 4])) for _ in range(rng.randint(300, 1200))])
        A.n = len(A.rows)
    if huge and m > 65536:   # pivots on columns that occur in A, pivotal rows of any length
        occ = sorted({j for row in A.rows for j, _ in row})
        r = rng.randint(1, min(12, len(occ)))
        piv = rng.sample(occ, r)
        order = list(range(r)) if kind == 2 else rng.sample(range(r), r)
        rows, qinv, live = [None] * r, [-1] * m, occ + [rng.randrange(m) for _ in range(30)]
        for k in range(r):
            cs = {j for j in rng.sample(live, rng.randint(0, 20)) if j not in piv[:k + 1]}
            e = [(j, value(rng, p)) for j in cs]
            rng.shuffle(e)
            e.insert(0 if kind == 2 else rng.randint(0, len(e)), (piv[k], 1))
            rows[order[k]] = e
            qinv[piv[k]] = order[k]
        U = gen.Mat(r, m, p, rows)
        U.order = order
        U.piv = [piv[order.index(i)] for i in range(r)]
    else:
        r = rng.randint(0, m - 1) if not far else rng.randint(1, 100)
        U, qinv = lg.perm_triangular(rng, p, r, m, rng.choice([.5, 2, 5]) / m, kind == 2 or rng.random() < .4, True, kind == 2)
    n = A.n
    prm = rng.sample(range(n), n if kind < 2 else rng.randint(1, n))
    pin = rng.sample(range(n + 3), n) if rng.random() < .5 or far and kind < 2 else []
    wl = kind < 2 and rng.random() < .6
    if far:
        many = "far %d 1 " % (31 + t % 2)
    N, w = (rng.randint(1, 60), rng.choice([0, -1, 1, 2, 5])) if kind != 3 else (rng.choice([1, 20, 1100]), 0)
    lcap = rng.choice([0, 1, 100, 20000])
    tok = "%sschur %d %s 0 %s %s %s %s %d %d %s %s %d %d %d %d" % (many, kind, sched, A.tok(), U.tok(), ints(qinv), ints(prm), wl, lcap, "1 " + ints(pin) if pin else "0", rng.choice([0, .05, .3]), -1, N, w, n + 3)
    if wl:
        tok += " 0"
    rec = {"kind": kind, "h": half(p), "A": A.rec(), "U": U.rec(), "qinv": qinv, "piv": U.piv, "ord": [i + 1 for i in U.order], "prm": prm, "pin": pin, "wl": int(wl), "pre": [], "N": N, "w": w}
    c.add(tok, rec, exe="plain" if t % 4 < 2 or far else "det", module=module)


def c10(c):
    rng = c.rng
    for t in range(32 if not THOROUGH else 300):
        large_schur(c, rng, [0, 1, 0, 2, 1, 3][t % 6], t, lg.sched_large(rng))
    for t in range(12 if not THOROUGH else 80):
        large_schur(c, rng, [0, 1, 0, 2, 1, 3][t % 6], t, "4 0 1 0 0", far=True)
    c.rules.append("the last rows of a matrix of more than 2^31 or 2^32 entries (filled with copies of the same pages)")
    c.rules.append("random U (pivot anywhere, hidden order) with 0..m rows, A from 12 families and rows annihilated or nearly annihilated by U, row subsets, label maps, small L capacities, 1-4 threads under random and priority schedules; non-trivial = U and the row list are non-empty")
    for t in range(2600 if not THOROUGH else 20000):
        schur_case(c, rng, [0, 0, 0, 1, 1, 2, 2, 3][t % 8], 24 if t % 12 == 0 else 8, exe="plain" if t % 10 == 7 else "det")


DT = {"double": 0, "float": 1, "i64": 2}


def c20(c):
    rng = c.rng
    c.rules.append("dense matrices up to 40x40 (random, low rank, sparse, triangular, zero rows and columns, block products), primes 3..4294967291 including those next to the representation changes (8191, 8209, 189812507, 189812533), each admissible representation, leading dimension above the width; non-trivial = a non-zero matrix / a non-empty vector")
    for t in range(2400 if not THOROUGH else 16000):
        p = rng.choice([3, 5, 7, 101, 251, 8171, 8191, 8209, 42013, 65537, 1048573, 189812507, 189812533, 2147483629, 2147483659, 4294967279, 4294967291])
        h = half(p)
        big = t % 10 == 0
        n, m = rng.randint(1, 40 if big else 7), rng.randint(0 if t % 50 == 3 else 1, 40 if big else 7)
        A = lg.matrix(rng, p, n, m) if m else gen.Mat(n, 0, p, [[] for _ in range(n)])
        D = A.dense()
        if rng.random() < .3:
            D = [[value(rng, p) if rng.random() < .9 else 0 for _ in range(m)] for _ in range(n)]
        dts = [-1, -1, -1]
        if p <= 8191:
            dts += [0, 1, 2]
        elif p <= 189812531:
            dts += [0, 2]
        # numbering: see spasm.h (checked by the dtype records through the reported name)
        dt = rng.choice([-1, -1, "i64", "double" if p <= 189812531 else -1, "float" if p <= 8191 else -1])
        ld = m + rng.choice([0, 0, 0, 1, 5])
        kind = t % 2
        c.add("dense %d %d %d %d %d %d %s" % (kind, p, DT.get(dt, -1), n, m, ld, " ".join(str(x) for r in D for x in r)), {"op": "lu" if kind else "rref", "h": h, "n": n, "m": m, "D": D}, any(any(r) for r in D), exe="plain" if t % 6 == 5 else "det")
    for t in range(14 if not THOROUGH else 150):        # beyond the block sizes of the dense code
        p = rng.choice([3, 251, 8191, 8209, 42013, 189812507, 2147483629, 4294967291])
        n, m = rng.randint(60, 130), rng.randint(60, 130)
        r = rng.randint(1, min(n, m))
        A = lg.low_rank(rng, p, n, m, r, 3 / r if r > 6 else .5, .3) if t % 2 else lg.sparse(rng, p, n, m, rng.choice([.05, .5, 1]))
        D = A.dense()
        ld = m + rng.choice([0, 3])
        kind = t % 4 // 2
        c.add("dense %d %d %d %d %d %d %s" % (kind, p, -1, n, m, ld, " ".join(str(x) for row in D for x in row)), {"op": "lu" if kind else "rref", "h": half(p), "n": n, "m": m, "D": D}, exe="plain" if t % 3 else "det")
    for p in gen.PRIMES + [8171, 8161, 8219, 189812531, 189812509]:
        h = half(p)
        ext = [0, 1, -1, h, -h, h - 1, 1 - h]
        for rep in range(4):
            v = ext + [rng.randint(-h, h) for _ in range(60)]
            for dt in [-1, "i64"] + (["double"] if p < 2**52 else []) + (["float"] if h < 2**24 else []):
                c.add("dtype %d %d %s" % (p, DT.get(dt, -1), ints(v)), {"op": "dtype", "v": v})


def piv_matrix(rng, p, n, m):
    """matrices that leave work to the parallel search: few entries per row, many short cycles"""
    k = rng.randrange(5)
    if k == 0:
        return lg.matrix(rng, p, n, m)
    rows = []
    for i in range(n):
        w = rng.choice([1, 2, 2, 3, 3, 4])
        if k == 1:              # cyclic band
            cs = {(i + d) % m for d in range(min(w, m))}
        elif k == 2:            # everything starts on few columns, so that leftmost entries collide
            cs = {rng.randrange(max(1, m // 4))} | {rng.randrange(m) for _ in range(w)}
        elif k == 3:            # symmetric pairs: 2-cycles everywhere
            cs = {i % m, (i ^ 1) % m} | {rng.randrange(m) for _ in range(w - 1)}
        else:
            cs = {rng.randrange(m) for _ in range(w)}
        cs = list(cs)
        rng.shuffle(cs)
        rows.append([(j, value(rng, p)) for j in cs])
    rng.shuffle(rows)
    return gen.Mat(n, m, p, rows)


def contest(rng, p, size):
    """rows that start on the pivots of sparser rows and compete, in the parallel search, for columns which
    those pivots cover but do not reach"""
    k = rng.randint(2, max(2, size // 2))
    q = rng.randint(2, max(2, size // 2))
    rows = []
    cover = [k + t for t in range(q)]
    for i in range(k):               # pivots found at once: leftmost entry i
        cs = {i} | {k + t for t in range(q) if t % k == i}
        if rng.random() < .3:
            cs |= {rng.randrange(i, k)}
        rows.append(cs)
    for _ in range(rng.randint(2, max(3, size))):
        i = rng.randrange(k)
        cs = {i} | set(rng.sample(cover, rng.randint(1, min(q, 3))))
        for _ in range(rng.choice([0, 1, 1, 2])):
            cs.add(rng.randrange(i, k))
        cs |= {rng.choice(cover) for _ in range(2)} if len(cs) < 4 and rng.random() < .7 else set()
        rows.append(cs)
    m = k + q
    perm = list(range(m))            # keep the order of the columns: the leftmost entries matter
    R = []
    for cs in rows:
        r = [(perm[j], value(rng, p)) for j in sorted(cs)]
        if rng.random() < .3:
            rng.shuffle(r)
        R.append(r)
    rng.shuffle(R)
    return gen.Mat(len(R), m, p, R)


def c08(c):
    rng = c.rng
    c.rules.append("sparse matrices up to 60x60 (and of 200-1500 rows) with many short cycles and colliding leftmost entries, with and without lower factor and row labels, 1-4 threads; each matrix under up to 300 schedules (random, priority-based, and directed to the accesses through which threads communicate), the distinct outcomes judged; non-trivial = at least one entry")
    T = 1500 if not THOROUGH else 12000
    for t in range(T):
        p = lg.prime(rng)
        s = 60 if t % 50 == 0 else rng.choice([4, 6, 8, 12, 16])
        n, m = rng.randint(1, s), rng.randint(1, s)
        if t % 3:
            m = max(1, min(s, n + rng.randint(-2, 3)))
        A = contest(rng, p, s) if t % 3 != 2 else piv_matrix(rng, p, n, m)
        n, m = A.n, A.m
        greedy = rng.random() < .9
        wl = rng.random() < .5
        norig = n + rng.randint(0, 4)
        pin = rng.sample(range(norig), n) if rng.random() < .3 else []
        # the tables of the factorization are sized by the number of original rows
        if wl and pin:
            pin = rng.sample(range(n), n)
        plain = t % 12 == 7
        K = (5 if plain else 40 if s == 60 else 150) * (1 if not THOROUGH else 4)
        tok = "many %d %d piv %s 0 %s %d %d %s %s %d" % (K, rng.randrange(1 << 30), "%d 0 1 0 0" % rng.choice([2, 2, 3, 4]), ints([]), greedy, wl, "1 " + ints(pin) if pin else "0", A.tok(), rng.choice([0, 1, A.nnz()]))
        c.add(tok, {"h": half(p), "A": A.rec(), "pin": pin, "wl": int(wl)}, A.nnz() > 0, exe="plain" if plain else "det")


    for t in range(40 if not THOROUGH else 400):
        A = lg.large(rng, None, [2, 5, 4, 3, 5, 1][t % 6])
        if t % 10 == 7:
            A = lg.huge(rng, None, t % 20 == 7)
        if t % 5 == 4:           # many rows that compete
            k = rng.randint(300, 700)
            p = lg.prime(rng)
            A = gen.Mat(2 * k, 2 * k, p, [[(j, value(rng, p)) for j in {(i // 2) * 2, rng.randrange(2 * k), rng.randrange(2 * k)}] for i in range(2 * k)])
            rng.shuffle(A.rows)
        wl = rng.random() < .5
        plain = t % 2 == 0
        tok = "many %d %d piv %s 0 %s %d %d %s %s %d" % (3, rng.randrange(1 << 30), lg.sched_large(rng) if not plain else "4 0 1 0 0", ints([]), rng.random() < .8, wl, "0", A.tok(), rng.choice([0, 1, A.nnz()]))
        c.add(tok, {"h": half(A.p), "A": A.rec(), "pin": [], "wl": int(wl)}, exe="plain" if plain else "det")
    c.rules.append("the last rows of matrices of more than 2^31 entries (the rows before are full)")
    for t in range(3 if not THOROUGH else 24):
        p = lg.prime(rng)
        m = [2500, 30000, 70000][t % 3] + rng.randint(0, 500)
        rows = [lg.srow(rng, p, m, rng.choice([1, 2, 4])) for _ in range(rng.randint(5, 60))]
        for _ in range(rng.randint(0, 60)):      # colliding columns, short cycles
            rows.append([(j, gen.value(rng, p)) for j in rng.sample(range(m - 20, m), rng.randint(1, 4))])
        rng.shuffle(rows)
        A = gen.Mat(len(rows), m, p, rows)
        full = gen.Mat(A.n + 1, m, p, [[(j, 1) for j in range(m)]] + rows)
        c.add("far 31 1 piv %d 0 1 0 0 0 %s %d 0 0 %s %d" % ([4, 4, 2, 1][t % 4], ints([]), t % 3 != 2, A.tok(), 10), {"h": half(p), "A": full.rec(), "pin": [], "wl": 0}, exe="plain")


def lower(rng, p, N, r, d):
    """N x r, row pr[j] ends on a non-zero coefficient of column j"""
    pr = rng.sample(range(N), r)
    rows = [[(j, value(rng, p)) for j in range(r) if rng.random() < d] for _ in range(N)]
    for j in range(r):
        e = [(k, value(rng, p)) for k in range(j) if rng.random() < d] + [(j, value(rng, p))]
        rng.shuffle(e)
        rows[pr[j]] = e
    return gen.Mat(N, r, p, rows), pr


def filling(rng, p, size):
    """echelon form (rows in order) whose reduced form and kernel are much fuller than it"""
    m = rng.randint(2, size)
    n = rng.randint(1, m if rng.random() < .3 else max(1, m - 1))
    if rng.random() < .5:
        U, qinv = lg.perm_triangular(rng, p, n, m, rng.choice([.1, .2, .5]), True, True, True)
    else:       # chains ending on free columns
        cols = rng.sample(range(m), m)
        rows, qinv = [], [-1] * m
        for i in range(n):
            nxt = cols[i + 1:i + 1 + rng.choice([1, 1, 2])] + [c for c in cols[n:] if rng.random() < .15]
            e = [(c, value(rng, p)) for c in dict.fromkeys(nxt)]
            rows.append([(cols[i], 1)] + e)
            qinv[cols[i]] = i
        U = gen.Mat(n, m, p, rows)
    return U, qinv


def c09(c):
    rng = c.rng
    c.rules.append("given echelon forms (with lower factors) whose reduced form, kernel and Schur complement outgrow the initial buffers, up to 20 columns, capacities from 0; every computation by 2-4 threads under up to 150 schedules, directed to the accesses through which threads communicate, the distinct outcomes judged; the sequence of writes and reallocations of further runs replayed against RowStore; non-trivial = more than one row to assemble")
    K = 120 if not THOROUGH else 600
    for t in range(700 if not THOROUGH else 6000):
        p = lg.prime(rng)
        plain = t % 14 == 9
        k = (20 if plain else K)
        many = "many %d %d " % (k, rng.randrange(1 << 30))
        kind = t % 5
        th = "%d 0 1 0 0" % rng.choice([2, 2, 3, 4])
        ex = "plain" if plain else "det"
        if kind < 2:
            schur_case(c, rng, kind, rng.choice([5, 8, 12]), wl=rng.random() < .7, sched=th, lcap=rng.choice([0, 0, 1, 3]), est=rng.choice([0, 0, .05]), exe=ex, module="C10", many=many)
            continue
        U, qinv = filling(rng, p, rng.choice([4, 7, 12, 20]))
        rec = {"kind": kind - 2, "h": half(p), "U": U.rec(), "qinv": qinv}
        tok = "%sasm %d %s 0 %s %s" % (many, kind - 2, th, U.tok(), ints(qinv))
        if kind == 4:
            L, pr = lower(rng, p, rng.randint(U.n, U.n + 5), U.n, rng.choice([.2, .5]))
            bs = []
            for _ in range(rng.randint(0 if t % 25 == 4 else 2, 6)):
                b = vecmat([rng.choice([0, value(rng, p)]) for _ in range(U.n)], U, p)
                if rng.random() < .3:
                    j = rng.randrange(U.m)
                    b[j] = cen(b[j] + value(rng, p), p)
                bs.append(b)
            B = gen.from_dense(bs, len(bs), U.m, p, rng)
            wo = rng.random() < .8
            rec.update(L=L.rec(), p=pr, B=B.rec(), withok=bool(wo))
            tok += " %s %s %s %d" % (L.tok(), ints(pr), B.tok(), wo)
        c.add(tok, rec, U.m - U.n > 1 or U.n > 1, exe=ex)
    for t in range(24 if not THOROUGH else 300):
        many = "many 3 %d " % rng.randrange(1 << 30)
        if t % 4 < 2:
            large_schur(c, rng, t % 2, t // 4, lg.sched_large(rng) if t % 8 > 3 else "4 0 1 0 0", many, "C10")
            continue
        p = lg.prime(rng)
        m = rng.randint(100, 220)
        n = rng.randint(m // 2, m - 10)
        U, qinv = lg.perm_triangular(rng, p, n, m, rng.choice([1, 2, 4]) / m, True, True, True)
        plain = t % 8 > 3
        c.add("%sasm %d %s 0 %s %s" % (many, t % 4 - 2, "4 0 1 0 0" if plain else lg.sched_large(rng), U.tok(), ints(qinv)), {"kind": t % 4 - 2, "h": half(p), "U": U.rec(), "qinv": qinv}, exe="plain" if plain else "det")
    for t in range(240 if not THOROUGH else 3000):
        p = lg.prime(rng)
        sd = lg.sched(rng, rng.choice([2, 3, 4]))
        if t % 3 == 0:
            schur_case(c, rng, 0, rng.choice([4, 6, 8]), wl=rng.random() < .7, sched=sd, lcap=rng.choice([0, 0, 1, 3]), est=0, module="RowTrace", trace=1)
        else:
            U, qinv = filling(rng, p, rng.choice([4, 7, 10]))
            c.add("asm %d %s 1 %s %s" % (t % 3 - 1, sd, U.tok(), ints(qinv)), {"kind": t % 3 - 1, "U": U.rec()}, True, module="RowTrace")
