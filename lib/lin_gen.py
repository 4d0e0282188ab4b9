"""Matrices for the linear-algebra checks."""
import gen
from gen import Mat, half, cen, value


def prime(rng):
    k = rng.random()
    if k < .3:
        return rng.choice([3, 5, 7])
    if k < .5:
        return 42013
    return rng.choice(gen.PRIMES)


def small_or_any(rng, p):
    return value(rng, p)


def perm_triangular(rng, p, n, m, d, first, unit=True, keep_order=False):
    """n <= m rows, each with a pivot (1 when unit); row k has no entry on the pivots of earlier rows
    (in a hidden order); returns (matrix, qinv)"""
    cols = rng.sample(range(m), m)
    piv = cols[:n]
    order = list(range(n)) if keep_order else rng.sample(range(n), n)
    rows = [None] * n
    qinv = [-1] * m
    for t in range(n):
        i = order[t]
        allowed = piv[t + 1:] + cols[n:]
        ent = [(j, value(rng, p)) for j in allowed if rng.random() < d]
        rng.shuffle(ent)
        pe = (piv[t], 1 if unit else value(rng, p))
        if first:
            ent.insert(0, pe)
        else:
            ent.insert(rng.randint(0, len(ent)), pe)
        rows[i] = ent
        qinv[piv[t]] = i
    M = Mat(n, m, p, rows)
    M.order = order
    M.piv = [piv[order.index(i)] for i in range(n)]
    return M, qinv


def vecmat(x, M, p):
    y = [0] * M.m
    for i, r in enumerate(M.rows):
        if x[i]:
            for j, v in r:
                y[j] = cen(y[j] + x[i] * v, p)
    return y


def sparse(rng, p, n, m, d):
    return Mat(n, m, p, [[(j, value(rng, p)) for j in rng.sample(range(m), m) if rng.random() < d] for _ in range(n)])


def from_rows(D, n, m, p, rng):
    return gen.from_dense(D, n, m, p, rng)


def low_rank(rng, p, n, m, r, d1=.5, d2=.5):
    L = [[value(rng, p) if rng.random() < d1 else 0 for _ in range(r)] for _ in range(n)]
    R = [[value(rng, p) if rng.random() < d2 else 0 for _ in range(m)] for _ in range(r)]
    D = [[cen(sum(L[i][k] * R[k][j] for k in range(r)), p) for j in range(m)] for i in range(n)]
    return from_rows(D, n, m, p, rng)


def matrix(rng, p, n, m):
    """a matrix from one of the families"""
    if n == 0 or m == 0:
        return Mat(n, m, p, [[] for _ in range(n)])
    k = rng.randrange(12)
    if k <= 2:
        return sparse(rng, p, n, m, rng.choice([.1, .2, .3, .5]))
    if k == 3:
        return sparse(rng, p, n, m, rng.choice([.8, 1]))
    if k == 4:
        return low_rank(rng, p, n, m, rng.randint(0, max(1, min(n, m) - 1)))
    if k == 5:
        return low_rank(rng, p, n, m, rng.randint(1, min(n, m)), .2, .3)
    if k == 6:          # structurally triangular, rows and columns permuted, plus combinations
        r = rng.randint(1, min(n, m))
        U, _ = perm_triangular(rng, p, r, m, rng.choice([.1, .3, .6]), rng.random() < .5, False)
        D = U.dense()
        while len(D) < n:
            x = [value(rng, p) if rng.random() < .4 else 0 for _ in range(r)]
            D.append(vecmat(x, U, p))
        rng.shuffle(D)
        return from_rows(D, n, m, p, rng)
    if k == 7:          # duplicate and proportional rows, zero rows and columns
        B = sparse(rng, p, max(1, n // 2), m, .4).dense()
        dead = [j for j in range(m) if rng.random() < .3]
        D = []
        for i in range(n):
            s = value(rng, p) if rng.random() < .6 else 1
            row = [cen(s * x, p) for x in rng.choice(B)] if rng.random() < .85 else [0] * m
            for j in dead:
                row[j] = 0
            D.append(row)
        return from_rows(D, n, m, p, rng)
    if k == 8:          # banded
        D = [[value(rng, p) if 0 <= j - i * m // n <= 2 else 0 for j in range(m)] for i in range(n)]
        return from_rows(D, n, m, p, rng)
    if k == 9:          # sparse with a few dense rows and columns
        M = sparse(rng, p, n, m, .15).dense()
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(n)
            M[i] = [value(rng, p) for _ in range(m)]
        j = rng.randrange(m)
        for i in range(n):
            M[i][j] = value(rng, p)
        return from_rows(M, n, m, p, rng)
    if k == 10:         # singular cycles: structurally non singular, numerically singular blocks
        D = [[0] * m for _ in range(n)]
        i = 0
        while i + 1 < min(n, m):
            a, b, s = value(rng, p), value(rng, p), value(rng, p)
            D[i][i], D[i][i + 1] = a, b
            D[i + 1][i], D[i + 1][i + 1] = cen(a * s, p), cen(b * s, p)
            if rng.random() < .3 and m > 2:
                D[i][rng.randrange(m)] = value(rng, p)
            i += 2
        rng.shuffle(D)
        return from_rows(D, n, m, p, rng)
    # block diagonal mixture
    D = [[0] * m for _ in range(n)]
    a, b = rng.randint(1, n), rng.randint(1, m)
    A1, A2 = matrix_simple(rng, p, a, b).dense(), matrix_simple(rng, p, n - a, m - b).dense()
    for i in range(a):
        D[i][:b] = A1[i]
    for i in range(n - a):
        D[a + i][b:] = A2[i]
    return from_rows(D, n, m, p, rng)


def matrix_simple(rng, p, n, m):
    if n == 0 or m == 0:
        return Mat(n, m, p, [[] for _ in range(n)])
    return low_rank(rng, p, n, m, rng.randint(0, min(n, m)), .5, .5) if rng.random() < .5 else sparse(rng, p, n, m, .3)


def sched(rng, t=None):
    """threads policy mean seed depth"""
    t = t or rng.choice([1, 2, 2, 3, 4, 4])
    pol = rng.choice([0, 1, 1, 1, 2, 2]) if t > 1 else 0
    return "%d %d %d %d %d" % (t, pol, rng.choice([1, 2, 5, 20, 100, 500]), rng.randrange(1 << 30), rng.choice([1, 2, 3, 5, 10]))


def sched_large(rng):
    """long computations: few preemptions per access"""
    t = rng.choice([1, 2, 2, 3, 4, 4])
    pol = rng.choice([0, 1, 1, 2]) if t > 1 else 0
    return "%d %d %d %d %d" % (t, pol, rng.choice([200, 500, 2000]), rng.randrange(1 << 30), rng.choice([1, 2, 3, 5, 10]))


def combos(rng, p, base, k, m):
    """a combination of k rows of base"""
    d = {}
    for i in rng.sample(range(len(base)), min(k, len(base))):
        c = value(rng, p)
        for j, x in base[i]:
            d[j] = cen(d.get(j, 0) + c * x, p)
    r = [(j, x) for j, x in d.items() if x]
    rng.shuffle(r)
    return r


def srow(rng, p, m, k):
    return [(j, value(rng, p)) for j in rng.sample(range(m), min(k, m))]


def wrap(rng, p, T):
    """a matrix whose (structural) Schur complement is T up to scaling: [I T; E 0], shuffled"""
    n, m = T.n, T.m
    D = []
    for i, row in enumerate(T.rows):
        s = value(rng, p)
        top = [(i, s)] + [(n + j, x) for j, x in row]
        if rng.random() < .15 and i + 1 < n:
            top.append((rng.randrange(i + 1, n), value(rng, p)))
        D.append(top)
        if rng.random() < .95:
            D.append([(i, value(rng, p))] + ([(rng.randrange(i + 1, n), value(rng, p))] if rng.random() < .1 and i + 1 < n else []))
    rng.shuffle(D)
    q = rng.sample(range(n + m), n + m)
    return Mat(len(D), n + m, p, [[(q[j], x) for j, x in row] for row in D])


def hide(rng, p, T):
    """a matrix whose Schur complement is T although no structural pivot of T is visible: each row t of T
    becomes (a | u), (s*a | s*u + t) with u on the support of t; the first columns are the leftmost ones"""
    n, D = T.n, []
    for i, row in enumerate(T.rows):
        a, s = value(rng, p), value(rng, p)
        top, bot = [(i, a)], [(i, cen(s * a, p))]
        for j, x in row:
            u = value(rng, p)
            while cen(s * u + x, p) == 0:
                u = value(rng, p)
            top.append((n + j, u))
            bot.append((n + j, cen(s * u + x, p)))
        D += [top, bot]
    rng.shuffle(D)
    return Mat(len(D), n + T.m, p, [rng.sample(row, len(row)) for row in D])


def layers(rng, p):
    """several rounds of structural pivots, each revealing a denser Schur complement"""
    k = rng.randrange(4)
    n, m = rng.randint(2, 7), rng.randint(2, 7)
    if k == 0:
        T = sparse(rng, p, n, m, rng.choice([.8, 1]))
    elif k == 1:
        T = low_rank(rng, p, n, m, rng.randint(1, min(n, m)))
    elif k == 2:
        T = low_rank(rng, p, n + 8, m, rng.randint(1, m))
    else:
        T = sparse(rng, p, n, m, .5)
    style = rng.choice(["w", "wh", "wh", "wh", "wh", "h", "hh", "wwh", "whwh" if T.n < 5 else "wh"])
    for c in style:
        T = wrap(rng, p, T) if c == "w" else hide(rng, p, T)
    return T


def runs(rng, p):
    """runs of zero rows, of rows in the span of the previous ones and of new rows, in this order"""
    m = rng.randint(2, 14)
    new, rows, first = [], [], rng.choice("zzdn")
    for t in range(rng.randint(2, 7)):
        k = first if t == 0 else rng.choice("zdddnn")
        if k == "z" or (k == "d" and not new):
            rows += [[] for _ in range(rng.choice([1, 3, 11, 12, 13, 25, 40]))]
        elif k == "d":
            few = rng.sample(new, rng.randint(1, min(2, len(new))))
            rows += [combos(rng, p, rng.choice([few, new]), rng.choice([1, 1, 2, 3]), m) for _ in range(rng.choice([1, 3, 11, 12, 13, 25, 40]))]
        else:
            for _ in range(rng.randint(1, 3)):
                new.append(srow(rng, p, m, rng.randint(1, 5)))
                rows.append(new[-1])
    A = Mat(len(rows), m, p, rows)
    return wrap(rng, p, A) if rng.random() < .2 and A.n < 60 else A


def large(rng, p=None, kind=None, scale=1):
    """matrices beyond the thresholds of the code (n > 1000, blocks, early abort after n/100 rows, ...)"""
    p = p or prime(rng)
    kind = rng.randrange(7) if kind is None else kind
    if kind <= 1:            # tall, rank r << n; the last independent rows may come late
        n, m = rng.choice([rng.randint(1001, 1500), rng.randint(1001, 1500), rng.randint(2001, 3100)]), rng.randint(20, 90)
        r = rng.randint(3, min(40, m - 1))
        base = [srow(rng, p, m, rng.randint(2, 6)) for _ in range(r)]
        rows = list(base) if rng.random() < .6 else []
        late = [srow(rng, p, m, rng.randint(2, 5)) for _ in range(rng.randint(0, 2))] if kind == 1 else []
        while len(rows) < n - len(late):
            rows.append(combos(rng, p, base, rng.choice([1, 2, 2, 3]), m))
        if rng.random() < .5:
            rng.shuffle(rows)
        for x in late:
            rows.insert(rng.randint(n // 2, len(rows)), x)
        return Mat(len(rows), m, p, rows)
    if kind == 2:            # square, very sparse, structurally rich
        n = rng.randint(200, 420)
        m = n + rng.randint(-20, 20)
        return Mat(n, m, p, [srow(rng, p, m, rng.choice([0, 1, 2, 2, 3])) for _ in range(n)])
    if kind == 3:            # triangular part, then a dense-ish core
        m = rng.randint(150, 260)
        k, r = rng.randint(80, m - 40), rng.randint(20, 50)
        rows = [[(i, value(rng, p))] + [(j, value(rng, p)) for j in rng.sample(range(i + 1, m), 2)] for i in range(k)]
        rows += [srow(rng, p, m, rng.randint(5, 12)) for _ in range(r)]
        rng.shuffle(rows)
        for _ in range(rng.randint(0, 20)):
            rows.insert(rng.randint(0, len(rows)), combos(rng, p, rows, 3, m))
        return Mat(len(rows), m, p, rows)
    if kind == 4:            # wide
        n, m = rng.randint(30, 90), rng.randint(1001, 1400)
        rows = [srow(rng, p, m, rng.randint(1, 8)) for _ in range(n)]
        for _ in range(rng.randint(0, 10)):
            rows.insert(rng.randint(0, len(rows)), combos(rng, p, rows, 3, m))
        return Mat(len(rows), m, p, rows)
    if kind == 6:            # layers, each revealed by the elimination of the previous one
        k = rng.randint(15, 40)
        D = sparse(rng, p, k, rng.randint(15, 40), rng.choice([.4, 1])) if rng.random() < .5 else low_rank(rng, p, k, k, rng.randint(3, k))
        A = hide(rng, p, wrap(rng, p, D))
        A.layered = True
        return A
    # tall and sparse: many rows of weight 1-3
    n, m = rng.choice([rng.randint(1001, 1400), rng.randint(1001, 1400), rng.randint(2001, 3100)]), rng.randint(150, 300)
    return Mat(n, m, p, [srow(rng, p, m, rng.choice([0, 1, 2, 2, 3])) for _ in range(n)])


def huge(rng, p=None, tall=None):
    """more than 65536 rows (few columns) or columns (few rows): row and column numbers beyond 16 bits"""
    p = p or prime(rng)
    tall = rng.random() < .5 if tall is None else tall
    big, few = 65536 + rng.randint(50, 4000), rng.randint(3, 8)
    if tall:
        base = [srow(rng, p, few, rng.randint(1, 3)) for _ in range(rng.randint(1, 3))] + [[]]
        rows = [rng.choice(base) for _ in range(big)]
        for _ in range(rng.randint(1, 3)):
            rows[rng.choice([rng.randrange(65536, big), rng.randrange(big)])] = srow(rng, p, few, rng.randint(1, 4))
        return Mat(big, few, p, rows)
    rows = []
    for _ in range(few):
        cols = {rng.randrange(65536, big) for _ in range(rng.randint(1, 40))} | {rng.randrange(big) for _ in range(rng.randint(0, 60))}
        # the same column number modulo 65536
        cols |= {j - 65536 for j in cols if j >= 65536 and rng.random() < .3}
        r = [(j, value(rng, p)) for j in cols]
        rng.shuffle(r)
        rows.append(r)
    if rng.random() < .5:
        rows.append(combos(rng, p, rows, 2, big))
    return Mat(len(rows), big, p, rows)
