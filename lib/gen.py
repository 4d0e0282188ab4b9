"""Case generators (driver tokens + the abstract input record given to the specification)."""
import itertools

PRIMES = [3, 5, 7, 11, 13, 31, 101, 251, 257, 8191, 8209, 32003, 42013, 65521, 65537, 1048573, 189812507, 189812533, 2147483629, 2147483647, 2147483659, 4294967279, 4294967291]
SMALLP = [3, 5, 7, 11, 13]


def half(p):
    return (p - 1) // 2


def cen(a, p):
    a %= p
    return a - p if a > (p - 1) // 2 else a


class Mat:
    """rows: list of lists of (col, value) in storage order; values canonical."""

    def __init__(self, n, m, p, rows, v=1):
        self.n, self.m, self.p, self.rows, self.v = n, m, p, rows, v

    def tok(self):
        nz = sum(len(r) for r in self.rows)
        t = ["%d %d %d %d %d" % (self.n, self.m, self.p, self.v, nz)]
        for r in self.rows:
            t.append(str(len(r)))
            for j, x in r:
                t.append("%d %d" % (j, x) if self.v else str(j))
        return " ".join(t)

    def rec(self):
        P, J, X = [0], [], []
        for r in self.rows:
            for j, x in r:
                J.append(j)
                X.append(x)
            P.append(len(J))
        return {"n": self.n, "m": self.m, "v": self.v, "p": P, "j": J, "x": X if self.v else []}

    def nnz(self):
        return sum(len(r) for r in self.rows)

    def dense(self):
        D = [[0] * self.m for _ in range(self.n)]
        for i, r in enumerate(self.rows):
            for j, x in r:
                D[i][j] = cen(D[i][j] + x, self.p)
        return D


def value(rng, p):
    """a canonical non-zero residue; extremes are frequent"""
    h = half(p)
    k = rng.randrange(10)
    if k < 3:
        return rng.choice([1, -1])
    if k < 5:
        return rng.choice([h, -h])
    while True:
        x = rng.randint(-h, h)
        if x:
            return x


def from_dense(D, n, m, p, rng=None, v=1):
    rows = []
    for i in range(n):
        r = [(j, D[i][j]) for j in range(m) if D[i][j]]
        if rng:
            rng.shuffle(r)
        rows.append(r)
    return Mat(n, m, p, rows, v)


def pattern(rng, n, m, d):
    return Mat(n, m, 3, [[(j, 1) for j in rng.sample(range(m), m) if rng.random() < d] for _ in range(n)], 0)


def all_patterns(n, m):
    for bits in range(1 << (n * m)):
        yield Mat(n, m, 3, [[(j, 1) for j in range(m) if bits >> (i * m + j) & 1] for i in range(n)], 0)


def bits_pattern(n, m, bits):
    return Mat(n, m, 3, [[(j, 1) for j in range(m) if bits >> (i * m + j) & 1] for i in range(n)], 0)


def structured_pattern(rng, n, m):
    """patterns with structure: blocks, chains, stars, planted matchings"""
    E = set()
    kind = rng.randrange(6)
    if kind == 0:        # long alternating chain
        for i in range(n):
            if i < m:
                E.add((i, i))
            if i + 1 < m:
                E.add((i, i + 1))
    elif kind == 1:      # planted matching + noise
        perm = rng.sample(range(m), m)
        for i in range(min(n, m)):
            E.add((i, perm[i]))
        for _ in range(rng.randint(0, n + m)):
            if n and m:
                E.add((rng.randrange(n), rng.randrange(m)))
    elif kind == 2:      # over and under determined blocks
        a, b = rng.randint(0, n), rng.randint(0, m)
        for i in range(n):
            for j in range(m):
                if (i < a and j < b and rng.random() < .5) or (i >= a and j >= b and rng.random() < .4) or (i < a and j >= b and rng.random() < .2):
                    E.add((i, j))
    elif kind == 3:      # stars
        for i in range(n):
            if m:
                E.add((i, rng.randrange(max(1, m // 3))))
        for j in range(m):
            if n:
                E.add((rng.randrange(max(1, n // 3)), j))
    elif kind == 4:      # cycles
        k = min(n, m)
        i = 0
        while i < k:
            l = rng.randint(1, 4)
            blk = list(range(i, min(k, i + l)))
            for t, a in enumerate(blk):
                E.add((a, blk[(t + 1) % len(blk)]))
                if rng.random() < .5:
                    E.add((a, a))
            i += l
        for _ in range(rng.randint(0, k)):
            a, b = rng.randrange(k), rng.randrange(k)
            if a < b:
                E.add((a, b))
    else:
        for i in range(n):
            for j in range(m):
                if rng.random() < 2.0 / max(1, m):
                    E.add((i, j))
    pr, pc = rng.sample(range(n), n), rng.sample(range(m), m)
    rows = [[] for _ in range(n)]
    for i, j in E:
        rows[pr[i]].append((pc[j], 1))
    for r in rows:
        r.sort()
        rng.shuffle(r)
    return Mat(n, m, 3, rows, 0)


def patterns(rng, quick, square=False):
    """the stream of patterns used by the combinatorial checks"""
    lim = 3
    for n in range(0 if not square else 0, lim + 1):
        for m in range(lim + 1):
            if square and n != m:
                continue
            for M in all_patterns(n, m):
                yield M, "exhaustive"
    if not quick:
        for n, m in ((4, 4),) if square else ((3, 4), (4, 3), (2, 5), (5, 2)):
            for M in all_patterns(n, m):
                yield M, "exhaustive"
    for n, m in ((4, 4),) if square else ((4, 4), (3, 4), (4, 3), (3, 5), (5, 3)):
        for _ in range(1500 if quick else 9000):
            yield bits_pattern(n, m, rng.getrandbits(n * m) & (rng.getrandbits(n * m) | rng.getrandbits(n * m))), "random"
    for t in range(3600 if quick else 20000):
        big = t % 12 == 0
        n = rng.randint(1, 30 if big else 9)
        m = n if square else rng.randint(1, 30 if big else 9)
        if rng.random() < .4:
            yield pattern(rng, n, m, rng.choice([.05, .1, .2, .3, .5, .8])), "random"
        else:
            yield structured_pattern(rng, n, m), "structured"


def ints(v):
    return "%d %s" % (len(v), " ".join(map(str, v)))


def large_patterns(rng, count, square=False, lo=60, hi=220):
    """sparse patterns with long alternating paths, long cycles, several blocks of each kind"""
    for t in range(count):
        n = rng.randint(lo, hi)
        m = n if square else rng.choice([n, n, n + rng.randint(-20, 20), rng.randint(lo, hi)])
        if t % 3 == 0:
            yield structured_pattern(rng, n, m)
            continue
        E = set()
        if t % 3 == 1:       # average degree 1-3
            for _ in range(int(n * rng.choice([1, 1.3, 1.7, 2.3, 3]))):
                E.add((rng.randrange(n), rng.randrange(m)))
        else:                # one long chain or cycle, with a few shortcuts
            k = min(n, m)
            for i in range(k):
                if square or rng.random() < .97:
                    E.add((i, (i + 1) % m))
                if rng.random() < .9:
                    E.add((i, i))
            for _ in range(rng.choice([0, 2, 10])):
                E.add((rng.randrange(n), rng.randrange(m)))
            if rng.random() < .5:
                E.discard((k - 1, 0))
        pr, pc = rng.sample(range(n), n), rng.sample(range(m), m)
        if square:
            pc = pr
        rows = [[] for _ in range(n)]
        for i, j in sorted(E):
            rows[pr[i]].append((pc[j], 1))
        for r in rows:
            rng.shuffle(r)
        yield Mat(n, m, 3, rows, 0)


def huge_patterns(rng, count, square=False):
    """more than 65536 vertices: short and long paths, cycles, few long rows or columns"""
    for t in range(count):
        big = 65536 + rng.randint(10, 3000)
        k = t % 3
        if k == 2 and not square:      # very tall or very wide
            few = rng.randint(3, 40)
            n, m = (big, few) if rng.random() < .5 else (few, big)
            rows = [[] for _ in range(n)]
            for _ in range(rng.choice([40, 1000, 70000])):
                i, j = rng.randrange(n), rng.randrange(m)
                if (j, 1) not in rows[i][-2:] and len(rows[i]) < 5000:
                    rows[i].append((j, 1))
            rows = [list(dict.fromkeys(r)) for r in rows]
            yield Mat(n, m, 3, rows, 0)
            continue
        n = m = big
        rows = [set() for _ in range(n)]
        pr = rng.sample(range(n), n)
        pc = pr if square else rng.sample(range(n), n)
        i = 0
        while i < n:
            L = min(n - i, rng.choice([1, 1, 2, 3, 10, 300, 3000] if k else [1, 2, 3, 5]))
            for a in range(i, i + L):
                if rng.random() < .97:
                    rows[pr[a]].add(pc[a])
                if a + 1 < i + L:
                    rows[pr[a]].add(pc[a + 1])
            if rng.random() < .6:
                rows[pr[i + L - 1]].add(pc[i])
            if i and rng.random() < .5:
                rows[pr[rng.randrange(i)]].add(pc[rng.randrange(i, i + L)])
            i += L
        yield Mat(n, m, 3, [[(j, 1) for j in rng.sample(sorted(r), len(r))] for r in rows], 0)
