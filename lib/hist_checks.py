from core import *
import gen, itertools
from gen import half, cen


def limbs(x):
    a = abs(x)
    return {"s": 1 if x >= 0 else -1, "w": [(a >> 48) & 0xffff, (a >> 32) & 0xffff, (a >> 16) & 0xffff, a & 0xffff]}


class H:
    """a history: tokens + abstract arguments"""

    def __init__(self, p):
        self.p = p
        self.t, self.a = [], []
        self.info = {}

    def step(self, op, tok, **arg):
        self.t.append((op + " " + tok).strip())
        self.a.append(dict(arg, op=op))

    def tnew(self, n, m, cap, v):
        self.step("tnew", "%d %d %d %d %d" % (n, m, cap, self.p, v), n=n, m=m, v=v)

    def add(self, i, j, x):
        self.step("add", "%d %d %d" % (i, j, x), i=i, j=j, **limbs(x))

    def addall(self, ent):
        self.step("addall", "%d %s" % (len(ent), " ".join("%d %d %d" % e for e in ent)), ent=[dict(i=i, j=j, **limbs(x)) for i, j, x in ent])

    def ttr(self):
        self.step("ttr", "")

    def compress(self, d):
        self.step("compress", str(d), dst=d)

    def live(self):
        L = set()
        for a in self.a:
            if "dst" in a:
                L.add(a["dst"])
            elif a["op"] == "free":
                L.discard(a["src"])
        return sorted(L)

    def free(self, rng):
        """release everything, in any order, looking at what is left each time"""
        todo = [str(x) for x in self.live()] + ["freenull"] * (rng.random() < .3)
        last = [a["op"] for a in self.a if a["op"] in ("tnew", "tfree")][-1:]
        todo += ["t"] * (last == ["tnew"])
        rng.shuffle(todo)
        for x in todo:
            if x == "t":
                self.step("tfree", "")
            elif x == "freenull":
                self.step("freenull", "")
            else:
                self.step("free", x, src=int(x))

    def done(self, c, nt=True, far="", **kw):
        c.add(far + "hist %d %s" % (len(self.t), " ".join(self.t)), {"h": half(self.p), "prime": str(self.p), "steps": self.a}, nt, "Hist", **kw)


def bigvalue(rng, p):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0, p, -p, 2 * p, p * rng.randint(-5, 5)])
    if k == 1:
        return rng.choice([2**63 - 1, -2**63, -2**63 + 1, 2**62, 2**31, -2**31, 2**32, 2**53 + 1])
    if k == 2:
        return rng.choice([half(p), -half(p), half(p) + 1, -half(p) - 1, p - 1, p + 1])
    if k == 3:
        return rng.randint(-2**63, 2**63 - 1)
    return rng.randint(-3, 3)


def c15(c):
    rng = c.rng
    c.rules.append("histories of insertions / transpositions / compressions: every sequence of up to 3 insertions (4 in thorough) of +-1 into a 2x2 matrix mod 3, random histories mod 3..4294967291 with duplicates, cancellations and 64-bit values; non-trivial = at least one insertion")
    pos = list(itertools.product(range(2), range(2), (1, -1)))
    for L in range(0, 4 if not THOROUGH else 5):
        for seq in itertools.product(pos, repeat=L):
            h = H(3)
            h.tnew(2, 2, 1, 1)
            for i, j, x in seq:
                h.add(i, j, x)
            h.compress(0)
            h.done(c, L > 0)
    for L in range(0, 4):
        for seq in itertools.product(list(itertools.product(range(2), range(2))), repeat=L):
            h = H(3)
            h.tnew(0, 0, 0, 0)
            for i, j in seq:
                h.add(i, j, 1)
            h.compress(0)
            h.done(c, L > 0)
    for t in range(2500 if not THOROUGH else 15000):
        p = rng.choice(gen.PRIMES if rng.random() < .6 else [3, 5, 7])
        h = H(p)
        v = 0 if rng.random() < .15 else 1
        big = t % 10 == 0
        n, m = rng.randint(0, 25 if big else 5), rng.randint(0, 25 if big else 5)
        grow = rng.random() < .5
        h.tnew(n if rng.random() < .8 else 0, m if rng.random() < .8 else 0, rng.choice([0, 0, 1, 2, 5, 50]), v)
        n, m = max(n, 1), max(m, 1)
        hist = []
        cur = (n, m)
        for s in range(rng.randint(0, 120 if big else 14)):
            k = rng.random()
            if k < .06:
                h.ttr()
                cur = (cur[1], cur[0])
                hist = [(j, i, x) for i, j, x in hist]
            elif k < .1:
                h.step("trealloc", str(len(hist) + rng.randint(0, 3)), c=len(hist))
            elif k < .16:
                h.compress(rng.randrange(4))
            elif k < .18 and h.live():
                x = rng.choice(h.live())
                h.step("show", str(x), src=x)
            elif k < .2 and h.live():
                x = rng.choice(h.live())
                h.step("free", str(x), src=x)
            else:
                i, j, x = rng.randrange(cur[0]), rng.randrange(cur[1]), bigvalue(rng, p)
                if grow and rng.random() < .05:
                    i += rng.randint(0, 5)
                    cur = (max(cur[0], i + 1), cur[1])
                if grow and rng.random() < .05:
                    j += rng.randint(0, 5)
                    cur = (cur[0], max(cur[1], j + 1))
                if hist and rng.random() < .45:      # same position; often cancelling
                    i, j, y = rng.choice(hist[-6:])
                    if rng.random() < .6:
                        x = -y if abs(y) < 2**62 else y
                        if rng.random() < .3 and abs(x) < 2**61:
                            x += p * rng.choice([-1, 1, 2])
                hist.append((i, j, x))
                h.add(i, j, x)
        h.compress(5)
        if rng.random() < .3:
            h.compress(6)
        if rng.random() < .4:
            h.free(rng)
        h.done(c, len(hist) > 0)
    c.rules.append("plus histories with 1000-5000 insertions into matrices of up to 1300 rows or columns")
    for t in range(40 if not THOROUGH else 300):
        h = big_history(rng, t)
        h.compress(0)
        if t % 2:
            h.ttr()
            h.compress(1)
        h.addall(entries(rng, h.p, *h.dim, 50) if not t % 2 else [])
        h.compress(2)
        h.free(rng)
        h.done(c)


def entries(rng, p, n, m, k):
    """k insertions: repeated positions, cancellations, values that vanish, rows without entry"""
    E = []
    live = rng.sample(range(n), rng.randint(max(1, n // 2), n))
    while len(E) < k:
        u = rng.random()
        if u < .25 and E:
            i, j, x = E[rng.randrange(max(0, len(E) - 300), len(E))]
            E.append((i, j, -x if rng.random() < .6 and abs(x) < 2**62 else bigvalue(rng, p)))
        elif u < .3:         # a long run on one row
            i = rng.choice(live)
            E += [(i, rng.randrange(m), bigvalue(rng, p)) for _ in range(20)]
        else:
            E.append((rng.choice(live), rng.randrange(m), bigvalue(rng, p) if rng.random() < .3 else gen.value(rng, p)))
    return E


def big_history(rng, t):
    p = rng.choice(gen.PRIMES)
    h = H(p)
    n, m = [(rng.randint(1001, 1300), rng.randint(5, 30)), (rng.randint(5, 30), rng.randint(1001, 1300)), (rng.randint(100, 200), rng.randint(100, 200))][t % 3]
    if t % 10 == 9:      # row and column numbers beyond 16 bits
        n, m = 65536 + rng.randint(10, 3000), rng.randint(2, 5)
        if t % 20 == 9:
            n, m = m, n
    v = 0 if t % 8 == 5 else 1
    h.v = v
    k = rng.randint(1000, 5000)
    h.tnew(rng.choice([0, n]), rng.choice([0, m]), rng.choice([0, 1, 1000, k]), v)
    h.addall(entries(rng, p, n, m, k) + [(n - 1, m - 1, 1)])
    h.dim = (n, m)
    return h


def rmat(rng, p, n, m, d, v=1):
    return gen.Mat(n, m, p, [[(j, gen.value(rng, p)) for j in rng.sample(range(m), m) if rng.random() < d] for _ in range(n)], v)


def c16(c):
    rng = c.rng
    c.rules.append("random chains of transpose / permute / submatrix / resize / realloc / save-load / products on matrices 0x0..30x30, with and without values, mod 3..4294967291; all permutations of up to 4 elements; non-trivial = at least one entry in the starting matrix")
    for n in range(5):
        for pp in itertools.permutations(range(n)):
            h = H(7)
            b = [10 + i for i in range(n)]
            h.step("pinv", gen.ints(pp), p=list(pp))
            h.step("pvec", "1 %s %s" % (gen.ints(pp), gen.ints(b)), p=list(pp), b=b)
            h.step("ipvec", "1 %s %s" % (gen.ints(pp), gen.ints(b)), p=list(pp), b=b)
            x = [1, 2] + b + [5]
            h.step("range", "%s 2 %d %s" % (gen.ints(x), 2 + n, gen.ints(pp)), x=x, b0=2, b1=2 + n, p=list(pp))
            h.done(c, n > 0)
    for t in range(2500 if not THOROUGH else 15000):
        p = rng.choice(gen.PRIMES if rng.random() < .7 else [3, 5])
        h = H(p)
        big = t % 9 == 0
        n, m = rng.randint(0, 30 if big else 6), rng.randint(0, 30 if big else 6)
        v = 0 if rng.random() < .2 else 1
        M = rmat(rng, p, n, m, rng.choice([0, .1, .3, .6, 1]), v)
        h.step("mat", "0 " + M.tok(), dst=0, A=M.rec())
        shape = {0: (n, m, v)}
        for s in range(rng.randint(1, 7)):
            src = rng.choice(sorted(shape))
            a, b, w = shape[src]
            dst = rng.randrange(6)
            if dst == src:
                dst = (src + 1) % 6
            keep = int(rng.random() < .8)
            op = rng.choice(["transpose", "permute", "submatrix", "resize", "realloc", "save", "xApy", "Axpy", "scatter", "nnz", "vec", "randperm"])
            if op == "transpose":
                h.step(op, "%d %d %d" % (dst, src, keep), dst=dst, src=src, v=keep)
                shape[dst] = (b, a, w & keep)
            elif op == "permute":
                hp, hq = rng.random() < .8, rng.random() < .8
                P, Q = rng.sample(range(a), a), rng.sample(range(b), b)
                h.step(op, "%d %d %d %s %s" % (dst, src, keep, "1 " + gen.ints(P) if hp else "0", "1 " + gen.ints(Q) if hq else "0"), dst=dst, src=src, v=keep, p=P if hp else [], q=Q if hq else [])
                shape[dst] = (a, b, w & keep)
            elif op == "submatrix":
                r0, r1 = sorted((rng.randint(0, a), rng.randint(0, a)))
                c0, c1 = sorted((rng.randint(0, b), rng.randint(0, b)))
                if rng.random() < .1:
                    c0, c1 = c1, c0
                if rng.random() < .1:
                    r0, r1 = r1, r0
                h.step(op, "%d %d %d %d %d %d %d" % (dst, src, keep, r0, r1, c0, c1), dst=dst, src=src, v=keep, r0=r0, r1=r1, c0=c0, c1=c1)
                shape[dst] = (max(0, r1 - r0), max(0, c1 - c0), w & keep)
            elif op == "resize":
                nn, mm = rng.choice([0, a, a, a + 1, a + 5, max(0, a - 1)]), b + rng.choice([0, 0, 1, 7])
                h.step(op, "%d %d %d" % (src, nn, mm), dst=src, n=nn, m=mm)
                shape[src] = (nn, mm, w)
            elif op == "realloc":
                # only capacities that hold the contents
                cap = rng.choice([-1, a * b, a * b + 3])
                h.step(op, "%d %d" % (src, cap), dst=src, c=cap)
            elif op == "save":
                h.step(op, "%d %d %d" % (dst, src, p if w else -1), dst=dst, src=src)
                shape[dst] = (a, b, w)
            elif op in ("xApy", "Axpy") and w:
                x = [rng.randint(-half(p), half(p)) for _ in range(a if op == "xApy" else b)]
                y = [rng.randint(-half(p), half(p)) for _ in range(b if op == "xApy" else a)]
                h.step(op, "%d %s %s" % (src, gen.ints(x), gen.ints(y)), src=src, x=x, y=y)
            elif op == "scatter" and w and a:
                i, beta = rng.randrange(a), rng.randint(-half(p), half(p))
                x = [rng.choice([0, half(p), rng.randint(-half(p), half(p))]) for _ in range(b)]
                h.step(op, "%d %d %d %s" % (src, i, beta, gen.ints(x)), src=src, i=i, beta=beta, x=x)
            elif op == "nnz" and a:
                i = rng.randrange(a)
                h.step(op, "%d %d" % (src, i), src=src, i=i)
            elif op == "vec":
                L = rng.randint(0, 12)
                P = rng.sample(range(L), L)
                b_ = [rng.randint(-9, 9) for _ in range(L)]
                k = rng.choice(["pvec", "ipvec"])
                idp = rng.random() < .2
                h.step(k, ("0 " if idp else "1 %s " % gen.ints(P)) + gen.ints(b_), p=[] if idp else P, b=b_)
                h.step("pinvnull", str(L))
            elif op == "randperm":
                L = rng.randint(0, 20)
                h.step(op, str(L), n=L)
            if rng.random() < .1 and len(shape) > 1:
                x = rng.choice(sorted(shape))
                h.step("free", str(x), src=x)
                del shape[x]
        if rng.random() < .5:
            h.free(rng)
        h.done(c, M.nnz() > 0)
    c.rules.append("plus chains on matrices of up to 1300 rows or columns with 1000-5000 entries")
    for t in range(40 if not THOROUGH else 240):
        h = big_history(rng, t)
        h.compress(0)
        p, (a, b) = h.p, h.dim
        h.step("transpose", "1 0 %d" % (t % 4 != 3), dst=1, src=0, v=int(t % 4 != 3))
        P, Q = rng.sample(range(a), a), rng.sample(range(b), b)
        h.step("permute", "2 0 1 1 %s 1 %s" % (gen.ints(P), gen.ints(Q)), dst=2, src=0, v=1, p=P, q=Q)
        r0, r1 = sorted((rng.randint(0, a), rng.randint(0, a)))
        c0, c1 = sorted((rng.randint(0, b), rng.randint(0, b)))
        h.step("submatrix", "3 0 1 %d %d %d %d" % (r0, r1, c0, c1), dst=3, src=0, v=1, r0=r0, r1=r1, c0=c0, c1=c1)
        h.step("save", "4 2 %d" % (p if h.v else -1), dst=4, src=2)
        h.step("resize", "2 %d %d" % (a + 3, b + 1), dst=2, n=a + 3, m=b + 1)
        h.step("randperm", str(a), n=a)
        if h.v:
            x = [rng.randint(-half(p), half(p)) for _ in range(a)]
            y = [rng.randint(-half(p), half(p)) for _ in range(b)]
            h.step("xApy", "0 %s %s" % (gen.ints(x), gen.ints(y)), src=0, x=x, y=y)
            h.step("Axpy", "0 %s %s" % (gen.ints(y), gen.ints(x)), src=0, x=y, y=x)
        b_ = [rng.randint(-9, 9) for _ in range(a)]
        h.step("pvec", "1 %s %s" % (gen.ints(P), gen.ints(b_)), p=P, b=b_)
        h.step("ipvec", "1 %s %s" % (gen.ints(P), gen.ints(b_)), p=P, b=b_)
        h.step("pinv", gen.ints(P), p=P)
        h.free(rng)
        h.done(c)
    c.rules.append("the last rows of matrices of more than 2^31 or 2^32 entries (filled with copies of the same pages)")
    for t in range(16 if not THOROUGH else 120):
        p = rng.choice(gen.PRIMES)
        h = H(p)
        n, m = rng.randint(3, 60), rng.randint(500, 900)
        M = rmat(rng, p, n, m, rng.choice([.01, .05]), int(t % 4 != 3))
        h.step("mat", "0 " + M.tok(), dst=0, A=M.rec())
        for d in range(1, 4):
            r0, r1 = sorted((rng.randint(0, n), rng.randint(0, n)))
            c0, c1 = sorted((rng.randint(0, m), rng.randint(0, m)))
            keep = rng.randrange(2)
            h.step("submatrix", "%d 0 %d %d %d %d %d" % (d, keep, r0, r1, c0, c1), dst=d, src=0, v=keep, r0=r0, r1=r1, c0=c0, c1=c1)
        for i in rng.sample(range(n), 3):
            h.step("nnz", "0 %d" % i, src=0, i=i)
            if M.v:
                beta, x = rng.randint(-half(p), half(p)), [rng.randint(-half(p), half(p)) for _ in range(m)]
                h.step("scatter", "0 %d %d %s" % (i, beta, gen.ints(x)), src=0, i=i, beta=beta, x=x)
        if t % 8 == 0:       # 2^31 products
            op = rng.choice(["xApy", "Axpy"])
            x = [rng.randint(-half(p), half(p)) for _ in range(n if op == "xApy" else m)]
            y = [rng.randint(-half(p), half(p)) for _ in range(m if op == "xApy" else n)]
            h.step(op, "0 %s %s" % (gen.ints(x), gen.ints(y)), src=0, x=x, y=y)
        h.done(c, far="far %d 1 " % (31 + t % 2), exe="plain")
