from core import *
import gen, lin_gen as lg, giant
from gen import half, cen, ints, value
from lin_gen import vecmat

W_U, W_L, W_K, W_R, W_KR, W_SOLVE, W_GESV, W_CERT, W_FV, W_KRR, W_EV = [1 << k for k in range(11)]


def options(rng, L=None, complete=None, usable=True, A=None):
    """(tokens, dict)"""
    if L is None and rng.random() < .08:
        return "0", {"L": 0, "complete": 0, "full": True}
    L = int(rng.random() < .3) if L is None else L
    complete = (int(rng.random() < .35) if complete is None else complete) if L else 0
    greedy = int(rng.random() < .7)
    tall, dense, gplu = int(rng.random() < .6), int(rng.random() < .6), int(rng.random() < .6)
    spars = rng.choice([-1, 0, .05, .05, .3, 1, 2])
    layered = getattr(A, "layered", False)
    style = rng.choice([5, 5, 5, 6, 6, 7, 0, 1, 2, 3]) if layered else rng.randrange(6)
    if style == 0:       # straight to the dense code
        dense, spars, tall = 1, -1, int(rng.random() < .3)
    elif style == 1:     # straight to the low-rank code
        tall = 1
    elif style == 2:     # GPLU
        dense, gplu, tall = 0, 1, 0
    elif style == 5:     # the Schur complements get denser and denser: dense code after several rounds
        dense, spars, tall = 1, rng.choice([.08, .12, .15, .2, .25, .3, .35, .4, .5, .6, .75]), int(rng.random() < .3)
    elif style == 6:     # ... or GPLU
        dense, gplu, spars, tall = 0, 1, rng.choice([.08, .12, .15, .2, .25, .3, .35, .4, .5, .6, .75]), 0
    elif style == 7:     # ... or low-rank
        spars, tall = rng.choice([.08, .12, .15, .2, .25, .3, .35, .4, .5, .6, .75]), 1
    full = bool(gplu or (dense and spars < 0))
    if usable and not full:
        gplu, full = 1, True
    minp = rng.choice([0, .1, .1, .5, 1, 2])
    rounds = rng.choice([0, 0, 1, 1, 2, 3, 3, 10])
    if style >= 5:
        minp, rounds = rng.choice([0, 0, 0, .1]), rng.choice([2, 3, 5, 10])
    if getattr(A, "runs", False) and rng.random() < .6:
        rounds = 0
    blk = rng.choice([1, 2, 3, 5, 8, 1000])
    lrr = rng.choice([0, .5, .5, .9, 1, 2])
    tr = rng.choice([-1, 0, .5, 1, 2, 5]) if style not in (1, 7) else rng.choice([-1, 0, .5])
    w = rng.choice([-1, -1, 0, 1, 1, 2, 5])
    return "1 %d %d %d %d %d %d %s %d %s %d %s %s %s" % (greedy, tall, dense, gplu, L, complete, minp, rounds, spars, blk, lrr, tr, w), {"L": L, "complete": complete, "full": full}


def the_matrix(rng, t, size=10):
    p = lg.prime(rng) if rng.random() < .8 else rng.choice([2147483659, 4294967279, 4294967291])
    k = t % 16
    if k == 0:
        n, m = rng.randint(20, 45), rng.randint(20, 45)
    elif k in (1, 2, 3):     # tall
        m = rng.randint(1, size)
        n = rng.randint(m, 6 * m + 12)
    elif k == 4:             # wide
        n = rng.randint(1, size)
        m = rng.randint(n, 5 * n)
    elif k == 5 and t % 64 == 5:
        n, m = rng.randint(0, 2), rng.randint(0, 2)
    else:
        n, m = rng.randint(1, size), rng.randint(1, size)
    if k in (2, 9, 10, 11) and n and m:
        from lin_checks import piv_matrix
        A = piv_matrix(rng, p, n, m)
    elif k in (6, 7, 12, 13):
        A = lg.layers(rng, p)
        A.layered = True
    elif k == 8:
        A = lg.runs(rng, p)
        A.runs = True
    else:
        A = lg.matrix(rng, p, n, m)
    return p, A


def larges(c, quick=40, thorough=600, wide=True, **kw):
    """matrices beyond the thresholds of the code, by both builds"""
    c.rules.append("plus matrices of 200-3100 rows or columns, and a few of more than 65536")
    for t in range(6 if not THOROUGH else 24):
        A = lg.huge(c.rng, None, not wide or t % 2 == 0)
        yield t, A.p, A, lg.sched_large(c.rng), "plain" if t % 4 > 1 else "det"
    for t in range(quick if not THOROUGH else thorough):
        A = lg.large(c.rng, **kw)
        yield t, A.p, A, lg.sched_large(c.rng), "plain" if t % 2 else "det"


def giants(c, n):
    """cases in which a product of dimensions exceeds 2^31 (plain build: the memory is reserved, not used)"""
    if giant.room(18) == 0:
        c.rules.append("(products of dimensions above 2^31 left out: the memory cannot be reserved)")
        return
    c.rules.append("plus cases in which products of dimensions exceed 2^31")
    for t in range(n if not THOROUGH else 3 * n):
        yield t, rng_prime(c.rng, t), c.rng.randint(1, 4)


def rng_prime(rng, t):
    return rng.choice([[5, 101, 8191, 8209, 42013], [65537, 1000003, 189812507], [2147483659, 4294967291]][t % 3])


def exe(t):
    return "plain" if t % 9 == 4 else "det"


def c01(c):
    rng = c.rng
    c.rules.append("matrices from 16 families (tall, wide, low rank, permuted triangular plus combinations, proportional rows, singular blocks, short cycles) up to 45x45 over primes 3..4294967291, option vectors directed to each finishing method (GPLU, dense, dense low-rank, none), 0-10 rounds, block sizes 1..1000; 1-4 threads; non-trivial = non-zero matrix")
    for t in range(6000 if not THOROUGH else 40000):
        p, A = the_matrix(rng, t)
        o, d = options(rng, usable=t % 6 != 0, A=A)
        c.add("ech %s %s %d %s" % (lg.sched(rng), o, W_U, A.tok()), {"h": half(p), "A": A.rec(), "full": d["full"]}, A.nnz() > 0, exe=exe(t))
    for t, p, A, sd, ex in larges(c, 56):
        o, d = options(rng, usable=t % 6 != 0, A=A)
        c.add("ech %s %s %d %s" % (sd, o, W_U, A.tok()), {"h": half(p), "A": A.rec(), "full": d["full"]}, exe=ex)


    for t, p, th in giants(c, 6):
        A, blk = giant.few_rows(rng, p)
        o = "1 1 %d 1 1 0 0 %s %d -1 %d 0.5 %s -1" % (t % 2, rng.choice([.1, 2]), rng.choice([0, 0, 1, 3]), blk, "0" if t % 2 else "5")
        c.add("ech %d 1 20 1 1 %s %d %s" % (th, o, W_U, A.tok()), {"h": half(p), "A": A.rec(), "full": True}, exe="plain")
    if THOROUGH and giant.room(20) > 20:
        c.rules.append("plus a dense block of 2^31 coefficients")
        for lr in (0, 1):
            A, blk = giant.block(rng, rng.choice([3, 101, 8191]))
            o = "1 1 %d 1 0 0 0 0.1 0 -1 %d 0.5 %s -1" % (lr, blk, "0" if lr else "5")
            c.add("ech 8 1 20 1 1 %s %d %s" % (o, W_U, A.tok()), {"h": half(A.p), "A": A.rec(), "full": True}, exe="plain")


def c02(c):
    rng = c.rng
    c.rules.append("as C01 with L requested, complete or not; factors corrupted at one coefficient (by -1, 1, extremes) and re-checked with three seeds; non-trivial = non-zero matrix")
    for t in range(5000 if not THOROUGH else 24000):
        p, A = the_matrix(rng, t)
        if t % 3 == 0 and not getattr(A, "layered", False):
            p = rng.choice([2147483659, 4294967279, 4294967291])
            A = lg.matrix(rng, p, A.n, A.m)
        o, d = options(rng, L=1, usable=t % 6 != 0, A=A)
        seeds = [rng.getrandbits(40) for _ in range(rng.randint(1, 3))]
        c.add("ech %s %s %d %s %s %d %d %d" % (lg.sched(rng), o, W_U | W_L | W_FV, A.tok(), ints(seeds), rng.choice([1, 2]), rng.randrange(10000), rng.choice([1, -1, half(p), 7])),
              {"h": half(p), "A": A.rec(), "full": d["full"], "complete": bool(d["complete"])}, A.nnz() > 0, exe=exe(t))
    for t, p, A, sd, ex in larges(c):
        o, d = options(rng, L=1, usable=t % 6 != 0, A=A)
        c.add("ech %s %s %d %s %s %d %d %d" % (sd, o, W_U | W_L | W_FV, A.tok(), ints([rng.getrandbits(40)]), rng.choice([1, 2]), rng.randrange(100000), rng.choice([1, -1, half(p), 7])),
              {"h": half(p), "A": A.rec(), "full": d["full"], "complete": bool(d["complete"])}, exe=ex)


    for t, p, th in giants(c, 4):
        if t % 2 == 0:
            A = giant.stacked(rng, p)
            o, comp = "1 %d %d 1 1 1 %d 0.1 %d -1 60000 0.5 5 -1" % (rng.randint(0, 1), 0, t % 4 // 2, rng.choice([1, 1, 2])), t % 4 // 2
            o = o if t % 3 else o.replace(" -1 60000 ", " 0.5 60000 ")
        else:
            A, blk = giant.few_rows(rng, p)
            o, comp = "1 1 0 1 1 1 %d 0.1 %d -1 %d 0.5 5 -1" % (t % 4 // 2, rng.choice([0, 1]), blk), t % 4 // 2
        c.add("ech %d 1 20 1 1 %s %d %s %s 1 %d 1" % (th, o, W_U | W_L | W_FV, A.tok(), ints([rng.getrandbits(40)]), rng.randrange(100000)),
              {"h": half(p), "A": A.rec(), "full": True, "complete": bool(comp)}, exe="plain")


def c03(c):
    rng = c.rng
    c.rules.append("as C01 (complete echelonizations), kernel from the factorization and from the reduced form; non-trivial = non-zero matrix with a non-trivial kernel possible")
    for t in range(5000 if not THOROUGH else 24000):
        p, A = the_matrix(rng, t)
        o, d = options(rng, A=A)
        c.add("ech %s %s %d %s" % (lg.sched(rng), o, W_K | W_KR, A.tok()), {"h": half(p), "A": A.rec()}, A.nnz() > 0 and A.m > 1, exe=exe(t))
    for t, p, A, sd, ex in larges(c, 32, 400, wide=False):
        o, d = options(rng, A=A)
        c.add("ech %s %s %d %s" % (sd, o, W_K | W_KR, A.tok()), {"h": half(p), "A": A.rec()}, exe=ex)


def c04(c):
    rng = c.rng
    c.rules.append("as C01, reduced form of complete and incomplete echelonizations; non-trivial = non-zero matrix")
    for t in range(5000 if not THOROUGH else 24000):
        p, A = the_matrix(rng, t)
        o, d = options(rng, usable=t % 8 != 0, A=A)
        c.add("ech %s %s %d %s" % (lg.sched(rng), o, W_U | W_R, A.tok()), {"h": half(p), "A": A.rec()}, A.nnz() > 0, exe=exe(t))
    for t, p, A, sd, ex in larges(c):
        o, d = options(rng, usable=t % 8 != 0, A=A)
        c.add("ech %s %s %d %s" % (sd, o, W_U | W_R, A.tok()), {"h": half(p), "A": A.rec()}, exe=ex)


def rhs(rng, p, A):
    D = A
    k = rng.randrange(5)
    b = vecmat([value(rng, p) if rng.random() < .6 else 0 for _ in range(A.n)], A, p)
    if k == 0:
        return [0] * A.m
    if k == 1 and A.m:
        j = rng.randrange(A.m)
        b[j] = cen(b[j] + value(rng, p), p)
    if k == 2:
        b = [rng.choice([0, value(rng, p)]) for _ in range(A.m)]
    return b


def c05(c):
    rng = c.rng
    c.rules.append("as C02; right-hand sides inside the row space, one coefficient away from it, arbitrary, zero; multi-right-hand-side batches with and without the status table; non-trivial = non-zero matrix")
    for t in range(4000 if not THOROUGH else 20000):
        p, A = the_matrix(rng, t, 8)
        o, d = options(rng, L=1, A=A)
        bs = [rhs(rng, p, A) for _ in range(rng.randint(1, 3))]
        bn = rng.randint(0 if t % 20 == 0 else 1, 6)
        B = gen.from_dense([rhs(rng, p, A) for _ in range(bn)], bn, A.m, p, rng)
        wo = rng.random() < .8
        c.add("ech %s %s %d %s %d %s %s %d" % (lg.sched(rng), o, W_SOLVE | W_GESV, A.tok(), len(bs), " ".join(ints(b) for b in bs), B.tok(), wo),
              {"h": half(p), "A": A.rec(), "b": bs, "B": B.rec(), "withok": bool(wo)}, A.nnz() > 0, exe=exe(t))
    for t, p, A, sd, ex in larges(c, 32, 400):
        o, d = options(rng, L=1, A=A)
        bs = [rhs(rng, p, A) for _ in range(2)]
        bn = rng.choice([2, 5, 40])
        B = gen.from_dense([rhs(rng, p, A) for _ in range(bn)], bn, A.m, p, rng)
        wo = rng.random() < .8
        c.add("ech %s %s %d %s %d %s %s %d" % (sd, o, W_SOLVE | W_GESV, A.tok(), len(bs), " ".join(ints(b) for b in bs), B.tok(), wo),
              {"h": half(p), "A": A.rec(), "b": bs, "B": B.rec(), "withok": bool(wo)}, exe=ex)
    for t, p, th in giants(c, 3):
        A = lg.huge(rng, p, True)
        o, d = options(rng, L=1, A=A)
        bn = 2 ** 31 // A.n + rng.randint(20, 60)
        rows = {i: rhs(rng, p, A) for i in rng.sample(range(bn), 8) + [0, bn - 1, bn - 2, rng.randrange(bn - 40, bn)]}
        B = lg.Mat(bn, A.m, p, [[(j, x) for j, x in enumerate(rows[i]) if x] if i in rows else [] for i in range(bn)])
        wo = rng.random() < .8
        bs = [rhs(rng, p, A)]
        c.add("ech %d 1 20 1 1 %s %d %s %d %s %s %d" % (th + 2, o, W_SOLVE | W_GESV, A.tok(), len(bs), " ".join(ints(b) for b in bs), B.tok(), wo),
              {"h": half(p), "A": A.rec(), "b": bs, "B": B.rec(), "withok": bool(wo)}, exe="plain")
