from core import *
import gen, itertools


def larges(c, square=False):
    N = 1 if not THOROUGH else 15
    for A in itertools.chain(gen.huge_patterns(c.rng, 3 + 3 * (N > 1), square), gen.large_patterns(c.rng, 60 * N, square), gen.large_patterns(c.rng, 8 * N, square, 600, 3000)):
        yield A, "large"


def c12(c):
    c.rules.append("all patterns up to 3x3 plus random and structured ones up to 30x30, sparse ones up to 220x220, 600-3000 and more than 65536 rows or columns; non-trivial = at least one entry")
    for A, tag in itertools.chain(larges(c), gen.patterns(c.rng, not THOROUGH)):
        more = c.rng.random() < .5
        a = {"A": A.rec(), "more": int(more)}
        t = "match %s %d" % (A.tok(), more)
        if more:
            p, q = c.rng.sample(range(A.n), A.n), c.rng.sample(range(A.m), A.m)
            r0 = c.rng.randint(0, A.n)
            r1 = c.rng.randint(r0, A.n)
            # the column range must contain the matching: take everything, shifted to 0
            a.update(p=p, q=q, a=r0, b=r1, c=0)
            t += " %s %s %d %d %d %d" % (gen.ints(p), gen.ints(q), r0, r1, 0, A.m)
        c.add(t, a, A.nnz() > 0)


    c.rules.append("the last rows of a matrix of more than 2^31 entries (the rows before are full)")
    for t in range(4 if not THOROUGH else 20):
        m = 131072 + c.rng.randint(0, 3000)
        n = c.rng.randint(5, 60)
        A = gen.Mat(n, m, 3, [[(j, 1) for j in c.rng.sample(c.rng.choice([range(30), range(m), range(17408, 17408 + 20), range(m - 25, m)]), c.rng.randint(0, 4))] for _ in range(n)], 0)
        c.add("far 31 1 match " + A.tok() + " 0", {"A": A.rec(), "far": True}, exe="plain")


def c13(c):
    c.rules.append("all patterns up to 3x3 plus random and structured ones up to 30x30, sparse ones up to 220x220, 600-3000 and more than 65536 rows or columns; non-trivial = at least one entry")
    for A, tag in itertools.chain(larges(c), gen.patterns(c.rng, not THOROUGH)):
        c.add("dm " + A.tok(), {"A": A.rec()}, A.nnz() > 0)


def c14(c):
    c.rules.append("all digraphs up to 3 vertices plus random and structured ones up to 30 vertices, sparse ones up to 220, 600-3000 and more than 65536; non-trivial = at least one edge")
    for A, tag in itertools.chain(larges(c, True), gen.patterns(c.rng, not THOROUGH, True)):
        c.add("scc " + A.tok(), {"A": A.rec()}, A.nnz() > 0)
    c.rules.append("the last vertices of a graph of more than 2^31 edges (the vertices before reach everything)")
    for t in range(2 if not THOROUGH else 12):
        rng, m, k, n = c.rng, 47104, 46080, 1024
        E = [set() for _ in range(n)]
        for _ in range(rng.choice([300, 1200, 3000])):
            u, v = rng.randrange(n), rng.randrange(n)
            if t % 2 or u > v:
                E[u].add(v + 1)
        for u in rng.sample(range(n), rng.choice([0, 1, 40])):
            E[u].add(0)
        real = gen.Mat(n, m, 3, [[(v - 1 + k if v else rng.randrange(k), 1) for v in sorted(e, key=lambda v: rng.random())] for e in E], 0)
        A = gen.Mat(n + 1, n + 1, 3, [[(v, 1) for v in range(n + 1)]] + [[(v, 1) for v in sorted(e)] for e in E], 0)
        c.add("far 31 1 scc " + real.tok(), {"A": A.rec()}, exe="plain")
