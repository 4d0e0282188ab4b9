from core import *
import gen, lin_gen as lg
from gen import half, cen, value

BIG = [2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**32 + 1, 2**32 + 2, -1, -2**31, 2**63 - 1, 2**63, 2**64, 2**64 + 1, 10**30]


def val64(rng, p):
    k = rng.random()
    if k < .6:
        return value(rng, p)
    if k < .75:
        return rng.choice([p, -p, 2 * p, 0, p + 1, p - 1, -p - 1, half(p) + 1, -half(p) - 1])
    if k < .95:
        return rng.randint(-10**17, 10**17)
    return rng.choice([2**31, 2**32, 2**32 + 1, -2**31, -2**32 - 1, 2**53 + 1, 10**17, -10**17])


def num(rng, v):
    """a way of writing an integer"""
    if rng.random() < .9:
        return str(v)
    return rng.choice(["+%d" % v if v >= 0 else str(v), ("-" if v < 0 else "") + "0" * rng.randint(1, 12) + str(abs(v))])


def gap(rng):
    return " " if rng.random() < .9 else rng.choice(["  ", "\t", " \t ", "\v", "\r"])


def text(rng, p, mm, plain=False):
    """(list of lines without the newline, line separator): a well-formed file"""
    n, m = rng.choice([(0, 0), (0, 3), (3, 0)]) if rng.random() < .06 else (rng.randint(1, 9), rng.randint(1, 9))
    k = rng.randint(0, 12) if n and m else 0
    ent = []
    for _ in range(k):
        if ent and rng.random() < .15:
            ent.append((ent[-1][0], ent[-1][1], val64(rng, p)))
        else:
            ent.append((rng.randint(1, n), rng.randint(1, m), val64(rng, p)))
    r = (lambda v: str(v)) if plain else (lambda v: num(rng, v))
    g = (lambda: " ") if plain else (lambda: gap(rng))
    lead = lambda: "" if plain or rng.random() < .95 else rng.choice([" ", "\t"])
    L = []
    if mm:
        words = ["matrix", "coordinate", "integer", "general"]
        if not plain:
            words = [rng.choice([w, w.upper(), w.capitalize()]) for w in words]
        L.append("%%MatrixMarket " + g().join(words))
        for _ in range(rng.choice([0, 0, 1, 2])):
            L.append(rng.choice(["% comment", "%", "%%", "%1 2 3"]))
        L.append(lead() + r(n) + g() + r(m) + g() + r(k))
    else:
        L.append(lead() + r(n) + g() + r(m) + g() + "M")
    for i, j, x in ent:
        L.append(lead() + r(i) + g() + r(j) + g() + r(x))
    if not mm:
        L.append("0" + g() + "0" + g() + "0")
    return L, (n, m)


def cat(rng, L, plain=False):
    nl = "\r\n" if not plain and rng.random() < .1 else "\n"
    s = nl.join(L)
    return (s if not plain and rng.random() < .1 else s + nl).encode("latin1")


def token(rng, L, n, m, p):
    """replace a token"""
    L = list(L)
    q = rng.randrange(len(L))
    t = L[q].split(" ")
    k = rng.randrange(len(t))
    u = rng.random()
    if u < .35:
        t[k] = str(rng.choice(BIG))
    elif u < .45:
        t[k] = str(rng.choice([0, n, m, n + 1, m + 1, n + 5, -1, -n]))
    elif u < .7:
        t[k] = rng.choice(["1.5", "2.", "1e3", "x", "0x10", "3abc", "-", "+", "--1", "1,2", "", "M", "R", "2/3", "+-1", "1\0", "\0", "%", "1_0"])
    elif u < .85:
        del t[k]
    else:
        t.insert(k, rng.choice(["0", "1", "7", "x", "%"]))
    L[q] = " ".join(t)
    return L


HEADERS = ["%%MatrixMarket matrix array integer general", "%%MatrixMarket matrix coordinate real general", "%%MatrixMarket matrix coordinate pattern general",
           "%%MatrixMarket matrix coordinate integer symmetric", "%%MatrixMarket matrix coordinate integer", "%%MatrixMarket vector coordinate integer general",
           "%%MatrixMarket", "%MatrixMarket matrix coordinate integer general", "%%MatrixMarket matrix coordinate complex general", "%%matrixmarket matrix coordinate integer general",
           "%%MatrixMarket matrix coordinate integer skew-symmetric", "%%MatrixMarket matrix coordinate integer generally", "%%MatrixMarketmatrix coordinate integer general"]


KINDS = ["hdr", "ban", "oban", "com", "t0", "t1", "t2", "mark", "bad", "long"]


def abstract_files(rng):
    """the files of the model SmsReader, as sequences of kinds of lines: all of them up to 3 lines (the third only after a
    header or a banner), those of 4 lines that begin with one and have no long line, and a sample of longer ones"""
    import itertools
    for k in (1, 2):
        yield from itertools.product(KINDS, repeat=k)
    short = [x for x in KINDS if x not in ("long", "oban")]
    for k in (2, 3):
        for f in itertools.product(KINDS if k == 2 or THOROUGH else short, repeat=k):
            yield ("hdr",) + f
            yield ("ban",) + f
    for _ in range(10000 if THOROUGH else 800):
        body = rng.choice([["t0", "t1", "t2"], ["t0", "t1", "t2", "mark"], short])
        yield (rng.choice(["hdr", "ban", "ban"]),) + tuple(rng.choice(["com", "com", "t1", "t2", "t2", "mark"]) for _ in range(1)) + tuple(rng.choice(body) for _ in range(rng.randint(2, 5)))


def concrete(rng, kind):
    """a line of that kind"""
    i, j = rng.randint(1, 3), rng.randint(1, 3)
    return {"hdr": "3 3 M", "ban": "%%MatrixMarket matrix coordinate integer general", "oban": rng.choice(HEADERS[:7] + HEADERS[8:9]),
            "com": rng.choice(["%", "% x", "%%", "%1 1 1"]), "t0": "%d %d 0" % (i, j), "t1": "%d %d 1" % (i, j), "t2": "%d %d 2" % (i, j), "mark": "0 0 0",
            "bad": rng.choice(["", "x", "1 x 1", "1 1", " ", "1", "-"]), "long": "%d %d 1" % (i, j) + " " * rng.choice([1019, 1030, 1100])}[kind].encode() + b"\n"


def c17(c):
    rng = c.rng
    c.rules.append("all sequences of up to 3 lines (4 after a header or banner) of the kinds of the model SmsReader, and longer ones at random")
    c.rules.append("SMS and MatrixMarket files: well-formed with variations (white space, CRLF, signs, leading zeros, comments, letter case, repeated positions, 64-bit values, empty dimensions, no final newline), truncated after every byte, lines removed, swapped or inserted, tokens replaced (32- and 64-bit overflows, fractions, letters, NUL), bytes replaced, other banners and types; pattern mode; digest requested or not; written matrices (compressed and triplet form, with and without values); non-trivial = altered file or matrix with entries")

    def load(b, p, nt, pat=None):
        pat = rng.random() < .15 if pat is None else pat
        wh = rng.random() < .6
        c.add("load %d %d 0 %d %s" % (-1 if pat else p, wh, len(b), " ".join(map(str, b))),
              {"op": "load", "h": half(p), "pattern": pat, "wanthash": wh, "bytes": list(b)}, nt, exe="plain" if len(c.cases) % 7 == 0 else "det")
    N = 1 if not THOROUGH else 12
    for t in range(1200 * N):
        p = lg.prime(rng)
        L, (n, m) = text(rng, p, t % 2)
        load(cat(rng, L), p, False)
    for t in range(16 * N):
        p = lg.prime(rng)
        L, (n, m) = text(rng, p, t % 2, t % 4 < 2)
        b = cat(rng, L, t % 4 < 2)
        for e in range(len(b)):
            load(b[:e], p, True)
    for t in range(2500 * N):
        p = lg.prime(rng)
        L, (n, m) = text(rng, p, t % 2, rng.random() < .7)
        k = rng.randrange(12)
        q = rng.randrange(len(L))
        if k < 5:
            L = token(rng, L, n, m, p)
        elif k == 5:
            del L[q]
        elif k == 6:
            L.insert(q, rng.choice(["", "0 0 0", "1 1 1", "% x", "0 0 1", "0 1 0", "1 0 0", "1 0 5", "0 1 5", " ", "\0", "1 1", "1 1 0"]))
        elif k == 7 and len(L) > 1:
            r = rng.randrange(len(L))
            L[q], L[r] = L[r], L[q]
        elif k == 8:
            L[0] = rng.choice(HEADERS + ["%d %d %s" % (n, m, y) for y in ["R", "P", "m", "MM", "I", "0", ""]])
        elif k == 9:
            L.append(rng.choice(["0 0 0", "1 1 1", "garbage", "", "\0", "a\0b", "0 0 0\0", "%"]))
        elif k == 10:
            L[q] = L[q] + rng.choice([" ", "\t", " 5", " x", "x", ".", "\0", " " * 990, " " * 1008, " " * 1015 + "9", " " * 1100, " " * 1021])
        b = cat(rng, L)
        if k == 11:
            b = bytearray(b)
            for _ in range(rng.randint(1, 2)):
                if not b:
                    break
                q = rng.randrange(len(b))
                u = rng.random()
                ch = rng.choice(b" \n-+0123456789.%Mx\0\t\xff")
                if u < .5:
                    b[q] = ch
                elif u < .75:
                    del b[q]
                else:
                    b.insert(q, ch)
        load(bytes(b), p, True)
    load(b"", 3, True, False)
    for kinds in abstract_files(rng):
        load(b"".join(concrete(rng, x) for x in kinds), lg.prime(rng), True, rng.random() < .1)
    # many entries (the storage grows), lines of every length around the limit
    for t in range(6 * N):
        p = lg.prime(rng)
        k = rng.randint(30, 150)
        ent = ["%d %d %d" % (rng.randint(1, 20), rng.randint(1, 20), val64(rng, p)) for _ in range(k)]
        load(("\n".join(["20 20 M"] + ent + ["0 0 0", ""])).encode(), p, True)
        load(("\n".join(["%%MatrixMarket matrix coordinate integer general", "20 20 %d" % k] + ent + [""])).encode(), p, True)
    c.rules.append("files of 1000-4000 entries, printed from the list of their entries")
    for t in range(16 * N):
        p = lg.prime(rng)
        n, m, k = ([(70000, 30), (30, 70000), (2**31 - 1, 5), (5, 2**31 - 1), (90000, 90000)][t // 2 % 5] if t % 2 else rng.choice([(2000, 30), (30, 2000), (300, 300)])) + (rng.randint(1000, 4000),)
        ent = [(rng.randint(1, n), rng.randint(1, m), val64(rng, p)) for _ in range(k)]
        if t % 3 == 0:
            ent.sort()
        lines = [num(rng, i) + gap(rng) + num(rng, j) + gap(rng) + num(rng, x) for i, j, x in ent]
        b = "\n".join((["%d %d M" % (n, m)] + lines + ["0 0 0", ""]) if t % 2 else (["%%MatrixMarket matrix coordinate integer general", "% x" * 300, "%d %d %d" % (n, m, k)] + lines + [""])).encode()
        pat = t % 7 == 6
        c.add("load %d 1 0 %d %s" % (-1 if pat else p, len(b), " ".join(map(str, b))),
              {"op": "file", "h": half(p), "pattern": pat, "wanthash": True, "n": n, "m": m, "ent": [{"i": i, "j": j, "neg": x < 0, "d": [int(d) for d in str(abs(x))]} for i, j, x in ent], "bytes": list(b)}, exe="plain" if t % 4 == 0 else "det")
    for t in range(1000 * N):
        p = lg.prime(rng)
        n, m = rng.randint(0, 8), rng.randint(0, 8)
        if rng.random() < .15:
            A = gen.pattern(rng, n, m, rng.random())
        else:
            A = lg.matrix(rng, p, n, m)
        kind = rng.randrange(2)
        c.add("save %d %s" % (kind, A.tok()), {"op": "save", "h": half(A.p), "A": A.rec()}, A.nnz() > 0, exe="plain" if t % 7 == 0 else "det")


def c22(c):
    rng = c.rng
    c.rules.append("matrices up to 14x14 (values or patterns, empty ones included), image sizes from 1x1 to beyond the matrix, bitmap, gray and colour modes with the decomposition computed by the library, wide matrices whose scaled positions exceed 32 bits; non-trivial = matrix with entries")

    def one(mode, x, y, A, exe):
        c.add("pnm %d %d %d %d %s" % (mode, x, y, mode == 3, A.tok()), {"mode": mode, "x": x, "y": y, "dm": mode == 3}, A.nnz() > 0, exe=exe)
    N = 1 if not THOROUGH else 12
    for t in range(2500 * N):
        n, m = rng.randint(1, 14), rng.randint(1, 14)
        if rng.random() < .04:
            n, m = rng.choice([(0, 4), (4, 0), (0, 0)])
        k = rng.random()
        if k < .3:
            A = gen.pattern(rng, n, m, rng.choice([.05, .1, .2, .3, .6, 1]))
        elif k < .75 and n and m:      # three visible blocks and several diagonal blocks
            A = blocks(rng)
        else:
            A = lg.matrix(rng, 42013, n, m)
        full = rng.random() < .3
        x = A.m if full else rng.randint(1, 16)
        y = A.n if full else rng.randint(1, 16)
        one(rng.choice([1, 2, 3, 3, 3]), max(1, x), max(1, y), A, "plain" if t % 5 == 0 else "det")
    for t in range(12 * N):
        for A in gen.large_patterns(rng, 1, lo=40, hi=120):
            one([1, 2, 3][t % 3], rng.randint(10, 130), rng.randint(10, 130), A, "plain" if t % 2 else "det")
    for t in range(3 * N):      # positions beyond 2^31 once scaled
        m = rng.choice([30000000, 300000000, 50000000])
        A = gen.Mat(3, m, 3, [[(j, 1) for j in sorted(rng.sample(range(m), 20)) + [m - 1]] for _ in range(3)], 0)
        one(rng.choice([1, 2]), 200, 3, A, "det")
    n = 60000
    rows = [[] for _ in range(n)]
    for i in rng.sample(range(n), 30) + [n - 1]:
        rows[i] = [(0, 1)]
    one(1, 1, 45000, gen.Mat(n, 1, 3, rows, 0), "det")


def blocks(rng):
    """rows x columns in horizontal, square (block triangular) and vertical parts, shuffled"""
    h, s, v = rng.randint(0, 3), rng.randint(0, 7), rng.randint(0, 3)
    hc, vr = h + (rng.randint(1, 3) if h else 0), v + (rng.randint(1, 3) if v else 0)
    n, m = h + s + vr, hc + s + v
    if not (n and m):
        return gen.pattern(rng, 3, 3, .5)
    E = set()
    for i in range(h):
        for j in range(m):
            if (j < hc and rng.random() < .8) or rng.random() < .2:
                E.add((i, j))
    cut = [rng.random() < .5 for _ in range(s)]
    b, lab = 0, []
    for k in range(s):
        b += cut[k]
        lab.append(b)
    for a in range(s):
        E.add((h + a, hc + a))
        for d in range(s):
            if (lab[d] == lab[a] and rng.random() < .7) or (lab[d] > lab[a] and rng.random() < .2):
                E.add((h + a, hc + d))
        for j in range(v):
            if rng.random() < .2:
                E.add((h + a, hc + s + j))
    for i in range(vr):
        for j in range(v):
            if rng.random() < .8:
                E.add((h + s + i, hc + s + j))
    pr, pc = rng.sample(range(n), n), rng.sample(range(m), m)
    rows = [[] for _ in range(n)]
    for i, j in sorted(E):
        rows[pr[i]].append((pc[j], 1))
    return gen.Mat(n, m, 3, rows, 0)
