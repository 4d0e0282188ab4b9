from core import *
import gen, lin_gen as lg
from gen import half, cen, ints, value
import ech_checks as E


def words(x):
    return [max(-2000000000, min(2000000000, x >> 16)), x & 0xffff]


def digest(rng):
    k = rng.random()
    if k < .1:
        return [rng.choice([0, 255])] * 32
    if k < .4:      # bytes that are special as characters
        return [rng.choice([0, 0, 255, 128, 10, 127]) if rng.random() < .2 else rng.randrange(256) for _ in range(32)]
    return [rng.randrange(256) for _ in range(32)]


def c06(c):
    rng = c.rng
    c.rules.append("matrices and option vectors as C02 (L requested), random and constant digests; non-trivial = non-zero matrix")
    for t in range(3000 if not THOROUGH else 24000):
        p, A = E.the_matrix(rng, t, 9)
        o, d = E.options(rng, L=1, A=A)
        h = digest(rng)
        c.add("ech %s %s %d %s %s" % (lg.sched(rng), o, E.W_CERT, A.tok(), " ".join(map(str, h))), {"h": half(p), "pw": words(p), "A": A.rec(), "hash": h}, A.nnz() > 0, exe=E.exe(t))
    for t, p, A, sd, ex in E.larges(c, 24, 300):
        o, d = E.options(rng, L=1, A=A)
        h = digest(rng)
        c.add("ech %s %s %d %s %s" % (sd, o, E.W_CERT, A.tok(), " ".join(map(str, h))), {"h": half(p), "pw": words(p), "A": A.rec(), "hash": h}, exe=ex)


def cert_tok(k):
    return "%d %d %s %s %s %s %s" % (k["r"], k["prime"], " ".join(map(str, k["hash"])), ints(k["i"]), ints(k["j"]), ints(k["x"]), ints(k["y"]))


def render(k):
    s = "%d\n%d\n%s\n" % (k["r"], k["prime"], "".join("%02x" % b for b in k["hash"]))
    for f in "ijxy":
        s += "".join("%d " % v for v in k[f]) + "\n"
    return s.encode()


def alter(rng, k, n, m, p):
    """a modified copy of an honest certificate"""
    k = {f: (list(v) if isinstance(v, list) else v) for f, v in k.items()}
    r = k["r"]
    t = rng.randrange(18)
    imax = 2**31 - 1
    pos = rng.randrange(r) if r else 0
    if t == 0:
        k["hash"][rng.randrange(32)] ^= 1 << rng.randrange(8)
    elif t == 1:
        k["prime"] = rng.choice([p + 2, p - 2, -1, 3, p + 2**32, 0, 2**40])
    elif t in (2, 3) and r:
        f = rng.choice("ij")
        k[f][pos] = rng.choice([-1, n if f == "i" else m, -imax - 1, imax, (n if f == "i" else m) + 1, rng.randrange(max(n, m) + 2)])
    elif t in (4, 5) and r:
        f = rng.choice("xy")
        k[f][pos] = cen(k[f][pos] + rng.choice([1, -1, value(rng, p)]), p)
    elif t == 6 and r:
        f = rng.choice("xy")
        v = k[f][pos] + rng.choice([p, -p])
        k[f][pos] = v if -imax - 1 <= v <= imax else imax
    elif t == 7 and r:
        k["y"][pos] = rng.choice([imax, -imax - 1, imax - 1])
    elif t == 8 and r > 1:       # the order of the pivotal rows does not matter
        s = rng.sample(range(r), r)
        for f in "ixy":
            k[f] = [k[f][a] for a in s]
    elif t == 9 and r > 1:
        a, b = rng.sample(range(r), 2)
        k["j"][a], k["j"][b] = k["j"][b], k["j"][a]
    elif t == 10 and r > 1:
        a, b = rng.sample(range(r), 2)
        f = rng.choice("ij")
        k[f][a] = k[f][b]
    elif t == 11 and r:
        k["r"] = r - 1
        for f in "ijxy":
            k[f].pop(pos if rng.random() < .5 else r - 1)
    elif t == 12:                # one more pivot
        k["r"] = r + 1
        ri, rj = [v for v in range(n) if v not in k["i"]], [v for v in range(m) if v not in k["j"]]
        k["i"].append(rng.choice(ri) if ri and rng.random() < .8 else rng.randrange(n + 1))
        k["j"].append(rng.choice(rj) if rj and rng.random() < .8 else rng.randrange(m + 1))
        k["x"].append(value(rng, p) if rng.random() < .5 else 0)
        k["y"].append(value(rng, p) if rng.random() < .5 else 0)
    elif t == 13:
        k["r"] = rng.choice([0, -1, -5])
        if k["r"] == 0:
            for f in "ijxy":
                k[f] = []
    elif t == 14 and r:
        f = rng.choice("xy")
        k[f] = [cen(-v, p) for v in k[f]]
    elif t == 15 and r:
        k["x"], k["y"] = k["y"], k["x"]
    elif t == 16 and r:          # same first equation, wrong second one (and conversely)
        f = rng.choice("xy")
        k[f] = [value(rng, p) for _ in range(r)]
    return k


def certs(c, jobs, timeout=20):
    """honest certificates by the library itself: [(A, p, hash)] -> [cert or None]"""
    lines = []
    for i, (A, p, h) in enumerate(jobs):
        lines.append((i, "ech 1 0 1 1 1  1 1 1 1 1 1 0 0.1 3 0.05 1000 0.5 5 -1 %d %s %s" % (E.W_CERT, A.tok(), " ".join(map(str, h)))))
    res = run_drv(c.pexe.result(), lines, timeout)
    out = []
    for i, (A, p, h) in enumerate(jobs):
        o = res[i]
        out.append(dict(o["cert"], prime=p) if o.get("status") == "ok" and "cert" in o else None)
    if 2 * len([k for k in out if k is None]) > len(out):
        raise CheckError("the library does not produce certificates here: nothing can be said about its verifier")
    return out


def c07(c):
    rng = c.rng
    c.rules.append("honest certificates and 18 kinds of alterations of them (digest, modulus, indices, responses, order, repeated pivots, more or fewer pivots, other matrix), all certificates with r <= 1 of all 2x2 matrices modulo 3 for a few digests, random certificates over tiny primes; certificate files: honest, truncated at every byte, with bytes replaced, removed or inserted, missing or additional numbers; non-trivial = altered certificate or file")
    def verify(A, p, h, k, nt):
        rec = {f: k[f] for f in ("r", "hash", "i", "j", "x", "y")}
        rec["pw"] = words(k["prime"])
        c.add("certv %s %s %s" % (A.tok(), " ".join(map(str, h)), cert_tok(k)),
              {"op": "verify", "h": half(p), "pw": words(p), "A": A.rec(), "hash": h, "cert": rec}, nt, exe="plain" if len(c.cases) % 9 == 0 else "det")
    # exhaustive over a tiny field
    import itertools
    for _ in range(1 if not THOROUGH else 6):
        h = digest(rng)
        for e in itertools.product([-1, 0, 1], repeat=4):
            A = gen.from_dense([list(e[:2]), list(e[2:])], 2, 2, 3, rng)
            verify(A, 3, h, {"r": 0, "prime": 3, "hash": h, "i": [], "j": [], "x": [], "y": []}, True)
            for i, j, x, y in itertools.product([0, 1], [0, 1], [-1, 0, 1], [-1, 0, 1]):
                verify(A, 3, h, {"r": 1, "prime": 3, "hash": h, "i": [i], "j": [j], "x": [x], "y": [y]}, True)
    # certificates drawn at random over tiny primes, repeated pivots included
    for t in range(1500 if not THOROUGH else 30000):
        p = rng.choice([3, 3, 3, 5, 7])
        n, m = rng.randint(1, 3), rng.randint(1, 3)
        A = lg.matrix(rng, p, n, m)
        h = digest(rng)
        r = rng.randint(1, 3)
        verify(A, p, h, {"r": r, "prime": p, "hash": h, "i": [rng.randrange(n) for _ in range(r)], "j": [rng.randrange(m) for _ in range(r)],
                         "x": [rng.randint(-half(p), half(p)) for _ in range(r)], "y": [rng.randint(-half(p), half(p)) for _ in range(r)]}, True)
    jobs = []
    for t in range(500 if not THOROUGH else 3000):
        p, A = E.the_matrix(rng, t, 8)
        jobs.append((A, p, digest(rng)))
    c.rules.append("plus matrices of 200-1500 rows or columns")
    for t in range(10 if not THOROUGH else 100):
        A = lg.large(rng, kind=[0, 1, 3, 4][t % 4])
        jobs.append((A, A.p, digest(rng)))
    hon = certs(c, jobs)
    for (A, p, h), k in zip(jobs, hon):
        if k is None:
            continue
        verify(A, p, h, k, False)
        for _ in range(4):
            verify(A, p, h, alter(rng, k, A.n, A.m, p), True)
        if rng.random() < .3:      # presented with another digest
            h2 = list(h)
            h2[rng.randrange(32)] ^= 1 << rng.randrange(8)
            verify(A, p, h2, k, True)
            if rng.random() < .5:
                verify(A, p, h2, dict(k, hash=h2), True)
        if rng.random() < .2:      # digests that differ in a few bytes only, or in their order
            h2 = list(h)
            u = rng.random()
            a, b = rng.sample(range(32), 2)
            if u < .4:
                h2[a], h2[b] = h2[b], h2[a]
            elif u < .7:
                h2[a], h2[b] = h2[a] ^ 0x11, h2[b] ^ 0x11
            else:
                d = rng.randint(1, 255)
                h2[a], h2[b] = (h2[a] + d) % 256, (h2[b] - d) % 256
            verify(A, p, h2, k, True)
        if A.nnz() and rng.random() < .5:      # another matrix
            B = gen.Mat(A.n, A.m, p, [list(r) for r in A.rows])
            i = rng.choice([i for i in range(A.n) if A.rows[i]])
            q = rng.randrange(len(B.rows[i]))
            j, v = B.rows[i][q]
            w = cen(v + rng.choice([1, -1, value(rng, p)]), p)
            B.rows[i][q] = (j, w if w else v)
            verify(B, p, h, k, True)
    def load(b, nt):
        c.add("certload %d %s" % (len(b), " ".join(map(str, b))), {"op": "load", "bytes": list(b)}, nt)
    ks = [k for k in hon if k and k["r"] <= 4][:120 if not THOROUGH else 400]
    for t, k in enumerate(ks):
        b = render(k)
        load(b, False)
        if t < 12:
            for e in range(len(b)):
                load(b[:e], True)
        for _ in range(14):
            d = bytearray(b)
            for _ in range(rng.randint(1, 2)):
                q = rng.randrange(len(d))
                u = rng.random()
                ch = rng.choice(b" \n-+0123456789abcdefgxX.%\0\t\xff")
                if u < .4:
                    d[q] = ch
                elif u < .6:
                    del d[q]
                elif u < .8:
                    d.insert(q, ch)
                elif u < .9:
                    d = bytearray(d.replace(b" ", b"\n", 1))
                else:
                    tk = bytes(d).split(b" ")
                    if len(tk) > 2:
                        del tk[rng.randrange(len(tk) - 1)]
                    d = bytearray(b" ".join(tk))
                if not d:
                    break
            load(bytes(d), True)
        for r in (-1, k["r"] + 1, 2 * k["r"] + 1, 2147483647, 4294967296, 99999999999):
            load(b"%d" % r + b[b.index(b"\n"):], True)
