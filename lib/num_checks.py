from core import *
import gen
from gen import half, cen
from hist_checks import limbs


def inv(a, p):
    return cen(pow(a % p, -1, p), p)


def c18(c):
    rng = c.rng
    c.rules.append("all operand pairs / triples for p in 3..13; for 23 primes up to 4294967291: extreme operands, operands built so that the exact result sits next to a wrap-around (0, +-1, +-(p-1)/2, +-((p-1)/2-1)), uniform ones; non-trivial = every record (a batch of operations)")
    def batch(p, ops):
        for k in range(0, len(ops), 150):
            part = ops[k:k + 150]
            t, q = [], []
            for o in part:
                if o[0] == "i":
                    t.append("i %d 0 0" % o[1])
                    q.append(dict(o="i", **limbs(o[1])))
                else:
                    a = list(o[1:]) + [0] * (4 - len(o))
                    t.append("%s %d %d %d" % (o[0], a[0], a[1], a[2]))
                    q.append({"o": o[0], "a": a[0], "b": a[1], "c": a[2]})
            c.add("arith %d %d %s" % (p, len(part), " ".join(t)), {"h": half(p), "q": q}, exe="plain" if (k // 150) % 3 == 2 else "det")
    for p in (3, 5, 7, 11, 13):
        h = half(p)
        R = range(-h, h + 1)
        ops = [(o, a, b) for o in "asm" for a in R for b in R] + [("v", a) for a in R if a] + [("x", a, b, y) for a in R for b in R for y in R]
        ops += [("i", x) for x in range(-3 * p - 1, 3 * p + 2)]
        batch(p, ops)
    for p in gen.PRIMES:
        h = half(p)
        ext = sorted({x for x in (0, 1, -1, 2, -2, h, -h, h - 1, 1 - h, h // 2, -(h // 2), h // 2 + 1) if -h <= x <= h})
        ops = [(o, a, b) for o in "asm" for a in ext for b in ext] + [("v", a) for a in ext if a]
        ops += [("x", a, b, y) for a in ext[::2] + [h, -h] for b in ext for y in (0, h, -h, 1, -1)]
        ops += [("i", x) for x in (0, p, -p, p - 1, 1 - p, h, -h, h + 1, -h - 1, 2**63 - 1, -2**63, -2**63 + 1, 2**32, -2**32, 2**31, -2**31, 2**53 + 1, p * (2**63 // p), -p * (2**63 // p), p * (2**63 // p) - 1, -p * (2**63 // p) + h, p * 1000 + h, p * 1000 + h + 1, -p * 1000 - h - 1)  if -2**63 <= x < 2**63]
        N = 250 if not THOROUGH else 6000
        for _ in range(N):
            a = gen.value(rng, p)
            r = cen(rng.choice([0, 1, -1, h, -h, h - 1, 1 - h, rng.randint(-h, h)]), p)
            y = rng.choice([0, h, -h, rng.randint(-h, h)])
            ia = inv(a, p)
            ops.append(("m", a, cen(r * ia, p)))
            ops.append(("x", a, cen((r - y) * ia, p), y))
            ops.append(("a", a, cen(r - a, p)))
            ops.append(("s", a, cen(a - r, p)))
            ops.append(("v", rng.choice([a, cen(a + 1, p) or 1, ia])))
            ops.append(("i", rng.choice([rng.randint(-2**63, 2**63 - 1), p * rng.randint(-2**20, 2**20) + r])))
        batch(p, ops)


def words(x):
    return [(x >> 16) & 0xffff, x & 0xffff]


def c19(c):
    rng = c.rng
    c.rules.append("messages of every length 0..200 in one piece, random splits of messages up to 4000 bytes (pieces around multiples of 64), one message above 512 MB; generator: random and extreme seeds, moduli 3..4294967291 and the powers of two around them, sequences, mixed word / field draws across several blocks; non-trivial = non-empty message or at least one draw")
    def sha(chunks, msg=None, pat=None, exe="det"):
        n = sum(chunks)
        if msg is not None:
            c.add("sha %s %d %s" % (gen.ints(chunks), n, " ".join(map(str, msg))), {"op": "sha", "pat": 0, "msg": msg}, n > 0)
        else:
            c.add("sha %s %d %d %d" % (gen.ints(chunks), -n, pat[0], pat[1]), {"op": "sha", "pat": 1, "a": words(pat[0]), "b": words(pat[1]), "len": n}, n > 0, exe=exe)
    # more than 2^32 bits, in several updates and in one
    sha([300000000, 40000001, 250000000], pat=(12345, 99), exe="plain")
    sha([(1 << 29) + 77], pat=(54321, 7), exe="plain")
    sha([5, (1 << 29) - 5, 64], pat=(54321, 7), exe="plain")
    for n in range(0, 201):
        msg = [rng.randrange(256) for _ in range(n)]
        sha([n], msg)
        k = rng.randint(0, n)
        sha([k, n - k], msg)
        if n <= 130:
            sha([1] * n, msg)
    for t in range(600 if not THOROUGH else 6000):
        chunks = []
        for _ in range(rng.randint(1, 8)):
            chunks.append(max(0, rng.choice([0, 1, 63, 64, 65, 55, 56, 127, 128, 129, 512, rng.randint(0, 300), 64 * rng.randint(0, 6) + rng.randint(-2, 2)])))
        if sum(chunks) == 0:
            chunks[0] = 3
        sha(chunks, pat=(rng.getrandbits(32), rng.getrandbits(32)))
    for t in range(900 if not THOROUGH else 6000):
        p = rng.choice(gen.PRIMES + [3, 17, 127, 131, 65537, 32771, 2147483647])
        seq = rng.choice([0, 1, 2, 255, 256, 65536, 2**31, 2**32 - 1, rng.getrandbits(32)])
        n, skip = rng.randint(1, 40), rng.choice([0, 0, 0, 1, 7, 8, 9, 15, 16, rng.randint(0, 100)])
        if t % 60 == 0:
            skip = rng.choice([8 * 256 - 3, 8 * 65536 - 5, 8 * 300])
        ops = "".join(rng.choice("uz") if t % 3 else "z" for _ in range(n))
        a = {"op": "prng", "h": half(p), "prime": words(p), "seq": words(seq), "skip": skip, "ops": list(ops)}
        if rng.random() < .5:
            seed = [rng.randrange(256) for _ in range(32)] if rng.random() < .8 else [rng.choice([0, 255, 128])] * 32
            c.add("prng %d %d 0 %s %d %d %s" % (p, seq, " ".join(map(str, seed)), n, skip, ops), dict(a, seed=seed))
        else:
            s = rng.choice([0, 1, 2**32, 2**63, 2**64 - 1, rng.getrandbits(64), rng.getrandbits(32)])
            lo, hi = s & 0xffffffff, s >> 32
            seed = list(lo.to_bytes(4, "big") + hi.to_bytes(4, "big")) + [0] * 24
            c.add("prng %d %d 1 %d %d %d %d %s" % (p, seq, hi, lo, n, skip, ops), dict(a, seed=seed))
