"""inputs whose intermediate sizes exceed 2^31 (products of dimensions); for the plain build, whose untouched memory is free"""
import mmap
import lin_gen as lg
from gen import value
from lin_gen import Mat, srow


def room(gb):
    """can a block of gb gigabytes be reserved, and is there memory for it?"""
    try:
        m = mmap.mmap(-1, gb << 30, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS)
        m.close()
        with open("/proc/meminfo") as f:
            for line in f:
                if line.startswith("MemAvailable:"):
                    return int(line.split()[1]) >> 20
    except (OSError, ValueError):
        pass
    return 0


def few_rows(rng, p):
    """few rows, more than 65536 columns: with 33000 rows in a block, the block has more than 2^31 coefficients"""
    A = lg.huge(rng, p, False)
    return A, 2 ** 31 // (A.m - 10) + 10


def block(rng, p):
    """a dense block of more than 2^31 coefficients, of small rank; the independent rows are at the end"""
    m = 66000 + rng.randint(0, 500)
    n = 2 ** 31 // (m - 10) + rng.randint(60, 200)
    def row():
        cols = {rng.randrange(65536, m) for _ in range(2)} | {rng.randrange(m) for _ in range(3)} | {m - 1 - rng.randrange(40)}
        return [(j, value(rng, p)) for j in cols]
    first = row()
    rows = [first if rng.random() < .01 else [] for _ in range(n - 20)]
    for k in range(20):
        rows.append(row() if k % 7 == 3 else rng.choice([first, [], row()]) if k % 5 == 0 else [])
    return Mat(n, m, p, rows), n + 7


def stacked(rng, p):
    """k pivots found first, then k rows eliminated with them: k*k > 2^31"""
    k = 46400 + rng.randint(0, 300)
    perm = list(range(k))
    rng.shuffle(perm)
    rows = [[(j, value(rng, p))] for j in perm]
    rows2 = [[(j, value(rng, p))] for j in range(k)]
    for r in rng.sample(rows2, 30):
        r.append((k + rng.randrange(5), value(rng, p)))
    rng.shuffle(rows2)
    return Mat(2 * k, k + 9, p, rows + rows2)         # the last columns are empty
