from core import *
import gen, lin_gen as lg, re, resource, tempfile, subprocess, shutil
import ech_checks as E, cert_checks as K, io_checks as IO
from gen import half, cen, value

SMALL = [3, 5, 7, 13, 101, 257, 8191, 8209, 42013, 65521, 65537, 1048573, 189812507, 189812533, 2147483629, 2147483647, 2147483659, 4294967279, 4294967291]


def sms(rng, A, mm=None, p=None):
    """a file for a matrix; the values are written in several ways"""
    def v(x):
        k = rng.random()
        if k < .8 or p is None:
            return str(x)
        return str(x + rng.choice([p, -p, 3 * p]))
    ent = [(i + 1, j + 1, v(x if A.v else 1)) for i, r in enumerate(A.rows) for j, x in r]
    if rng.random() < .3:
        rng.shuffle(ent)
    mm = rng.random() < .25 if mm is None else mm
    L = ["%%MatrixMarket matrix coordinate integer general", "%d %d %d" % (A.n, A.m, len(ent))] if mm else ["%d %d M" % (A.n, A.m)]
    L += ["%d %d %s" % e for e in ent]
    if not mm:
        L.append("0 0 0")
    return ("\n".join(L) + "\n").encode()


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Runner:
    def __init__(self, c):
        self.c = c
        self.jobs = []

    def add(self, a, exe, args, stdin=None, files=None, outfile=None, nt=True, threads=1, key=None):
        self.jobs.append((a, exe, args, stdin, files or {}, outfile, nt, threads))

    def one(self, job):
        a, exe, args, stdin, files, outfile, nt, threads = job
        d = tempfile.mkdtemp(prefix="t-", dir=scratch())
        try:
            for n, b in files.items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(b)
            env = dict(os.environ, OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY="passive")
            to = False
            try:
                r = subprocess.run([self.exes[exe]] + args, input=stdin if stdin is not None else b"", cwd=d, env=env, capture_output=True, timeout=60, preexec_fn=limit)
                code, so, se = r.returncode, r.stdout, r.stderr.decode("latin1")
            except subprocess.TimeoutExpired as e:
                code, so, se, to = -9, e.stdout or b"", "", True
            out = so
            if outfile:
                p = os.path.join(d, outfile)
                out = open(p, "rb").read() if os.path.exists(p) else b""
                out += so
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return self.observe(a, code, to, out, se)

    def observe(self, a, code, to, out, se):
        """what the specification judges of a run"""
        rank = [int(x) for x in re.findall(r"^done in .* rank = (\d+)", se, re.M)]
        o = {"code": code, "timeout": to, "rank": rank[-1] if rank else -1, "nosol": [int(x) for x in re.findall(r"WARNING: no solution for row (\d+)", se)],
             "correct": 0 if "INCORRECT certificate" in se else 1 if "CORRECT certificate" in se else -1}
        if a["tool"] in ("dmv",):
            s = out.decode("latin1")
            g = lambda n: [int(x) for q in re.findall(r"\*\) %s \((\d+) x (\d+)\)" % n, s) for x in q]
            x = re.search(r"structural rank = (\d+)", s)
            y = re.search(r"-> plus (\d+) SCC of size 1", s)
            o["v"] = {"rank": int(x.group(1)) if x else -1, "H": g("H"), "S": g("S"), "V": g("V"), "scc": [int(v) for v in re.findall(r"SCC of size (\d+)$", s, re.M) if True], "single": int(y.group(1)) if y else 0}
            if y:      # "plus k SCC of size 1" also matches the pattern above
                o["v"]["scc"].remove(1)
        if a["tool"] in ("dmi", "bitmap"):
            o["tok"] = [int(t) if t.isdigit() and len(t) < 10 else int(t[1:]) if re.fullmatch(r"P\d", t) and k == 0 else -1 for k, t in enumerate(out.decode("latin1").split())]
            out = out if code else b""
        o["out"] = list(out)
        return o

    def run(self):
        self.exes = self.c.tools.result()
        with ThreadPoolExecutor(8) as p:
            res = list(p.map(self.one, self.jobs))
        js, self.jobs = self.jobs, []
        return js, res


def record(c, js, res):
    for job, o in zip(js, res):
        a, exe, args, stdin, files, outfile, nt, threads = job
        a = {k: v for k, v in a.items() if k != "job"}
        key = "%s %s threads=%d %s" % (exe, " ".join(args), threads, json.dumps({k: v.decode("latin1") for k, v in dict(files, stdin=stdin or b"").items()}))
        c.records.append({"id": len(c.records), "s": "ok", "a": a, "o": o, "key": key, "nt": nt, "job": job})


def eopts(rng):
    """command-line options of the tools that echelonize; some finishing method stays usable"""
    o, gplu, dense, thr = [], True, True, .05
    if rng.random() < .35:
        o.append("--no-low-rank-mode")
    if rng.random() < .3:
        o.append("--no-dense-mode")
        dense = False
    if rng.random() < .5:
        o.append("--max-iterations=%d" % rng.choice([0, 1, 2, 10]))
    if rng.random() < .4:
        thr = rng.choice([-1, -1, 0, .3, 2])
        o.append("--dense-threshold=%s" % thr)
    if dense and thr < 0 and rng.random() < .5:
        o.append("--no-GPLU")
    if rng.random() < .3:
        o.append("--min-pivot-proportion=%s" % rng.choice([0, .5, 2]))
    if rng.random() < .3:
        o.append("--dense-block-size=%d" % rng.choice([1, 2, 5]))
    if rng.random() < .2:
        o.append("--min-rank-ratio=%s" % rng.choice([0, .9, 2]))
    if rng.random() < .2:
        o.append("--max-aspect-ratio=%s" % rng.choice([0, 2]))
    rng.shuffle(o)
    return o


def pw(p):
    return K.words(p)


def base(tool, p, b, **kw):
    return dict({"tool": tool, "h": half(p), "pw": pw(p), "inp": list(b)}, **kw)


def modulus(rng, p):
    if p == 42013 and rng.random() < .7:
        return []
    return rng.choice([["--modulus=%d" % p], ["--modulus", str(p)], ["-p", str(p)]])


def matrix(rng, t, p, size=8):
    k = t % 12
    if k == 0:
        n, m = rng.choice([(0, 0), (0, 3), (3, 0), (1, 1)])
    elif k in (1, 2):
        m = rng.randint(1, size)
        n = rng.randint(m, 4 * m + 4)
    elif k == 3:
        n = rng.randint(1, size)
        m = rng.randint(n, 4 * n)
    else:
        n, m = rng.randint(1, size), rng.randint(1, size)
    return lg.matrix(rng, p, n, m)


def damage(rng, b):
    """another file: truncated, altered; no huge dimensions, which only ask for memory"""
    while True:
        d = damage1(rng, b)
        if not any(10**4 < abs(int(t)) < 2**31 for l in d.decode("latin1").split("\n") for t in l.split()[:2] if re.fullmatch(r"[+-]?[0-9]+", t)):
            return d


def damage1(rng, b):
    k = rng.randrange(7)
    if k == 0:
        return b[:rng.randrange(len(b) + 1)]
    L = b.decode("latin1").split("\n")[:-1]
    if k < 4:
        L = IO.token(rng, L, 5, 5, 42013)
    elif k == 4:
        del L[rng.randrange(len(L))]
    elif k == 5:
        L[0] = rng.choice(IO.HEADERS)
    else:
        L.insert(rng.randrange(len(L) + 1), rng.choice(["x", "0 0 0", "", "1 1", "-1 1 1"]))
    return ("\n".join(L) + "\n").encode("latin1")


def large(c, R, N):
    """files of thousands of bytes, matrices beyond 1000 rows or columns"""
    rng = c.rng
    for t in range(12 * N):
        p = rng.choice(SMALL)
        A = lg.large(rng, p, t % 6)
        b = sms(rng, A, p=p)
        R.add(base("rank", p, b, cert=t % 2 == 0), "rank", ["--modulus=%d" % p] + (["-c", "-o", "proof"] if t % 2 == 0 else []), b, {}, "proof" if t % 2 == 0 else None, True, rng.randint(1, 4))
        A = lg.large(rng, p, t % 6)
        b = sms(rng, A, p=p)
        left = rng.random() < .5
        R.add(base("kernel", p, b, left=left), "kernel", ["--modulus=%d" % p] + (["--left"] if left else []), b, {}, None, True, rng.randint(1, 4))
        A = lg.large(rng, p, t % 6)
        b = sms(rng, A, p=p)
        rref = rng.random() < .5
        R.add(base("echelonize", p, b, rref=rref), "echelonize", ["--modulus=%d" % p] + (["--rref"] if rref else []), b, {}, None, True, rng.randint(1, 4))
        A = lg.large(rng, p, t % 6)
        b = sms(rng, A, p=p)
        rows = [lg.combos(rng, p, A.rows, 5, A.m) if rng.random() < .6 else lg.srow(rng, p, A.m, 4) for _ in range(rng.randint(1, 6))]
        b2 = sms(rng, gen.Mat(len(rows), A.m, p, rows), p=p)
        R.add(base("solve", p, b, inp2=list(b2)), "solve", ["--matrix=a", "--rhs=b", "--modulus=%d" % p], None, {"a": b, "b": b2}, None, True, rng.randint(1, 4))
        for tool in ["transpose", "stack", "vertical_swap"]:
            A = lg.large(rng, 42013)
            b = sms(rng, A)
            R.add(base(tool, 42013, b), tool, [], b, {}, None, True)


def far(c, R, N):
    """row or column numbers beyond 65536, few entries"""
    rng = c.rng
    for t in range(14 * N):
        p = rng.choice(SMALL) if t % 7 < 4 else 42013
        big, few = 65536 + rng.randint(50, 4000), rng.randint(2, 7)
        pos = {(rng.randrange(few), rng.randrange(*rng.choice([(65536, big), (0, big)]))) for _ in range(rng.randint(5, 40))}
        pos |= {(i, j - 65536) for i, j in pos if j >= 65536 and rng.random() < .3}
        wide = t // 7 % 2 == 0
        n, m = (few, big) if wide else (big, few)
        rows = [[] for _ in range(n)]
        for i, j in pos:
            rows[i if wide else j].append((j if wide else i, value(rng, p)))
        A = gen.Mat(n, m, p, rows)
        b = sms(rng, A, p=p)
        k = t % 7
        if k == 0:
            R.add(base("rank", p, b, cert=True), "rank", ["--modulus=%d" % p, "-c", "-o", "proof"], b, {}, "proof", True, rng.randint(1, 4))
        elif k == 1:
            rref = rng.random() < .5
            R.add(base("echelonize", p, b, rref=rref), "echelonize", ["--modulus=%d" % p] + (["--rref"] if rref else []), b, {}, None, True, rng.randint(1, 4))
        elif k == 2:
            full = [r for r in rows if r]
            rhs = [lg.combos(rng, p, full, 3, m) for _ in range(rng.randint(1, 4))] + [[(m - 1, 1)]]
            b2 = sms(rng, gen.Mat(len(rhs), m, p, rhs), p=p)
            R.add(base("solve", p, b, inp2=list(b2)), "solve", ["--matrix=a", "--rhs=b", "--modulus=%d" % p], None, {"a": b, "b": b2}, None, True, rng.randint(1, 4))
        elif k == 3 and not wide:
            R.add(base("kernel", p, b, left=False), "kernel", ["--modulus=%d" % p], b, {}, None, True, rng.randint(1, 4))
        else:
            tool = ["stack", "vertical_swap", "transpose", "rank"][k - 4 if k > 3 else 3]
            R.add(base(tool, p if tool == "rank" else 42013, b, cert=False) if tool == "rank" else base(tool, 42013, b), tool, ["--modulus=%d" % p] if tool == "rank" else [], b, {}, None, True)


def c21(c):
    rng = c.rng
    c.rules.append("rank, kernel (left and right), echelonize (with and without --rref), solve, check_cert, dm (all modes), transpose, stack, vertical_swap and bitmap run as processes on SMS and MatrixMarket files (valid, truncated, altered, empty), from stdin or files, 19 moduli, random option vectors, 1-4 threads, certificates written then checked on the same, modified or foreign inputs; non-trivial = matrix with entries, altered file or usage error")
    R = Runner(c)
    N = 1 if not THOROUGH else 10

    def source(b, name="m.sms"):
        """stdin or file"""
        return ([], b, {}) if rng.random() < .5 else (rng.choice([["--matrix=" + name], ["-m", name]]), None, {name: b})

    def maybe(b, q=.12):
        return damage(rng, b) if rng.random() < q else b
    # rank, with and without certificates
    for t in range(330 * N):
        p = rng.choice(SMALL)
        A = matrix(rng, t, p)
        b = maybe(sms(rng, A, p=p))
        m, si, fs = source(b)
        cert = rng.random() < .4
        args = m + modulus(rng, p) + eopts(rng)
        of = None
        if cert:
            of = "proof"
            args += [rng.choice(["--certificate", "-c"])] + rng.choice([["--output=proof"], ["-o", "proof"]])
        if rng.random() < .3:
            args += [rng.choice(["--no-transpose", "-t"])]
        R.add(base("rank", p, b, cert=cert), "rank", args, si, fs, of, A.nnz() > 0, rng.randint(1, 4))
    for t in range(240 * N):
        p = rng.choice(SMALL)
        A = matrix(rng, t, p)
        b = maybe(sms(rng, A, p=p))
        m, si, fs = source(b)
        left = rng.random() < .5
        of = rng.choice([None, "out"])
        args = m + modulus(rng, p) + eopts(rng) + ([rng.choice(["--left", "-l"])] if left else []) + (["--output=out"] if of else [])
        R.add(base("kernel", p, b, left=left), "kernel", args, si, fs, of, A.nnz() > 0, rng.randint(1, 4))
    for t in range(240 * N):
        p = rng.choice(SMALL)
        A = matrix(rng, t, p)
        b = maybe(sms(rng, A, p=p))
        rref = rng.random() < .5
        args = (["--modulus=%d" % p] if p != 42013 or rng.random() < .3 else []) + (["--rref"] if rref else [])
        for o in ["--no-greedy-pivot-search", "--no-low-rank-mode", "--dense-block-size=%d" % rng.choice([1, 3]), "--low-rank-start-weight=%d" % rng.choice([1, 2]), "--sparsity-threshold=%s" % rng.choice([0, 2, .5])]:
            if rng.random() < .25:
                args.append(o)
        R.add(base("echelonize", p, b, rref=rref), "echelonize", args, b, {}, None, A.nnz() > 0, rng.randint(1, 4))
    for t in range(240 * N):
        p = rng.choice(SMALL)
        A = matrix(rng, t, p, 7)
        k = rng.randint(0, 5)
        m2 = A.m if rng.random() < .94 else max(0, A.m + rng.choice([-1, 1, 3]))
        rows = []
        D = A.dense()
        for _ in range(k):
            if rng.random() < .6 and A.n and m2 == A.m:      # a combination of the rows
                v = [0] * A.m
                for r in D:
                    if rng.random() < .6:
                        f = value(rng, p)
                        v = [cen(x + f * y, p) for x, y in zip(v, r)]
            else:
                v = [value(rng, p) if rng.random() < .4 else 0 for _ in range(m2)]
            rows.append(v)
        B = gen.from_dense(rows, k, m2, p, rng)
        b, b2 = maybe(sms(rng, A, p=p), .06), maybe(sms(rng, B, p=p), .06)
        of = rng.choice([None, "out"])
        if rng.random() < .5:
            args, si, fs = ["--matrix=a", "--rhs=b"], None, {"a": b, "b": b2}
        elif rng.random() < .5:
            args, si, fs = ["-r", "b"], b, {"b": b2}
        else:
            args, si, fs = ["-m", "a"], b2, {"a": b}
        args = args + modulus(rng, p) + eopts(rng) + (["-o", "out"] if of else [])
        R.add(base("solve", p, b, inp2=list(b2)), "solve", args, si, fs, of, A.nnz() > 0, rng.randint(1, 4))
    for t in range(300 * N):
        tool = rng.choice(["transpose", "stack", "vertical_swap"])
        p = 42013
        A = matrix(rng, t, p, 9)
        if tool == "stack" and rng.random() < .7:
            A = lg.matrix(rng, p, rng.randint(0, 12), rng.randint(0, 12))
            A.rows = [r if rng.random() < .6 else [] for r in A.rows]
        if tool != "stack" and rng.random() < .2:      # repeated positions
            for r in A.rows:
                if r:
                    r.append((r[0][0], value(rng, p)))
        b = maybe(sms(rng, A, p=p))
        R.add(base(tool, p, b), tool, [], b, {}, None, A.nnz() > 0)
    large(c, R, N)
    far(c, R, N)
    # Dulmage-Mendelsohn: the permuted matrix first, then the report and the picture
    dm = []
    for t in range(260 * N):
        k = rng.random()
        A = IO.blocks(rng) if k < .7 else gen.pattern(rng, rng.randint(0, 7), rng.randint(0, 7), rng.choice([.1, .3, .6]))
        if rng.random() < .4:
            A = gen.Mat(A.n, A.m, 42013, [[(j, value(rng, 42013)) for j, _ in r] for r in A.rows])
        b = maybe(sms(rng, A), .06)
        dm.append((b, A))
        R.add(base("dm", 42013, b), "dm", rng.choice([[], ["--permuted"]]), b, {}, None, A.nnz() > 0)
    for t in range(200 * N):
        A = gen.pattern(rng, rng.randint(1, 12), rng.randint(1, 12), rng.choice([.05, .2, .5, 1]))
        b = sms(rng, A)
        g, w, h, px = rng.random() < .5, -1, -1, 0
        args = []
        k = rng.randrange(4)
        if k in (0, 2):
            w = rng.randint(1, 15)
            args.append("--width=%d" % w)
        if k in (1, 2):
            h = rng.randint(1, 15)
            args.append("--height=%d" % h)
        if k == 3 and rng.random() < .8:
            px = rng.choice([1000000, 2500000, 3, 10, 20, 40, 60, 100])
            args.append("--mpixels=%s" % (px / 1e6))
        if g:
            args.append("--gray")
        R.add(base("bitmap", 3, b, gray=g, w=w, ht=h, px=px), "bitmap", args, b, {}, None, A.nnz() > 0)
    # what cannot be understood
    good = b"2 2 M\n1 1 1\n2 2 1\n0 0 0\n"
    for tool, args in [("rank", ["--nonsense"]), ("rank", ["stray"]), ("kernel", ["stray"]), ("solve", ["stray"]), ("rank", ["--matrix=absent"]), ("kernel", ["--matrix=absent"]), ("solve", ["--rhs=absent"]),
                       ("solve", ["--matrix=absent", "--rhs=absent"]), ("check_cert", ["--certificate=absent"]), ("check_cert", ["stray"]), ("echelonize", ["--nonsense"]), ("dm", ["--nonsense"]), ("bitmap", ["--nonsense"]),
                       ("bitmap", ["--mpixels=1", "--width=2"]), ("rank", ["--modulus=0"]), ("rank", ["--modulus=1"]), ("rank", ["--modulus=4294967296"]), ("kernel", ["--modulus=1"]), ("kernel", ["--modulus=99999999999"]),
                       ("rank", ["--modulus=-3"]), ("echelonize", ["--modulus=1"]), ("echelonize", ["--modulus=8589934592"]), ("rank", ["--modulus=-1"]), ("kernel", ["--modulus=-1"]), ("echelonize", ["--modulus=-1"])]:
        R.add(base("usage", 3, good), tool, args, good, {}, None, True)
    js, res = R.run()
    record(c, js, res)
    log("first stage done")
    # second stage: what the first one wrote
    certs = [(j, o) for j, o in zip(js, res) if j[0]["tool"] == "rank" and j[0].get("cert") and o["code"] == 0]
    for j, o in certs * 3:
        a = j[0]
        inp, cert = bytes(a["inp"]), bytes(o["out"])
        p = a["pw"][0] * 65536 + a["pw"][1]
        q = p
        k = rng.randrange(9)
        if k == 1:       # the same matrix, another file
            inp = inp.replace(b" ", b"  ", 1) if rng.random() < .5 else inp + b"\n"
        elif k == 2:
            inp = damage(rng, inp)
        elif k == 3:
            cert = cert[:rng.randrange(len(cert) + 1)]
        elif k in (4, 5):
            d = bytearray(cert)
            for _ in range(rng.randint(1, 2)):
                if d:
                    z = rng.randrange(len(d))
                    if rng.random() < .7:
                        d[z] = rng.choice(b"0123456789-")
                    else:
                        del d[z]
            cert = bytes(d)
        elif k == 6:
            inp, cert = bytes(a["inp"]), bytes(rng.choice(certs)[1]["out"])
        elif k == 7:
            q = rng.choice(SMALL)
        elif k == 8:
            cert += rng.choice([b"\n", b" ", b"1", b"x"])
        if rng.random() < .4:
            args, si, fs = ["-c", "proof"], inp, {"proof": cert}
        elif rng.random() < .8:
            args, si, fs = ["--matrix=m", "--certificate=proof"], None, {"m": inp, "proof": cert}
        else:
            args, si, fs = ["--matrix=m"], cert, {"m": inp}
        R.add(base("check_cert", q, inp, inp2=list(cert)), "check_cert", args + modulus(rng, q), si, fs, None, True, rng.randint(1, 4))
    perm = {bytes(j[0]["inp"]): bytes(o["out"]) for j, o in zip(js, res) if j[0]["tool"] == "dm" and o["code"] == 0}
    for b, A in dm:
        if b not in perm:
            continue
        R.add(base("dmv", 42013, b, inp2=list(perm[b])), "dm", ["--verbose"], b, {}, None, A.nnz() > 0)
        if A.n and A.m:
            full = rng.random() < .4
            R.add(base("dmi", 42013, b, inp2=list(perm[b]), full=full), "dm", ["--image=%s" % (1 if full else rng.choice([.000004, .00001, .00003, .0001]))], b, {}, None, A.nnz() > 0)
    # usage errors of the second stage: options without value
    js, res = R.run()
    record(c, js, res)
    log("second stage done: %d runs" % len(c.records))

    def redo(r):
        o = R.one(r["job"])
        return dict({k: v for k, v in r.items() if k != "job"}, o=o)
    recs = [{k: v for k, v in r.items() if k != "job"} for r in c.records]
    jobs = {r["id"]: r["job"] for r in c.records}
    for r in c.records:
        r.pop("job")
    c.run_records(c.classes.result(), "C21", recs, lambda r: redo(dict(r, job=jobs[r["id"]])))
    st = {}
    for r in c.records:
        k = "%s:%s" % (r["a"]["tool"], "ok" if r["o"]["code"] == 0 else "refused")
        st[k] = st.get(k, 0) + 1
    c.cov["runs"] = st
