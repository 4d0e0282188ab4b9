from core import *
import gen, lin_gen as lg, tempfile, subprocess, shutil
import cert_checks as K, io_checks as IO, tool_checks as T
from gen import half, value


def where(rng, n):
    """the byte at which the device gives up"""
    k = rng.random()
    if k < .1:
        return 0
    if k < .3:
        return max(0, n - rng.randint(1, 4))
    if k < .35:
        return n
    if k < .4:
        return n + rng.randint(1, 50)
    return rng.randrange(n + 1)


def smat(A):
    """bytes of the matrix as the library writes it, for placing the fault; nothing is judged with it"""
    return len("%d %d M\n" % (A.n, A.m)) + sum(len("%d %d %d\n" % (i + 1, j + 1, x if A.v else 1)) for i, r in enumerate(A.rows) for j, x in r) + 6


def writers(c, N):
    rng = c.rng
    ample = 100000

    def one(kind, tok, rec, n, nt=True):
        for _ in range(2):
            cap = where(rng, n) if rng.random() < .85 else ample
            heals = rng.choice([0, 0, 0, 1, 1, 2])
            buf = rng.choice([0, 1, 2, 7, 16, 64, 512, 4096, 4096])
            c.add("device %d %d %d %d %s" % (kind, cap, heals, buf, tok), dict(rec, op="device", cap=cap, ample=ample), nt and cap < n, exe="plain" if len(c.cases) % 5 == 0 else "det")
    for t in range(500 * N):
        p = lg.prime(rng)
        n, m = rng.randint(0, 8), rng.randint(0, 8)
        A = gen.pattern(rng, n, m, rng.random()) if rng.random() < .15 else lg.matrix(rng, p, n, m)
        if t % 20 == 0:
            A = lg.matrix(rng, p, rng.randint(10, 30), rng.randint(10, 30))
        one(rng.randrange(2), A.tok(), {"kind": "matrix", "h": half(A.p), "A": A.rec()}, smat(A))
    for t in range(200 * N):
        n, m = rng.randint(1, 14), rng.randint(1, 14)
        A = gen.pattern(rng, n, m, rng.choice([.05, .2, .6, 1]))
        x, y, mode = rng.randint(1, m), rng.randint(1, n), rng.choice([1, 2])
        one(2, "%d %d %d %s" % (mode, x, y, A.tok()), {"kind": "picture", "mode": mode, "x": x, "y": y, "A": A.rec()}, 8 + 2 * x * y + y)
    for t in range(300 * N):
        p, r = lg.prime(rng), rng.choice([0, 1, 2, 5, 12, 40])
        k = {"r": r, "prime": p, "hash": K.digest(rng), "i": [rng.randrange(99) for _ in range(r)], "j": [rng.randrange(99) for _ in range(r)], "x": [value(rng, p) for _ in range(r)], "y": [value(rng, p) for _ in range(r)]}
        rec = {f: k[f] for f in ("r", "hash", "i", "j", "x", "y")}
        rec["pw"] = K.words(p)
        one(3, K.cert_tok(k), {"kind": "certificate", "cert": rec}, len(K.render(k)))


def readers(c, N):
    rng = c.rng

    def one(kind, b, rec, p=3, wh=0):
        for _ in range(3):
            cap, heals = where(rng, len(b)), rng.choice([0, 0, 1, 2])
            buf = rng.choice([0, 1, 3, 16, 64, 4096])
            c.add("source %d %d %d %d %d %d %d %s" % (kind, cap, heals, buf, p, wh, len(b), " ".join(map(str, b))), dict(rec, op="source", cap=cap, bytes=list(b)), cap < len(b), exe="plain" if len(c.cases) % 5 == 0 else "det")
    for t in range(400 * N):
        p = lg.prime(rng)
        L, _ = IO.text(rng, p, t % 3 > 0, rng.random() < .7)
        b = IO.cat(rng, L, rng.random() < .7)
        if rng.random() < .3 and b[-1:] == b"\n":      # the last number ends the file
            b = b[:-1]
        pat = rng.random() < .1
        wh = rng.random() < .6
        one(0, b, {"kind": "matrix", "h": half(p), "pattern": pat, "wanthash": wh}, -1 if pat else p, wh)
    for t in range(250 * N):
        p, r = lg.prime(rng), rng.choice([0, 1, 2, 5, 12])
        k = {"r": r, "prime": p, "hash": K.digest(rng), "i": [rng.randrange(999) for _ in range(r)], "j": [rng.randrange(999) for _ in range(r)], "x": [value(rng, p) for _ in range(r)], "y": [value(rng, p) for _ in range(r)]}
        b = K.render(k)
        one(1, b if rng.random() < .6 else b.rstrip(), {"kind": "certificate"})


class Faulty(T.Runner):
    """the same processes with a limit on the size of the files they write, on a full device, on a closed
    descriptor or on a pipe that nobody reads; the standard output is a file of the scratch directory"""
    def one(self, job):
        a, exe, args, stdin, files, outfile, nt, threads = job
        how, limit, ignore = a["how"], a["limit"], a["ignore"]
        d = tempfile.mkdtemp(prefix="f-", dir=scratch())
        try:
            for n, b in files.items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(b)
            env = dict(os.environ, OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY="passive")
            so = os.path.join(d, "stdout~")
            target = "/dev/full" if how == "full" else so
            args = [x.replace("@", target if how == "full" else outfile) if outfile and "@" in x else x for x in args]
            rd, wr = os.pipe()
            if how == "pipe":
                os.close(rd)

            def pre():
                T.limit()
                if how == "limit":
                    T.resource.setrlimit(T.resource.RLIMIT_FSIZE, (limit, limit))
                if how == "closed":
                    os.close(1)
                if how == "nostdin":
                    os.close(0)
            to = False
            with open(so, "wb") as sf, open("/dev/full", "wb") as full, open(os.path.join(d, "stdin~"), "w+b") as si:
                si.write(stdin or b"")
                si.seek(0)
                p = subprocess.Popen([self.exes[exe]] + args, stdin=si, stdout=full if how == "full" and not outfile else wr if how == "pipe" else sf, stderr=subprocess.PIPE, cwd=d, env=env, preexec_fn=pre, restore_signals=not ignore)
                try:
                    se = p.communicate(timeout=60)[1]
                    code = p.returncode
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    code, se, to = -9, b"", True
            os.close(wr)
            if how != "pipe":
                os.close(rd)
            out = b""
            if outfile:
                q = os.path.join(d, outfile)
                out = open(q, "rb").read() if os.path.exists(q) else b""
            out += open(so, "rb").read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return self.observe(a, code, to, out, se.decode("latin1"))


def tools(c, N):
    rng = c.rng
    R = Faulty(c)
    probe = T.Runner(c)
    jobs = []
    for t in range(330 * N):
        tool = ["rank", "rank", "rank", "kernel", "echelonize", "solve", "transpose", "stack", "vertical_swap", "dm", "bitmap", "dmv", "dmi"][t % 13]
        p = 42013 if tool in ("transpose", "stack", "vertical_swap", "dm", "dmv", "dmi") else rng.choice(T.SMALL)
        A = T.matrix(rng, rng.randrange(1, 12), p, 14 if t % 4 == 0 else 8) if tool[:2] != "dm" else IO.blocks(rng)
        b = T.sms(rng, A, p=p)
        a, args, files, of, exe = T.base(tool, p, b), ["--modulus=%d" % p], {}, None, tool
        if tool == "rank":
            a["cert"], of = True, "proof"
            args += ["-c", "--output=@"]
        elif tool in ("kernel", "echelonize"):
            if tool == "kernel":
                a["left"], of = False, rng.choice([None, "out"])
                args += ["--output=@"] if of else []
            else:
                a["rref"] = rng.random() < .5
                args += ["--rref"] if a["rref"] else []
        elif tool == "solve":
            rows = [lg.combos(rng, p, A.rows, 3, A.m) for _ in range(rng.randint(1, 6))]
            b2 = T.sms(rng, gen.Mat(len(rows), A.m, p, rows), p=p)
            a["inp2"], files, of = list(b2), {"b": b2}, rng.choice([None, "out"])
            args += ["-r", "b"] + (["-o", "@"] if of else [])
        elif tool == "bitmap":
            a.update(gray=rng.random() < .5, w=-1, ht=-1, px=0)
            args = ["--gray"] if a["gray"] else []
        elif tool[:2] == "dm":
            exe, args = "dm", {"dm": ["--permuted"], "dmv": ["--verbose"], "dmi": ["--image=1"]}[tool]
            a["full"] = True
        else:
            args = []
        jobs.append((a, exe, args, b, files, of, rng.randint(1, 3)))
        probe.add(T.base("dm", p, b) if tool[:2] == "dm" else a, exe, ["--permuted"] if tool[:2] == "dm" else [x.replace("@", of or "") for x in args], b, files, of)
    js, res = probe.run()
    for (a, exe, args, b, files, of, th), o in zip(jobs, res):
        n = len(o["out"])
        if o["code"] != 0:
            continue
        if a["tool"] in ("dmv", "dmi"):
            a["inp2"] = o["out"]
        if a["tool"] in ("dmv", "dmi", "bitmap"):
            n = {"dmv": 60, "dmi": 3 * len(a["inp"]), "bitmap": len(a["inp"])}[a["tool"]]
        for how in [rng.choice(["full", "closed", "pipe"]), "limit", "limit", "limit"]:
            ample = how == "limit" and rng.random() < .08
            if how in ("closed", "pipe") and of:
                continue
            k = 1 << 20 if ample else where(rng, n)
            R.add(dict(a, op="tool", how=how, limit=k, tight=not ample, ignore=rng.random() < .8), exe, args, b, files, of, not ample and k < n, th)
    # inputs that open but cannot be read
    good = b"2 2 M\n1 1 1\n2 2 1\n0 0 0\n"
    for exe, args in [("rank", ["--matrix=."]), ("kernel", ["--matrix=."]), ("solve", ["--matrix=.", "-r", "b"]), ("solve", ["-r", "."]), ("check_cert", ["--certificate=."]), ("check_cert", ["--matrix=.", "-c", "b"]), ("rank", ["--matrix=/dev/full"]),
                      # outputs that cannot be created: nothing may appear elsewhere
                      ("rank", ["-c", "--output=absent/x"]), ("rank", ["-c", "--output=."]), ("kernel", ["--output=absent/x"]), ("kernel", ["--output=."]), ("solve", ["-r", "b", "--output=absent/x"]), ("solve", ["-r", "b", "-o", "."])]:
        R.add(T.base("usage", 3, good, op="tool", how="limit", limit=1 << 20, tight=False, ignore=True), exe, args, good, {"b": good})
    for exe in ["rank", "kernel", "echelonize", "dm", "transpose", "stack", "vertical_swap", "bitmap"]:
        R.add(T.base("usage", 3, good, op="tool", how="nostdin", limit=0, tight=False, ignore=True), exe, [], good)
    js, res = R.run()
    T.record(c, js, res)
    for r in c.records:
        r["key"] += " %s %d %d" % (r["a"]["how"], r["a"]["limit"], r["a"]["ignore"])
    st = {}
    for r in c.records:
        k = "%s:%s" % (r["a"]["how"], "ok" if r["o"]["code"] == 0 else "refused")
        st[k] = st.get(k, 0) + 1
    c.cov["tool_runs"] = st
    jobs = {r["id"]: r.pop("job") for r in c.records}
    c.run_records(c.classes.result(), "C23", [dict(r) for r in c.records], lambda r: dict(r, o=R.one(jobs[r["id"]])))


def c23(c):
    c.rules.append("writers of the library (matrices in compressed and triplet form, pictures, certificates) on devices that refuse bytes from any position on, for ever or for 1-2 calls, buffers of 0-4096 bytes; readers of matrices and certificates on devices that stop delivering at any byte; the tools under a file-size limit from nothing to more than the whole output, on a full device, on a closed descriptor, on an abandoned pipe, with directories or a closed descriptor as input, with outputs that cannot be created; non-trivial = the fault comes before the end")
    N = 1 if not THOROUGH else 10
    writers(c, N)
    readers(c, N)
    tools(c, N)
