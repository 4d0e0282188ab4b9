"""memory that runs out: the cases of the other checks, with a heap that refuses requests"""
from core import *
import os, struct, tempfile, subprocess, shutil
import graph_checks as G, hist_checks as H, lin_checks as L, ech_checks as E, io_checks as IO, tool_checks as T


class Enough(Exception):
    pass


class Grab:
    """stands for the check of another property and keeps some of its cases"""

    def __init__(self, rng, pid, want, every, longest):
        self.rng, self.pid, self.want, self.every, self.longest = rng, pid, want, every, longest
        self.rules, self.cov, self.records, self.got, self.cases, self.seen = [], {}, [], [], [], 0

    def add(self, tok, rec, nt=True, module=None, exe="det", rest=None):
        t = tok.split(" ", 3)
        if t[0] == "far":
            return
        self.seen += 1
        self.cases.append(rec)
        if self.seen % self.every or len(tok) > self.longest:
            return
        if t[0] == "many":
            tok = t[3]
        self.got.append((tok, rec, module or self.pid, exe))
        if len(self.got) >= self.want:
            raise Enough


def sample(c, fn, pid, want, every=7, longest=4000):
    g = Grab(c.rng, pid, want, every, longest)
    try:
        fn(g)
    except Enough:
        pass
    return g.got


def calls(c, N):
    rng = c.rng
    base = []
    for fn, pid, want in [(E.c01, "C01", 60), (E.c02, "C02", 90), (E.c03, "C03", 40), (E.c04, "C04", 40), (E.c05, "C05", 60), (L.c08, "C08", 60), (L.c10, "C10", 80), (L.c11, "C11", 40),
                          (L.c20, "C20", 10), (G.c12, "C12", 30), (G.c13, "C13", 50), (G.c14, "C14", 30), (H.c15, "C15", 60), (H.c16, "C16", 80), (IO.c17, "C17", 80)]:
        base += sample(c, fn, pid, want * N, 7 if pid not in ("C12", "C13", "C14") else 150)
    # how many requests does each make?
    res = {}
    for e in ("det", "plain"):
        lines = [(k, "oom 0 0 " + b[0]) for k, b in enumerate(base) if b[3] == e]
        if lines:
            res.update(run_drv((c.exe if e == "det" else c.pexe).result(), lines))
    log("%d calls, without refusal: %s" % (len(base), {s: sum(r["status"] == s for r in res.values()) for s in {r["status"] for r in res.values()}}))
    tot = 0
    for k, (tok, rec, mod, exe) in enumerate(base):
        n = res[k].get("allocs", 0)
        if res[k]["status"] != "ok" or n == 0:
            continue
        tot += n
        ks = set(range(1, n + 1)) if n <= 4 else {rng.randint(1, n) for _ in range(3)} | {max(1, n - rng.randrange(3))}
        for at in sorted(ks):
            c.add("oom %d %d %s" % (at, rng.randrange(2), tok), dict(rec, mem="call"), True, "C24", exe, mod)
    c.cov["requests_for_memory"] = tot


class Starved(T.Runner):
    """a tool whose heap refuses the a["at"]-th request, or all from there on"""

    def one(self, job):
        a, exe, args, stdin, files, outfile, nt, threads = job
        d = tempfile.mkdtemp(prefix="o-", dir=scratch())
        try:
            for n, b in files.items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(b)
            lg, se = os.path.join(d, "heap~"), os.path.join(d, "stderr~")
            with open(lg, "wb") as f:
                f.write(bytes(24))
            env = dict(os.environ, OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY="passive", OOM="%d %d" % (a["at"], a["lasts"]), OOM_LOG=lg)
            to, so = False, b""
            with open(se, "wb") as ef:
                try:
                    r = subprocess.run([self.exes[exe]] + args, input=stdin if stdin is not None else b"", cwd=d, env=env, stdout=subprocess.PIPE, stderr=ef, timeout=60, preexec_fn=T.limit)
                    code, so = r.returncode, r.stdout
                except subprocess.TimeoutExpired as e:
                    code, so, to = -9, e.stdout or b"", True
            with open(se, "rb") as ef:
                err = ef.read()
            with open(lg, "rb") as f:
                heap = struct.unpack("3q", f.read(24))
            if code == 99:
                raise CheckError("the heap of %s could not be controlled" % exe)
            out = so
            if outfile:
                p = os.path.join(d, outfile)
                out = (open(p, "rb").read() if os.path.exists(p) else b"") + so
        finally:
            shutil.rmtree(d, ignore_errors=True)
        o = self.observe(a, code, to, out, err.decode("latin1"))
        o.update(requests=heap[0], refused=heap[1], said=0 <= heap[2] < len(err))
        return o


def tools(c, N):
    """some of the runs of C21, each repeated with refused requests"""
    rng, kept = c.rng, []

    class Some(Starved):
        def run(self):
            self.exes = c.htools.result()
            jobs = [j for k, j in enumerate(self.jobs) if sum(map(len, j[4].values())) + len(j[3] or b"") < 3000]
            rng.shuffle(jobs)
            by = {}
            for j in jobs:
                by.setdefault(j[0]["tool"], []).append(j)
            some = [(dict(j[0], at=0, lasts=0),) + j[1:] for t in sorted(by) if t != "usage" for j in by[t][:40 * N]]
            with ThreadPoolExecutor(8) as p:
                res = list(p.map(self.one, some))
            kept.extend(zip(some, res))
            self.jobs = []
            return some, res

    g = Grab(rng, "C21", 0, 1, 0)
    g.run_records = lambda *a, **k: None
    g.tools, g.classes = c.htools, c.classes
    keep, T.Runner = T.Runner, Some
    try:
        T.c21(g)
    finally:
        T.Runner = keep
    R = Starved(c)
    R.exes = c.htools.result()
    jobs, tot = [], 0
    for j, o in kept:
        tot += o["requests"]
        n = o["requests"]
        for at in sorted({rng.randint(1, n), rng.randint(1, n), max(1, n - rng.randrange(3))} if n else ()):
            jobs.append((dict(j[0], op="tool", at=at, lasts=rng.randrange(2)),) + j[1:])
    with ThreadPoolExecutor(8) as p:
        res = list(p.map(R.one, jobs))
    c.records = []
    T.record(c, jobs, res)
    st = {}
    for r in c.records:
        r["key"] += " request %d %d" % (r["a"]["at"], r["a"]["lasts"])
        k = "%s:%s" % (r["a"]["tool"], "ok" if r["o"]["code"] == 0 else "stopped")
        st[k] = st.get(k, 0) + 1
    c.cov["tool_runs"] = st
    c.cov["requests_of_tools"] = tot
    js = {r["id"]: r.pop("job") for r in c.records}
    c.run_records(c.classes.result(), "C24", [dict(r) for r in c.records], lambda r: dict(r, o=again(R, js[r["id"]])))


def again(R, job):
    """exit() of one thread while the others go on can end in a signal of its own: only what lasts counts"""
    for _ in range(5):
        o = R.one(job)
        if o["code"] >= 0 or o["timeout"]:
            break
    return o


def c24(c):
    c.rules.append("cases of C01-C05, C08, C10-C17 and C20 and runs of every tool (C21), the heap of the library and of the tools refusing the k-th request, alone or with all that follow; k anywhere, all k when there are few; non-trivial = always")
    N = 1 if not THOROUGH else 8
    calls(c, N)
    tools(c, N)
