"""Shared machinery of the checks: build, run the driver, replay records through TLC, report."""
import hashlib, itertools, json, os, re, shutil, subprocess, sys, tempfile, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = min(8, os.cpu_count() or 8)
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.path.join(VERIF, "build")
T0 = time.time()


_tmpno = itertools.count()


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------- build
def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def _cached(kind, inputs, extra, cmd, out_ext=".o", also=()):
    """Compile one file unless an object of the same content exists."""
    key = _hash(list(inputs) + list(also), extra)
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s%s" % (kind, key, out_ext))
    if not os.path.exists(out):
        tmp = out + ".%d-%d.tmp" % (os.getpid(), next(_tmpno)) + out_ext
        _run(cmd + ["-o", tmp])
        os.rename(tmp, out)
    return out


WRAP = "-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc reallocarray free memcpy memset memmove".split())
GUARD = "-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc reallocarray free".split())
HEAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=reallocarray"
LIBS = "-lblas -llapack -lgivaro -lgmpxx -lgmp -lm".split()


def sources():
    s = os.path.join(REPO, "src")
    cs = sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith(".c"))
    cpps = sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith((".cpp", ".cc")))
    hs = sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith((".h", ".hpp")))
    return s, cs, cpps, hs


def build_drv(pool):
    """The conformance driver: the library's sources with every memory access instrumented, on the
    deterministic runtime.  Returns a future giving the path of the executable."""
    s, cs, cpps, hs = sources()
    d = os.path.join(VERIF, "drv")
    dcs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))
    dhs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".h"))
    jobs = []
    for f in cpps:
        jobs.append(pool.submit(_cached, "pp", [f], "O1 dnf", ["g++", "-std=gnu++11", "-O1", "-I", s, "-c", f], ".o", hs))
    for f in cs:
        jobs.append(pool.submit(_cached, "ts", [f], "tsan O1", ["gcc", "-std=gnu99", "-O1", "-g", "-fopenmp", "-fsanitize=thread", "-DSPASM_VERIF", "-w", "-I", s, "-c", f], ".o", hs))
    for f in dcs:
        jobs.append(pool.submit(_cached, "dr", [f], "drv", ["gcc", "-O1", "-g", "-Wall", "-Wextra", "-fno-builtin", "-I", s, "-I", d, "-c", f], ".o", hs + dhs))

    def link():
        objs = [j.result() for j in jobs]
        return _cached("drv", objs, "link4", ["g++"] + objs + [WRAP] + LIBS, ".exe")
    return pool.submit(link)


def build_plain_drv(pool):
    """The same driver on libgomp with the library compiled as a user compiles it."""
    s, cs, cpps, hs = sources()
    d, d2 = os.path.join(VERIF, "drv"), os.path.join(VERIF, "drv_plain")
    dcs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c") and f != "detrt.c") + [os.path.join(d2, f) for f in ("plainrt.c", "guard.c", "far.c")]
    dhs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".h"))
    fl = ["-std=gnu99", "-O3", "-g", "-fopenmp", "-w", "-I", s]
    jobs = [pool.submit(_cached, "pp", [f], "O1 dnf", ["g++", "-std=gnu++11", "-O1", "-I", s, "-c", f], ".o", hs) for f in cpps]
    jobs += [pool.submit(_cached, "pl", [f], " ".join(fl[:4]), ["gcc"] + fl + ["-c", f], ".o", hs) for f in cs]
    jobs += [pool.submit(_cached, "dp", [f], "drvplain", ["gcc", "-O1", "-g", "-fopenmp", "-I", s, "-I", d, "-c", f], ".o", hs + dhs) for f in dcs]

    def link():
        objs = [j.result() for j in jobs]
        return _cached("drvp", objs, "link4", ["g++", "-fopenmp"] + objs + [GUARD] + LIBS, ".exe")
    return pool.submit(link)


TOOLS = "rank kernel echelonize solve dm transpose stack vertical_swap check_cert bitmap".split()


def build_plain(pool, opt="-O3", heap=False):
    """The library and the tools as a user builds them (libgomp).  Returns future of {tool: exe}.
    heap: with a heap that can be told to run out (drv_plain/toolheap.c)."""
    s, cs, cpps, hs = sources()
    t = os.path.join(REPO, "tools")
    ths = sorted(os.path.join(t, f) for f in os.listdir(t) if f.endswith(".h"))
    fl = ["-std=gnu99", opt, "-g", "-fopenmp", "-w", "-I", s, "-I", t]
    jobs = [pool.submit(_cached, "pp", [f], "O1 dnf", ["g++", "-std=gnu++11", "-O1", "-I", s, "-c", f], ".o", hs) for f in cpps]
    jobs += [pool.submit(_cached, "pl", [f], " ".join(fl[:4]), ["gcc"] + fl + ["-c", f], ".o", hs) for f in cs]
    tools = {f[:-2]: os.path.join(t, f) for f in os.listdir(t) if f.endswith(".c")}
    tj = {n: pool.submit(_cached, "to", [f], " ".join(fl[:4]), ["gcc"] + fl + ["-c", f], ".o", hs + ths) for n, f in tools.items()}
    extra = []
    if heap:
        d = os.path.join(VERIF, "drv")
        jobs += [pool.submit(_cached, "th", [f], "heap", ["gcc", "-O1", "-g", "-I", d, "-c", f], ".o", [os.path.join(d, "oom.h")]) for f in (os.path.join(d, "oom.c"), os.path.join(VERIF, "drv_plain", "toolheap.c"))]
        extra = [HEAP]

    def link():
        objs = [j.result() for j in jobs]
        common = tj["common"].result()
        exes = {}
        with ThreadPoolExecutor(8) as p2:
            fs = {}
            for n in tj:
                if n == "common":
                    continue
                o = [tj[n].result(), common] + objs
                fs[n] = p2.submit(_cached, "exe-" + n, o, "link" + "".join(extra), ["g++", "-fopenmp"] + o + extra + LIBS, ".exe")
            for n in fs:
                exes[n] = fs[n].result()
        return exes
    return pool.submit(link)


def build_java():
    src = [os.path.join(VERIF, "spec/java/spasm", f) for f in ("Ops.java", "Overrides.java")]
    key = _hash(src, "java2")
    out = os.path.join(BUILD, "classes-" + key)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        _run(["javac", "-nowarn", "-cp", TLAJAR, "-d", tmp] + src)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out


# ------------------------------------------------------------------------------------------- TLC
SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        os.makedirs(BUILD, exist_ok=True)
        SCRATCH = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        import atexit
        atexit.register(shutil.rmtree, SCRATCH, True)
    return SCRATCH


def tlc(classes, module, cfg=None, workers=1, env=None, timeout=800, heap="1500m", extra=(), jvm=()):
    spec = os.path.join(VERIF, "spec")
    md = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cmd = ["java", "-Xmx" + heap, "-Xss128m", "-XX:TieredStopAtLevel=4"]
    cmd += ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd += list(jvm)
    cmd += ["-cp", "%s:%s:%s" % (TLAJAR, COMM, classes),
            "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:spasm.Overrides", "-Djava.io.tmpdir=" + md,
            "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"
    shutil.rmtree(md, True)
    st = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return {"out": out, "rc": rc, "ok": rc == 0 and "No error has been found" in out,
            "generated": int(st[-1][0]) if st else 0, "distinct": int(st[-1][1]) if st else 0}


def model(classes, module, cfg=None, workers=2, timeout=800, expect_ok=True, heap="4g", extra=()):
    """Check a design-level model; its violation on an unchanged specification is an error of the check."""
    r = tlc(classes, module, cfg, workers, timeout=timeout, heap=heap, extra=extra)
    if r["ok"] != expect_ok:
        raise CheckError("model %s/%s: unexpected TLC outcome (rc=%s)\n%s" % (module, cfg, r["rc"], r["out"][-4000:]))
    log("model %s %s: %d states, %d distinct" % (module, cfg or "", r["generated"], r["distinct"]))
    return r


# ------------------------------------------------------------------------------------------- driver
def run_drv(exe, lines, timeout=20, shards=NCPU):
    """lines: list of (id, 'op tokens').  Returns {id: record}."""
    d = scratch()
    res = {}
    parts = [lines[k::shards] for k in range(shards)]

    def one(k):
        if not parts[k]:
            return
        ci, co = os.path.join(d, "c%d-%d" % (k, time.time_ns())), os.path.join(d, "o%d-%d" % (k, time.time_ns()))
        with open(ci, "w") as f:
            for i, s in parts[k]:
                f.write("%d %s\n" % (i, s))
        w = os.path.join(d, "w%d" % k)
        os.makedirs(w, exist_ok=True)
        r = subprocess.run([exe, ci, co, str(timeout)], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, TMPDIR=w, OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="passive"))
        if r.returncode != 0:
            raise CheckError("driver ended with %d: %s" % (r.returncode, r.stderr[-500:]))
        out = {}
        with open(co, errors="replace") as f:
            for l in f:
                if not l.startswith('{"id":'):
                    continue
                try:
                    o = json.loads(l)
                except ValueError:
                    continue
                out[o["id"]] = o
        os.unlink(ci)
        os.unlink(co)
        return out
    with ThreadPoolExecutor(shards) as p:
        for o in p.map(one, range(shards)):
            if o:
                res.update(o)
    for i, s in lines:
        if i not in res:
            raise CheckError("no result for case %d: %s" % (i, s[:300]))
        if res[i].get("status") == "harness":
            raise CheckError("malformed case %d: %s" % (i, s[:300]))
    return res


# ------------------------------------------------------------------------------------------- replay
def replay(classes, module, records, timeout=800, shards=NCPU, cfg=None):
    """Replay records through the trace specification; returns ({id: clauses}, states)."""
    if not records:
        return {}, 0, 0
    d = scratch()
    shards = max(1, min(shards, (len(records) + 19) // 20))
    order = sorted(records, key=lambda r: -len(json.dumps(r)))
    parts = [order[k::shards] for k in range(shards)]

    def one(part):
        bad, states, gen = {}, 0, 0
        rest = part
        while rest:
            tf = os.path.join(d, "t-%d-%d.ndjson" % (time.time_ns(), id(part) % 100000))
            with open(tf, "w") as f:
                for r in rest:
                    f.write(json.dumps(r, separators=(",", ":")) + "\n")
            t = tlc(classes, module, cfg, 1, env={"TRACE": tf}, timeout=timeout)
            os.unlink(tf)
            states += t["distinct"]
            gen += t["generated"]
            for m in re.finditer(r'"REJECT (\d+) (.*?)"\s*$', t["out"], re.M):
                bad[int(m.group(1))] = sorted(re.findall(r'[A-Za-z][\w.-]*', m.group(2).replace('\\"', '"')))
            if t["ok"]:
                return bad, states, gen
            # evaluation error: the record being evaluated is the one at position l of the last state
            ls = re.findall(r"^(?:/\\ )?l = (\d+)", t["out"], re.M)
            if not ls or t["rc"] == "timeout":
                raise CheckError("TLC failed on %s (rc=%s)\n%s" % (module, t["rc"], t["out"][-3000:]))
            k = int(ls[-1])
            if k > len(rest):
                raise CheckError("TLC failed on %s\n%s" % (module, t["out"][-3000:]))
            r = rest[k - 1]
            msg = re.findall(r"Error: (.*)", t["out"])
            if "StackOverflow" in t["out"] or "OutOfMemory" in t["out"]:
                raise CheckError("TLC ran out of memory on %s, record %s\n%s" % (module, r["id"], t["out"][-2000:]))
            if len(rest) == 1:
                # repeated in isolation: the recorded output is outside the specification's domain
                bad[r["id"]] = ["unevaluable: " + " ".join(msg)[:300]]
                return bad, states, gen
            b1, s1, g1 = one([r])
            bad.update(b1)
            states += s1
            rest = rest[k:]
        return bad, states, gen
    bad, st, gen = {}, 0, 0
    with ThreadPoolExecutor(shards) as p:
        for b, s, g in p.map(one, parts):
            bad.update(b)
            st += s
            gen += g
    return bad, st, gen


# ------------------------------------------------------------------------------------------- reporting
def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def casekey(s):
    return hashlib.sha256(s.encode()).hexdigest()[:16]


class Check:
    """One property: cases (id, tokens, input record), a trace module, optional design models."""

    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.cases = []          # dict(tok, rec, nt)
        self.records = []        # records produced elsewhere (tools, recorded traces)
        self.models = []
        self.cov = {}
        self.viol = []
        self.states = self.trans = 0
        self.rules = []
        self.nreplayed = 0

    def add(self, tok, rec, nt=True, module=None, exe="det", rest=None):
        """exe: det = deterministic runtime, plain = ordinary build; rest: the module that judges a run which ends normally"""
        self.cases.append({"tok": tok, "rec": rec, "nt": nt, "module": module or self.pid, "exe": exe, "rest": rest})

    def drive(self, ks, timeout):
        res = {}
        for e in ("det", "plain"):
            lines = [(k, self.cases[k]["tok"]) for k in ks if self.cases[k]["exe"] == e]
            if lines:
                res.update(run_drv((self.exe if e == "det" else self.pexe).result(), lines, timeout))
        return res

    def by_module(self, ks, res):
        """the records of these cases, by the module that judges them"""
        mods = {}
        for k in ks:
            c, ok = self.cases[k], res[k]["status"] == "ok"
            mods.setdefault(c["rest"] if c["rest"] and ok else c["module"], []).append({"id": k, "s": res[k].get("status"), "a": c["rec"], "o": {x: v for x, v in res[k].items() if x not in ("id", "status")}})
        return mods

    def run_cases(self, classes, timeout=20):
        log("%s: %d cases" % (self.pid, len(self.cases)))
        res = self.drive(range(len(self.cases)), timeout)
        log("driver done")
        st = {}
        for o in res.values():
            st[o["status"]] = st.get(o["status"], 0) + 1
        self.cov["driver_status"] = st
        mk = [(int(self.cases[k]["tok"].split()[1]), len(res[k]["outs"])) for k in res if "outs" in res[k]]
        if mk:
            self.cov["scheduled_runs"] = sum(a for a, b in mk)
            self.cov["distinct_outcomes_judged"] = sum(b for a, b in mk)
            self.cov["cases_with_several_outcomes"] = sum(b > 1 for a, b in mk)
        mods = self.by_module(range(len(self.cases)), res)
        self.results = res
        bad = {}
        for m in sorted(mods):
            b, s, g = replay(classes, m, mods[m])
            bad.update({k: (m, v) for k, v in b.items()})
            self.states += s
            self.trans += g
            self.nreplayed += len(mods[m])
        log("replay done: %d rejected" % len(bad))
        if bad:
            log(*["%s %s %s" % (self.cases[k]["exe"], bad[k], self.cases[k]["tok"][:160]) for k in sorted(bad)[:3]])
            # only what repeats counts
            ks = sorted(bad)[:40]
            res2 = self.drive(ks, timeout)
            for m, recs in sorted(self.by_module(ks, res2).items()):
                b2, _, _ = replay(classes, m, recs)
                for k in b2:
                    self.violation(self.cases[k]["tok"], b2[k], {"module": m, "record": [r for r in recs if r["id"] == k][0]})
            if not self.viol:
                # a wrong answer recorded from the real code is a wrong answer even if it does not come back on
                # its own: it may need what the process computed before, or (ordinary build, real threads) a
                # schedule.  Only an abnormal end may be the machine's load.
                hist = []
                if any(self.cases[k]["exe"] != "plain" for k in ks):
                    log("again, with the same history")
                    res3 = self.drive(range(len(self.cases)), timeout)
                    for m, recs in sorted(self.by_module(ks, res3).items()):
                        hist += list(replay(classes, m, recs)[0])
                for k in ks:
                    if k in hist or bad[k][1] != ["status"] or res[k].get("status") in ("mem", "abort"):
                        self.violation(self.cases[k]["tok"], bad[k][1], {"module": bad[k][0], "repeats": "after the %d cases before it" % k if k in hist else False,
                                       "record": {"s": res[k].get("status"), "a": self.cases[k]["rec"], "o": res[k]}})
            if not self.viol:
                self.cov["not_repeated"] = len(bad)
        return bad

    def run_records(self, classes, module, records, redo=None):
        """records: list of dict with id,s,a,o and 'key' (reproduction string, not sent to TLC)."""
        b, s, g = replay(classes, module, [{k: v for k, v in r.items() if k != "key"} for r in records])
        self.states += s
        self.trans += g
        self.nreplayed += len(records)
        byid = {r["id"]: r for r in records}
        for k in sorted(b)[:40]:
            r = byid[k]
            if redo:
                r2 = redo(r)
                b2, _, _ = replay(classes, module, [{x: v for x, v in r2.items() if x != "key"}])
                if not b2:
                    continue
                self.violation(r["key"], b2[k], {"module": module, "record": r2})
            else:
                b2, _, _ = replay(classes, module, [{x: v for x, v in r.items() if x != "key"}])
                if b2:
                    self.violation(r["key"], b2[k], {"module": module, "record": r})
        if b and not self.viol:
            for k in sorted(b)[:40]:
                if b[k] != ["status"] and byid[k]["o"].get("code", 0) in (0, 1):
                    self.violation(byid[k]["key"], b[k], {"module": module, "record": byid[k], "repeats": False})
        if b and not self.viol:
            self.cov["not_repeated"] = len(b)
        return b

    def violation(self, key, clauses, detail):
        for pid, ck, what in known_findings():
            if pid == self.pid and ck == casekey(key):
                print("KNOWN-FINDING: property=%s %s" % (pid, what), flush=True)
                return
        self.viol.append((key, clauses, detail))

    def add_model(self, r, name):
        self.states += r["distinct"]
        self.trans += r["generated"]
        self.models.append({"model": name, "states": r["distinct"], "transitions": r["generated"]})

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level}
        n = len(self.cases) + len(self.records)
        toks = [c["tok"] for c in self.cases if c["nt"]] + [r["key"] for r in self.records if r.get("nt", True)]
        smp = []
        step = max(1, len(self.cases) // 3)
        for k in range(0, len(self.cases), step):
            smp.append({"case": self.cases[k]["tok"][:600], "result": json.dumps(self.results[k])[:600] if hasattr(self, "results") else ""})
        for r in self.records[:: max(1, len(self.records) // 3)][:3]:
            smp.append({"case": r["key"][:600], "result": json.dumps(r["o"])[:600]})
        cov = {"evaluations": n, "distinct_nontrivial": len(set(toks)), "rule": "; ".join(self.rules), "samples": smp[:6],
               "states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.nreplayed, "models": self.models}
        cov.update(self.cov)
        ev["coverage"] = cov
        ev["assumptions"] = ["TLC, the Java evaluation of the (J) operators (cross-checked by OverrideCheck.tla), gcc, the deterministic OpenMP runtime drv/detrt.c"]
        ev["wall_s"] = round(time.time() - T0, 2)
        ev["violations"] = len(self.viol)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.viol:
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            for k, (key, clauses, detail) in enumerate(self.viol[:5]):
                p = os.path.join(rd, "%s-%d.json" % (self.pid, k))
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "case": key, "casekey": casekey(key), "failing_clauses": clauses, "detail": detail}, f, indent=1)
                print("  failing clauses: %s" % (clauses,))
                print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            log("%d violations" % len(self.viol))
            return 1
        log("held: %d cases, %d states" % (n, self.states))
        return 0
