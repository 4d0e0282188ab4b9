#!/usr/bin/env python3
"""mutate.py gen N SEED OUT | test OUT WORKERS | check OUT [MAX]: systematic mutation of /repo's sources, to look for
changes the stable tests miss, and for those among them that the checks miss.  Scratch copies under /tmp/mut."""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "/tmp/mut"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
MAP = {"sha256": "C19", "spasm_ZZp": "C18", "spasm_certificate": "C07 C06 C02", "spasm_dm": "C13 C22", "spasm_echelonize": "C01 C02 C05", "spasm_ffpack": "C20 C01",
       "spasm_io": "C17 C22", "spasm_kernel": "C03 C09", "spasm_matching": "C12 C13", "spasm_permutation": "C16", "spasm_pivots": "C08 C01", "spasm_prng": "C19",
       "spasm_reach": "C11", "spasm_rref": "C04 C09", "spasm_scatter": "C16 C11", "spasm_scc": "C14", "spasm_schur": "C10 C09 C01", "spasm_solve": "C05 C09", "spasm_spmv": "C16",
       "spasm_submatrix": "C16", "spasm_transpose": "C16", "spasm_triangular": "C11 C05", "spasm_triplet": "C15", "spasm_util": "C16 C15 C20"}


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def muts(line):
    s = line
    code = s.split("/*")[0].split("//")[0]
    st = code.strip()
    if not st or st.startswith(("*", "#include", "assert", "fprintf", "fflush", "printf", "err", "#define", "warn")) or "fprintf" in st or "assert(" in st:
        return
    if st.startswith("#pragma omp"):
        if any(w in st for w in ("atomic", "critical", "flush", "barrier")):
            yield "", "drop pragma"
        return
    def rep(rx, to, what):
        for m in re.finditer(rx, code):
            new = code[:m.start()] + m.expand(to) + code[m.end():]
            yield new, what
    yield from rep(r'(?<![<\-=>])<(?![<=])(?! *[a-z_]+\.h)', '<=', "< to <=")
    yield from rep(r'<=', '<', "<= to <")
    yield from rep(r'(?<![>\-=])>(?![>=])', '>=', "> to >=")
    yield from rep(r'>=', '>', ">= to >")
    yield from rep(r'==', '!=', "== to !=")
    yield from rep(r'!=', '==', "!= to ==")
    yield from rep(r'&&', '||', "and/or")
    yield from rep(r'\|\|', '&&', "or/and")
    yield from rep(r' \+ 1\b', '', "drop +1")
    yield from rep(r' - 1\b', '', "drop -1")
    yield from rep(r'(?<=[\w\])]) \+ (?=[\w(])', ' - ', "+ to -")
    yield from rep(r'(?<=[\w\])]) - (?=[\w(])', ' + ', "- to +")
    yield from rep(r'(?<=[\w\])]) \* (?=[\w(])', ' + ', "* to +")
    yield from rep(r'\b(0|1|2|3|5|7|8|10)\b(?=[;,) ])', lambda m: str(int(m.group(1)) + 1), "const+1") if False else ()
    for m in re.finditer(r'(?<![\w.\[x])(\d{1,5})\b(?![\w.])', code):
        yield code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():], "const+1"
        if int(m.group(1)) > 1:
            yield code[:m.start()] + str(int(m.group(1)) - 1) + code[m.end():], "const-1"
    yield from rep(r'\bi64\b', 'int', "i64 to int")
    yield from rep(r'\bu64\b', 'u32', "u64 to u32")
    yield from rep(r'\(i64\) ?', '', "drop cast")
    yield from rep(r'spasm_min', 'spasm_max', "min/max")
    yield from rep(r'spasm_max', 'spasm_min', "max/min")
    yield from rep(r'\bbreak;', ';', "drop break")
    yield from rep(r'\bcontinue;', ';', "drop continue")
    yield from rep(r'\btrue\b', 'false', "true/false")
    yield from rep(r'\bfalse\b', 'true', "false/true")
    yield from rep(r'if \((.*)\)(?= *[{;]? *$)', r'if (!(\1))', "negate if") if st.startswith("if") else ()
    if re.match(r'^[\w\->\[\]().+ ]+ ?([+\-|&^]?=|<<=|>>=) .*;$', st) and not re.match(r'^(const |int|i64|u8|u32|u64|bool|char|double|void|struct|spasm_ZZp|size_t|unsigned|spasm_datatype)\b', st):
        yield code.replace(st, ";"), "drop assignment"
    if re.match(r'^[\w\->]+\+\+;$|^[\w\->]+--;$', st):
        yield code.replace(st, ";"), "drop increment"
    if re.match(r'^\w+\(.*\);$', st) and not st.startswith(("free", "return")):
        yield code.replace(st, ";"), "drop call"


def gen(n, seed, out):
    L = []
    for d in ("src", "tools"):
        for f in sorted(os.listdir("/repo/" + d)):
            if not f.endswith((".c", ".cpp", ".h")):
                continue
            p = d + "/" + f
            for k, line in enumerate(open("/repo/" + p).read().split("\n")):
                for new, what in muts(line):
                    if new is not None and new != line:
                        L.append({"f": p, "l": k, "old": line, "new": new, "what": what})
    random.Random(seed).shuffle(L)
    print(len(L), "mutants possible")
    json.dump(L[:n], open(out, "w"), indent=0)


def scratch(w):
    d = "%s/%d" % (B, w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("cp -a /repo/. %s/ && rm -rf %s/_build" % (d, d))
    for f in ("build.sh", "test.sh", "results.py"):
        s = open("/opt/vp/" + f).read().replace("/repo", d).replace("here=/opt/vp", "here=%s/.vp" % d)
        os.makedirs(d + "/.vp", exist_ok=True)
        open(d + "/.vp/" + f, "w").write(s)
        open(d + "/.vp/fast-" + f, "w").write(s.replace("ctest --test-dir", "ctest --stop-on-failure --test-dir"))
    sh("cp -a /opt/vp/*.json %s/.vp/" % d)
    r = sh("bash %s/.vp/build.sh" % d)
    assert r.returncode == 0, r.stdout
    return d


def apply(d, m):
    src = open("/repo/" + m["f"]).read().split("\n")
    assert src[m["l"]] == m["old"], m
    src[m["l"]] = m["new"]
    open(d + "/" + m["f"], "w").write("\n".join(src))


def restore(d, m):
    shutil.copyfile("/repo/" + m["f"], d + "/" + m["f"])


def test(out, workers):
    L = json.load(open(out))
    todo = [m for m in L if "t" not in m]
    import threading
    lock = threading.Lock()

    def worker(w):
        d = scratch(w)
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop()
            apply(d, m)
            r = sh("timeout 300 bash %s/.vp/build.sh" % d)
            if r.returncode:
                m["t"] = "build"
            else:
                try:
                    r = sh("timeout 120 bash %s/.vp/fast-test.sh %s/.vp/out.json" % (d, d))
                    o = json.load(open(d + "/.vp/out.json"))
                    if o["failed"] and not stable & set(o["failed"]):
                        r = sh("timeout 120 bash %s/.vp/test.sh %s/.vp/out.json" % (d, d))
                        o = json.load(open(d + "/.vp/out.json"))
                    lost = stable - set(o["passed"])
                    m["t"] = "killed %d" % len(lost) if lost else "survived"
                except Exception as x:
                    m["t"] = "killed (hang)"
            restore(d, m)
            with lock:
                json.dump(L, open(out + ".tmp", "w"), indent=0)
                os.rename(out + ".tmp", out)
    with ThreadPoolExecutor(workers) as p:
        list(p.map(worker, range(workers)))
    from collections import Counter
    print(Counter(m["t"].split()[0] for m in L))


def key(m):
    return "%s:%d:%s" % (m["f"], m["l"], m["new"])


def check(out, mx=10**9):
    """results go to OUT.c, so that testing may go on meanwhile; waits for more until every mutant is tested"""
    d = B + "/c"
    res = json.load(open(out + ".c")) if os.path.exists(out + ".c") else {}
    while True:
        L = json.load(open(out))
        todo = [m for m in L if m.get("t") == "survived" and key(m) not in res]
        if not todo:
            if all("t" in m for m in L):
                return
            time.sleep(20)
            continue
        m = todo[0]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh("cp -a /repo/. %s/" % d)
        apply(d, m)
        base = os.path.basename(m["f"]).rsplit(".", 1)[0]
        m["c"] = ""
        for p in MAP.get(base, "C21" if m["f"].startswith("tools") else "C18 C16 C01").split():
            r = sh("timeout 900 python3 %s/bin/check.py %s" % (V, p), env=dict(os.environ, VERIF_REPO=d))
            m["c"] += "%s:%d " % (p, r.returncode)
            if r.returncode:
                m["why"] = " ".join(l for l in r.stdout.splitlines() if "failing" in l or "rror" in l)[:300]
                break
        print("MISSED" if r.returncode == 0 else "caught" if r.returncode == 1 else "ERROR", m["f"], m["l"] + 1, m["what"], m["c"], "|", m["old"].strip(), "->", m["new"].strip(), "|", m.get("why", "")[:160] if r.returncode != 1 else "", flush=True)
        res[key(m)] = m
        json.dump(res, open(out + ".c", "w"), indent=0)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "gen":
        gen(int(a[1]), int(a[2]), a[3])
    elif a[0] == "test":
        test(a[1], int(a[2]))
    else:
        check(a[1], int(a[2]) if len(a) > 2 else 10**9)
