#!/usr/bin/env python3
"""seed.py [-c|-C CHECK] ID...: confirm planted bugs in scratch copies of /repo: applies, builds, passes the stable
tests, demo fails with it (and passes without); with -c also runs the property's check on the copy (VERIF_REPO)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = "/tmp/seedscratch"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def scratch(d, patch=None):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("cp -a /repo/. %s/ && rm -rf %s/_build" % (d, d))
    if patch:
        r = sh("git apply %s" % patch, cwd=d)
        if r.returncode:
            return "does not apply: " + r.stdout
    for f in ("build.sh", "test.sh", "results.py"):
        s = open("/opt/vp/" + f).read().replace("/repo", d).replace("here=/opt/vp", "here=%s/.vp" % d)
        os.makedirs(d + "/.vp", exist_ok=True)
        open(d + "/.vp/" + f, "w").write(s)
    sh("cp -a /opt/vp/*.json %s/.vp/" % d)
    r = sh("bash %s/.vp/build.sh" % d)
    return None if r.returncode == 0 else "does not build: " + r.stdout[-1500:]


def one(i, check, tests=True):
    sd = os.path.join(V, "seeded", i)
    d = os.path.join(base, i)
    try:
        e = scratch(d, sd + "/patch.diff")
        if e:
            return i, e
        if tests:
            r = sh("bash %s/.vp/test.sh %s/.vp/out.json" % (d, d))
            o = json.load(open(d + "/.vp/out.json"))
            lost = stable - set(o["passed"])
            if lost:
                return i, "tests fail: %s" % sorted(lost)[:5]
        r = sh("bash %s/demo.sh" % sd, cwd=d, timeout=300)
        if r.returncode == 0:
            return i, "demo passes with the patch: " + r.stdout[-500:]
        msg = "ok (demo: %s)" % r.stdout.strip()[-150:]
        if check:
            p = json.load(open(sd + "/meta.json"))["property"] if check is True else check
            r = sh("python3 %s/bin/check.py %s" % (V, p), env=dict(os.environ, VERIF_REPO=d))
            msg += "\n   check %s: rc=%d %s" % (p, r.returncode, " | ".join(l for l in r.stdout.splitlines() if "failing" in l or "ERROR" in l)[:300])
        return i, msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    check = False
    tests = True
    while a and a[0][0] == "-":
        if a[0] == "-c":
            check = True
        elif a[0] == "-n":
            tests = False
        elif a[0] == "-C":
            check = a[1]
            a = a[1:]
        a = a[1:]
    ids = a or sorted(os.listdir(V + "/seeded"))
    d0 = base + "/clean"
    if not os.path.exists(d0 + "/_build") or sh("git -C /repo rev-parse HEAD").stdout != sh("git -C %s rev-parse HEAD" % d0).stdout:
        print(scratch(d0) or "clean copy built")
    for i in ids:
        r = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=d0, timeout=300)
        if r.returncode:
            print(i, "DEMO FAILS ON THE UNCHANGED TREE:", r.stdout[-600:])
    with ThreadPoolExecutor(1 if check else 3) as p:
        for i, m in p.map(lambda i: one(i, check, tests), ids):
            print(i, m, flush=True)
