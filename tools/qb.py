"""qb.py BATCH.py [ID...]: quick trial of planted bugs: BATCH.py defines BUGS = [(id, [checks], [(file, old, new), ...])].
Each is built in a scratch copy of /repo, run through the stable tests and, when these pass, through the checks."""
import importlib.util, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("b", sys.argv[1])
b = importlib.util.module_from_spec(spec)
spec.loader.exec_module(b)
only = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


for i, checks, edits in b.BUGS:
    if only and i not in only:
        continue
    d = "/tmp/qb_" + i
    sh("rm -rf %s; mkdir %s; cp -a /repo/. %s/; rm -rf %s/_build; cd %s && git checkout -q -- ." % (d, d, d, d, d))
    ok = True
    for f, o, n in edits:
        s = open(d + "/" + f).read()
        if s.count(o) != 1:
            print(i, "EDIT MATCHES", s.count(o), repr(o)); ok = False; break
        open(d + "/" + f, "w").write(s.replace(o, n))
    if ok:
        os.makedirs(d + "/.vp")
        for f in ("build.sh", "test.sh", "results.py"):
            s = open("/opt/vp/" + f).read().replace("/repo", d).replace("here=/opt/vp", "here=%s/.vp" % d)
            open(d + "/.vp/" + f, "w").write(s)
        sh("cp -a /opt/vp/*.json %s/.vp/" % d)
        r = sh("bash %s/.vp/build.sh" % d)
        if r.returncode:
            print(i, "BUILD", r.stdout[-600:]); ok = False
    if ok:
        sh("bash %s/.vp/test.sh %s/.vp/out.json" % (d, d))
        lost = stable - set(json.load(open(d + "/.vp/out.json"))["passed"])
        if lost:
            print(i, "TESTS lost %d: %s" % (len(lost), sorted(lost)[:3])); ok = False
    if ok:
        for c in checks:
            r = sh("python3 %s/bin/check.py %s" % (V, c), env=dict(os.environ, VERIF_REPO=d))
            t = [l for l in r.stdout.splitlines() if "failing" in l or "VIOLATION" in l or "ERROR" in l]
            print(i, c, "rc", r.returncode, "|".join(t)[:220]); sys.stdout.flush()
    sh("rm -rf %s" % d)
    sys.stdout.flush()
