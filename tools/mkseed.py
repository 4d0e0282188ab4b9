import os, subprocess, json, sys
SH = '''#!/bin/bash
# cwd: the repository, built. Exit 0 iff the property holds on this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'cd /; rm -rf "$d"' EXIT
repo=$PWD
gcc -std=gnu99 -O1 -g -fopenmp -I "$repo/src" -I "$here" "$here/demo.c" -o "$d/demo" -L "$repo/_build/src" -lspasm -Wl,-rpath,"$repo/_build/src" -lm -ldl || exit 3
cd "$d"
%s timeout 250 ./demo 2>err.txt
rc=$?
[ $rc = 0 ] || { echo "demo: exit $rc"; tail -c 300 err.txt; exit 1; }
exit 0
'''
def mk(id, prop, edits, needs, breaks, demo=None, env="OMP_NUM_THREADS=2", sh=None, extra=None):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed_wt"
    if not os.path.exists(w):
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
    subprocess.check_call("git fetch -q && git checkout -q -f origin/HEAD && git reset -q --hard", cwd=w, shell=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=w, text=True)
    open(d + "/patch.diff", "w").write(diff)
    if demo:
        open(d + "/demo.c", "w").write(demo)
    import shutil; shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_common.h"), d + "/demo_common.h") if demo and "demo_common" in demo else None
    for n, c in (extra or {}).items():
        open(d + "/" + n, "w").write(c)
    open(d + "/demo.sh", "w").write(sh or SH % env)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
