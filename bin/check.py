#!/usr/bin/env python3
"""check.py <property>: decides one property on the current tree of /repo (exit 0 / 1 + VIOLATION)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
from core import *
import registry


def main():
    pid = sys.argv[1]
    fn, level, opts = registry.CHECKS[pid]
    c = Check(pid, level)
    with ThreadPoolExecutor(16) as pool:
        fj = pool.submit(build_java)
        fd = build_drv(pool) if opts.get("drv", True) else None
        fp = build_plain(pool) if opts.get("tools") else None
        c.htools = build_plain(pool, heap=True) if opts.get("heap") else None
        fq = build_plain_drv(pool) if opts.get("plain") else None
        ms = [(m, pool.submit(lambda m=m: model(fj.result(), *m[:2], **(m[2] if len(m) > 2 else {})))) for m in opts.get("models", ())]
        if THOROUGH:
            ms += [(m, pool.submit(lambda m=m: model(fj.result(), *m[:2], **(m[2] if len(m) > 2 else {})))) for m in opts.get("models_thorough", ())]
        c.classes = fj
        c.exe = fd
        c.tools = fp
        c.pexe = fq
        fn(c)
        if c.cases:
            c.run_cases(fj.result(), opts.get("timeout_thorough" if THOROUGH else "timeout", opts.get("timeout", 20)))
        post = opts.get("post")
        if post:
            post(c)
        for m, f in ms:
            c.add_model(f.result(), "%s/%s" % (m[0], m[1]))
    return c.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
