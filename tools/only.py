#!/usr/bin/env python3
"""only.py <property> FROM TO: the cases FROM..TO of a check, without models (development)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, registry
from core import *
pid, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if sys.argv[3] != "end" else None
fn, level, opts = registry.CHECKS[pid]
c = Check(pid, level)
with ThreadPoolExecutor(16) as pool:
    fj, fd = pool.submit(build_java), build_drv(pool)
    c.classes, c.exe, c.pexe = fj, fd, build_plain_drv(pool) if opts.get("plain") else None
    c.tools = build_plain(pool) if opts.get("tools") else None
    fn(c)
    print("%d cases" % len(c.cases))
    c.cases = c.cases[a:b]
    c.run_cases(fj.result(), opts.get("timeout", 20))
