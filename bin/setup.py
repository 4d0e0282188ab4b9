#!/usr/bin/env python3
"""Builds the Java evaluation of the specification's operators and the drivers (everything is cached
by content; the checks build whatever is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import *
with ThreadPoolExecutor(16) as pool:
    j = pool.submit(build_java)
    d = build_drv(pool)
    p = build_plain(pool)
    q = build_plain_drv(pool)
    print(q.result(), j.result(), d.result(), len(p.result()))
