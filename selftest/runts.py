#!/usr/bin/env python3
"""Edited copies of ts/: KEEP has to be quiet, BREAK has to be reported."""
import os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from sa import tsx
m = {}
exec(open(HERE + "/tsedits.py").read(), m)
sys.setrecursionlimit(20000)
ref = tsx.load("/repo")
bad = 0
for kind in ("KEEP", "BREAK"):
    for n, eds in m[kind]:
        if len(sys.argv) > 1 and n not in sys.argv[1:]:
            continue
        w = tempfile.mkdtemp()
        shutil.copytree("/repo/ts", w + "/ts")
        for f, a, b in eds:
            s = open(w + "/" + f).read()
            if a not in s:
                print("does not apply", n, repr(a[:50]))
            open(w + "/" + f, "w").write(s.replace(a, b, 1))
        d = tsx.load(w)
        er = {k: d[k]["errors"] for k in d if d[k]["errors"]}
        o, st = tsx.compare(ref, d)
        c, _ = tsx.chars(d)
        ok = bool(o or c) == (kind == "BREAK")
        bad += not ok
        print("ok   " if ok else "WRONG", kind, n, er or "", st["missing"], st["new"])
        if not ok or "-v" in sys.argv or len(sys.argv) > 1:
            for x in o + c:
                print("      ", x)
        shutil.rmtree(w)
print(bad, "not as expected")
