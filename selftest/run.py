#!/usr/bin/env python3
"""Runs the analysis on edited copies of the repository: edits that keep the behaviour have to be
quiet, edits that break it have to be reported.   run.py [-j N] [-k PATTERN] [-t]"""
import fcntl
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
SCRATCH = "/tmp/st"


def entries():
    out = []
    for m in sorted(os.listdir(HERE)):
        if re.match(r"(keep|break).*\.py$", m):
            mod = {}
            exec(compile(open(os.path.join(HERE, m)).read(), m, "exec"), mod)
            for e in mod["E"]:
                out.append(("keep" if m.startswith("keep") else "break", e[0], e[1:]))
    return out


HELD = []


def slot():
    """A scratch copy that no other process is using."""
    if HELD:
        return HELD[0][0]
    for n in range(32):
        w = "%s/w%d" % (SCRATCH, n)
        os.makedirs(w, exist_ok=True)
        f = open(w + ".lock", "w")
        try:
            fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            continue
        HELD.append((w, f))
        return w
    raise Exception("no slot")


def worker(args):
    i, e = args
    kind, name, edits = e
    w = slot()
    repo = w + "/repo"
    if not os.path.exists(repo):
        os.makedirs(w, exist_ok=True)
        subprocess.run(["rsync", "-a", "--exclude", "target", "--exclude", ".git", "/repo/", repo + "/"], check=False) \
            if shutil.which("rsync") else subprocess.run("cd /repo && tar cf - --exclude=./target --exclude=./.git . | (mkdir -p %s && cd %s && tar xf -)" % (repo, repo), shell=True, check=True)
    else:
        for d in ("src", "ts"):
            shutil.rmtree(os.path.join(repo, d))
            shutil.copytree(os.path.join("/repo", d), os.path.join(repo, d))
    res = {"kind": kind, "name": name}
    try:
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                raise Exception("edit does not apply: %s %r" % (f, old[:60]))
            open(p, "w").write(s.replace(old, new, 1))
        from sa import build, rules, term
        term.MEMORY[0] = 3700 << 20
        t0 = time.time()
        dump = build.dump(repo, w + "/target", w + "/dump.json")
        t1 = time.time()
        r = {}

        def go():
            try:
                r["f"] = rules.everything(repo, dump)
            except Exception:
                r["e"] = traceback.format_exc()[-1500:]
        sys.setrecursionlimit(100000)
        threading.stack_size(1 << 29)
        th = threading.Thread(target=go)
        th.start()
        th.join()
        res["time"] = [round(t1 - t0, 1), round(time.time() - t1, 1)]
        if "e" in r:
            res["error"] = r["e"]
        else:
            res["findings"], res["notes"] = r["f"]
    except Exception as x:
        res["error"] = str(x)[-1500:]
    return res


def main():
    es = entries()
    jobs = 6
    pat = None
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "-j":
            jobs = int(a.pop(0))
        elif x == "-k":
            pat = a.pop(0)
    if pat:
        es = [e for e in es if re.search(pat, e[0] + ":" + e[1])]
    os.makedirs(SCRATCH, exist_ok=True)
    bad = 0
    with mp.Pool(min(jobs, len(es)), maxtasksperchild=3) as pool, open(SCRATCH + "/results.jsonl", "a") as log:
        for r in pool.imap_unordered(worker, list(enumerate(es))):
            log.write(json.dumps(r) + "\n")
            log.flush()
            fs = r.get("findings", [])
            if "error" in r:
                v = "ERROR"
            elif r["kind"] == "keep":
                v = "ALARM" if fs else "ok"
            else:
                v = "caught" if fs else "MISSED"
            if v in ("ERROR", "ALARM", "MISSED"):
                bad += 1
            print("%-7s %s:%s %s" % (v, r["kind"], r["name"], r.get("time", "")))
            if "error" in r:
                print("    ", r["error"].strip()[-700:])
            if v == "ALARM" or "-v" in sys.argv:
                for f in fs[:6]:
                    print("     ", f["props"], f["key"], "|", f["what"][:300])
            for n in r.get("notes", [])[:8]:
                if v in ("MISSED", "ALARM") or "-v" in sys.argv:
                    print("      note", n[:200])
            sys.stdout.flush()
    print("%d of %d not as expected" % (bad, len(es)))


if __name__ == "__main__":
    main()
