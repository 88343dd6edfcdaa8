#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property from /repo's current source."""
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

from sa import build, props  # noqa: E402


def engine_hash():
    return build.tree_hash(HERE, ["sa", "spec", "driver/src", "driver/Cargo.toml", "ts_engine", "witness", "check.py", "known_findings.jsonl"])


def analyse(thorough):
    """The whole analysis of the current tree; every property reads its part of it."""
    key = "%s-%s%s" % (build.repo_hash(REPO), engine_hash(), "-t" if thorough else "")
    path = os.path.join(build.CACHE, "analysis-%s.json" % key)
    with build.Lock("analysis"):
        if os.path.exists(path):
            try:
                return json.load(open(path)), True
            except ValueError:
                pass
        dump = build.dump(REPO)
        from sa import rules
        res = rules.full(REPO, dump, thorough)
        os.makedirs(build.CACHE, exist_ok=True)
        with open(path + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(path + ".tmp", path)
        old = sorted((f for f in os.listdir(build.CACHE) if f.startswith("analysis-")), key=lambda f: os.path.getmtime(os.path.join(build.CACHE, f)))
        for f in old[:-8]:
            os.unlink(os.path.join(build.CACHE, f))
        return res, False


def known():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    for line in open(p):
        line = line.strip()
        if line:
            out.append(json.loads(line))
    return out


def run(pid, thorough):
    t0 = time.time()
    prop = [p for p in props.PROPS if p["id"] == pid and p["ready"]]
    if not prop:
        print("unknown property", pid)
        return 2
    prop = prop[0]
    try:
        res, cached = analyse(thorough)
    except build.BuildError as x:
        print("the current tree could not be analysed: it does not build\n" + str(x)[-2500:])
        return 2
    st = res["stats"]
    mine = [f for f in res["findings"] if pid in f["props"]]
    kf = [k for k in known() if k["status"] == "known" and k["property"] == pid]
    out = []
    for k in kf:
        if k["key"] in res["present"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    mine = [f for f in mine if not any(k.get("suppresses") == f["key"] for k in kf)]
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, "%s.report.txt" % pid)
    if mine:
        with open(rep, "w") as g:
            for f in mine:
                g.write("%s:%s: in %s [rule %s]\n    %s\n" % (f.get("file", ""), f.get("line", ""), f["key"], f["rule"], f["what"]))
    elif os.path.exists(rep):
        os.unlink(rep)
    units = [u for u in res["units"] if pid in res["units"][u]]
    lv = {}
    for u in units:
        l = next((l for l, us in st["levels"].items() if u in us), "differs" if u in st["differs"] else "folded into its callers")
        lv.setdefault(l, []).append(u)
    rl = {r: v for r, v in res["rules"].items() if pid in v["props"]}
    names = {"text": "body and everything folded into it identical to the reviewed one", "A": "summary equal with every other function opaque",
             "B": "summary equal with helpers folded in", "C": "summary equal with everything folded in", "X": "summary equal with panics made explicit"}
    cov = {
        "explanation": ("Static analysis of the source of the current tree. " + (
            "%d functions carry this property; the compiler's intermediate representation of each was reduced to a canonical summary (result, effects through "
            "mutable references, panic condition) and compared with the summary reviewed against the statement. " % len(units) if units else "")
            + ("Rules applied: " + "; ".join("%s (%s)" % (r, props.RULES[r]) for r in rl) if rl else "")),
        "functions_of_property": len(units),
        "functions_in_crate": st["present"],
        "decided": {names.get(k, k): len(v) for k, v in sorted(lv.items())},
        "functions": {k: sorted(v) for k, v in sorted(lv.items())},
        "inconclusive": [i for i in st["inconclusive"] if pid in i["props"]],
        "rules": {r: dict(v["coverage"], **({"instances": v["units"].get(pid)} if v.get("units") else {})) for r, v in rl.items()},
        "samples": sorted(units)[:5] or [x for v in rl.values() for x in (v.get("units") or {}).get(pid, [])][:5],
        "reused_analysis_of_same_tree": cached,
        "notes": [n[:300] for n in res["notes"]][:20],
    }
    e = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
         "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(mine),
         "assumptions": ["the summaries in spec/ were reviewed against the statement", "the model of the standard library in sa/lib.py",
                         "regex_syntax, bumpalo, indexmap, heck and lalrpop-util behave as documented"]}
    with open(os.path.join(ev, "%s.json" % pid), "w") as g:
        json.dump(e, g, indent=1)
    for f in mine:
        print("%s:%s: %s: %s" % (f.get("file", ""), f.get("line", ""), f["key"], f["what"][:600]))
    for i in cov["inconclusive"]:
        print("not decided: %s (%s)" % (i["fn"], i["why"][:200]))
    if mine:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("%s: held: %d functions, %s; rules: %s; %.1f s" % (pid, len(units), {k: len(v) for k, v in lv.items()}, ", ".join(rl) or "-", time.time() - t0))
    return 0


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    r = {"rc": 2}

    def go():
        try:
            r["rc"] = run(pid, thorough)
        except Exception:
            traceback.print_exc()
    sys.setrecursionlimit(100000)
    threading.stack_size(1 << 29)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(r["rc"])


if __name__ == "__main__":
    main()
