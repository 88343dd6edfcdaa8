"""From differences to verdicts: which functions no longer compute what their property requires."""
import os
import re
import time

from . import props, compare as cm, term as t

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, "spec", "reference.json.gz")
OPEN = ("ext", "unk", "mut", "call")     # operations about which nothing is known


# operations of the standard library with a meaning of their own: no code without them says the same by another way that is likely
OWN = r"core::ptr::(hash|addr)|.*(RandomState|SystemTime|Instant|env::|thread::)" \
    r"|core::num::<impl \w+>::(rotate_\w+|swap_bytes|reverse_bits|count_\w+|leading_\w+|trailing_\w+|wrapping_mul|wrapping_sh\w|wrapping_neg|pow|isqrt|ilog\w*|next_power_of_two|rem_euclid|abs_diff)" \
    r"|(core|alloc)::str::<impl str>::(replacen?|lines|split_\w*whitespace|to_lowercase|to_uppercase|escape_\w+|trim\w*|encode_utf16|repeat)" \
    r"|core::char::methods::<impl char>::(is_\w+|to_\w+case|escape_\w+|decode_\w+)" \
    r"|core::str::<impl str>::(r?split\w*|lines|trim\w*|escape_\w+|r?matches|r?match_indices)"


def inner(u):
    """The item a function nested in another one belongs to."""
    return u


def where(side, u):
    f = side.units.get(u)
    if f is None:
        return "", 0
    return f["span"][0], f["span"][1]


def new_open(a, b):
    """Operations nothing is known about that only the current tree has."""
    def heads(o):
        out = set()
        for x in o.values():
            for y in t.collect(x, lambda y: y.op in ("ext", "unk")):
                # what is made of the result of such an operation has its meaning
                if y.op == "unk" or not t.contains(y, lambda z: z.op == "ext" and re.match(OWN, str(z.a[0]))):
                    out.add((y.op, str(y.a[0])))
        return out
    # what a function of another library does cannot be what the function computed without it;
    # a function of the standard library may be another way to say the same, but for those below
    return sorted(h for h in heads(b) - heads(a) if not re.match(OWN, h[1]) and re.match(r"<?&?(mut )?(std|core|alloc|\[|str\b|char\b|[iu](8|16|32|64|128|size)\b|bool\b)", h[1]) or h[0] == "unk")


def show_terms(ts, n=4, w=140):
    return "; ".join(re.sub(r"\s+", " ", str(y))[:w] for y in sorted(ts, key=lambda y: (len(str(y)), str(y)))[:n])


def features(d):
    """Of one comparison: per output the sizes and the smallest parts that only one side has."""
    a, b, ea, eb = d
    out = {}
    for k in a:
        if k not in b:
            out[k] = None
        elif a[k] is not b[k]:
            na, nb = cm.nodes(a[k]), cm.nodes(b[k])
            out[k] = {"ref": len(na), "cur": len(nb), "gone": len(na - nb), "new": len(nb - na),
                      "fa": cm.fresh_nodes(b[k], a[k]), "fb": cm.fresh_nodes(a[k], b[k])}
    return out


LEVELS = "ABCX"


def judge(u, d):
    """(verdict, text): is the difference one in what is computed, or only in how far it was understood?"""
    dec = [(lv, x) for lv, x in zip(LEVELS, d) if x is not None]
    if not dec:
        return "inconclusive", "not summarised on one side"
    why = []
    for lv, x in dec:
        no = new_open(x[0], x[1])
        if no:
            why.append("new operation %s" % no[0][1][:80])
    if why:
        return "inconclusive", why[0]
    best = None
    for lv, x in dec:
        f = features(x)
        w = sum(v["gone"] + v["new"] if v else 0 for v in f.values())
        if best is None or w < best[0]:
            best = (w, lv, f)
    w, lv, f = best
    txt = []
    for k, v in f.items():
        if v is None:
            txt.append("%s is no longer produced" % k)
        else:
            txt.append("%s: expected %s -- found %s" % ({"value": "result", "panic": "panics"}.get(k, k), show_terms(v["fa"]), show_terms(v["fb"])))
    return "violation", " | ".join(txt)


def rust(repo, dump, budget=560, shortcut=True):
    t0 = time.time()
    r = cm.Side(REF)
    s = cm.Side(dump)
    from . import structural
    plain = structural.as_derived(s, r)
    if plain:
        for f in plain:
            f["derived"] = True
        s.c.index()
        s = cm.Side(s.c)
    notes = []
    c = cm.Comparison(r, s, props.HEAVY, [], lambda *a: notes.append(" ".join(map(str, a))), shortcut=shortcut, deadline=t0 + budget)
    rel = props.relied(r, c)
    for u, ps in props.relied(s, c).items():
        rel[u] = sorted(set(ps) | set(rel.get(u, ())))
    callers = {}
    for u in s.units:
        for v in c.calls(s, u):
            callers.setdefault(v, set()).add(u)
    findings, incon = [], []
    verdicts = {u: ("inconclusive", "not enough time") if u in c.slow and c.mismatch[u][0] is None else judge(u, c.mismatch[u]) for u in c.mismatch}
    low = sorted(c.lowest)

    def above(u):
        seen, work = set(), [u]
        while work:
            x = work.pop()
            for y in callers.get(x, ()):
                if y in c.mismatch and y not in seen:
                    seen.add(y)
                    if not c.anchored(y):
                        work.append(y)
        return seen
    for u in low:
        if u in props.DEAD:
            continue
        v, txt = verdicts[u]
        up = above(u)
        ps = set(rel.get(u, ()))
        if not c.anchored(u):
            if not up:
                notes.append("%s differs, its callers do not: %s" % (u, txt[:200]))
                continue
            if all(verdicts[y][0] != "violation" for y in up) and v != "violation":
                v = "inconclusive"
            for y in up:
                ps |= set(rel.get(y, ()))
        work, seen = [u], {u}
        while not ps and work:
            # what no property names is part of what uses it
            work = [y for x in work for y in callers.get(x, ()) if y not in seen]
            seen |= set(work)
            for y in work:
                ps |= set(rel.get(y, ()))
        if v != "violation":
            incon.append({"fn": u, "why": txt, "props": sorted(ps)})
            continue
        if any("panic" in features(x) for x in c.mismatch[u] if x is not None):
            ps.add("C25")
        elif u in c.common and v == "violation":
            # when an absent value or an index out of range would stop it
            base = c.common - c.places
            x, y = c.run(r, u, base, 30, True)[0], c.run(s, u, base, 30, True)[0]
            if x and y and x.get("panic") is not y.get("panic"):
                ps.add("C25")
        f, l = where(s, u)
        findings.append({"props": sorted(ps), "key": u, "what": txt, "file": f, "line": l, "rule": "computes"})
    for u, w in sorted(c.narrow.items()):
        ps = set(rel.get(u, ())) | {"C25"}
        if u in props.DEAD:
            continue
        f, l = where(s, u)
        findings.append({"props": sorted(ps), "key": u, "what": "stops on values it used to handle: an absent value or an index out of range now depends on " + ", ".join(w)[:300],
                         "file": f, "line": l, "rule": "computes"})
    stats = {"functions": len(r.units), "present": len(set(r.units) & set(s.units)), "levels": {}, "signature_changed": sorted(c.sigdiff),
             "missing": sorted(c.missing), "new": sorted(u for u in s.units if u not in r.units), "inconclusive": incon,
             "seconds": round(time.time() - t0, 1), "units": rel}
    for u, lv in c.equal.items():
        stats["levels"].setdefault(lv, []).append(u)
    stats["differs"] = sorted(c.mismatch)
    return findings, notes, stats


def extra(repo, dump):
    """The rules that do not compare summaries: (findings, {rule: coverage})."""
    from . import structural, tsx
    fs, cov = [], {}

    def go(name, f):
        try:
            g, c = f()
        except Exception as x:
            # without an answer nothing is reported
            g, c = [], {"props": [p["id"] for p in props.PROPS if name in p["rules"]], "coverage": {"not decided": repr(x)[:300]}}
        fs.extend(g)
        cov[name] = c

    def ts():
        f, st, pr = tsx.run(repo)
        per = {}
        for n, ps in pr.items():
            for p in ps:
                per.setdefault(p, []).append(n)
        return f, {"props": sorted(per), "units": {p: sorted(v) for p, v in per.items()},
                   "coverage": dict({k: v for k, v in st.items() if k != "levels"}, decided={k: len(v) for k, v in st.get("levels", {}).items()})}
    go("ts", ts)
    for name, f in structural.rules(repo, dump):
        go(name, f)
    return fs, cov


def everything(repo, dump):
    f, n, s = rust(repo, dump)
    f2, _ = extra(repo, dump)
    f += f2
    n.append("sigdiff %s missing %s new %s" % (s["signature_changed"], s["missing"], s["new"]))
    for i in s["inconclusive"]:
        n.append("inconclusive %s: %s" % (i["fn"], i["why"]))
    return f, n


def full(repo, dump, thorough=False):
    f, n, s = rust(repo, dump, shortcut=not thorough)
    f2, cov = extra(repo, dump)
    units = s.pop("units")
    return {"findings": f + f2, "notes": n, "stats": s, "units": {u: p for u, p in units.items() if p}, "rules": cov,
            "present": sorted(u for us in s["levels"].values() for u in us)}
