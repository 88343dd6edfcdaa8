"""The notation of grammar files: the productions lalrpop derived and what each one makes of its parts."""
import re

from . import compare as cm, ev, rules as rl, term as t

PROD = re.compile(r"^\s*// (.*) => ActionFn\((\d+)\);\s*$", re.M)


def split(s):
    """The symbols of a right-hand side as lalrpop prints them."""
    out, cur, i, depth = [], "", 0, 0
    while i < len(s):
        c = s[i]
        m = re.match(r'r?(#*)"', s[i:])
        if m and (m.group(1) == "" or c == "r"):
            q = m.group(0)
            raw = c == "r"
            j = i + len(q)
            end = '"' + m.group(1)
            while j < len(s):
                if s[j] == "\\":
                    j += 2
                    continue
                if s.startswith(end, j):
                    break
                j += 1
            cur += s[i:j + len(end)]
            i = j + len(end)
            continue
        if c in "(<[":
            depth += 1
        if c in ")>]":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def lhs_rhs(s):
    """Where the left side ends: the first = outside quotes and brackets."""
    depth = i = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            i = j
        elif c in "(<[":
            depth += 1
        elif c in ")>]":
            depth -= 1
        elif c == "=" and depth == 0:
            return s[:i].strip(), s[i + 1:].strip()
        i += 1
    return s, ""


def extract(text):
    """What the generated parser says about the notation."""
    prods = {}
    for m in PROD.finditer(text):
        l, r = lhs_rhs(m.group(1))
        prods[(l, tuple(split(r)))] = int(m.group(2))
    names = re.search(r"__TERMINAL: &\[&str\] = &\[(.*?)\n\s*\];", text, re.S)
    names = re.findall(r'r###"(.*?)"###', names.group(1)) if names else []
    to_int = re.search(r"fn __token_to_integer.*?match \*__token \{(.*?)\n\s*\}", text, re.S)
    order = re.findall(r"Token\((\d+), _\) if true => Some\((\d+)\)", to_int.group(1)) if to_int else []
    strs = re.search(r"let __strs: &\[\(&str, bool\)\] = &\[(.*?)\n\s*\];", text, re.S)
    strs = re.findall(r"^\s*\((r?#*\".*\"#*), (true|false)\),", strs.group(1), re.M) if strs else []
    return {"productions": [[l, list(r), n] for (l, r), n in sorted(prods.items())], "names": names,
            "matchers": [[a, b == "true"] for a, b in strs], "tokens": [[int(a), int(b)] for a, b in order]}


class Undecided(Exception):
    pass


class Notation:
    def __init__(self, side, core=None):
        g = side.c.grammar
        if not g or not g["productions"]:
            raise Undecided("no generated parser")
        self.side = side
        self.prods = {}
        for l, r, n in g["productions"]:
            self.prods.setdefault(l, []).append((r, n))
        self.starts = sorted(l for l in self.prods if l.startswith("__"))
        self.term = {}
        self.rank = {}
        for ix, i in g["tokens"]:
            self.term[g["names"][i]] = g["matchers"][ix][0]
            self.rank[g["matchers"][ix][0]] = ix
        self.skip = sorted(a for a, b in g["matchers"] if b)
        self.fns = {}
        for f in side.c.fns:
            m = re.match(r"parser::grammar::__action(\d+)$", f["path"])
            if m:
                self.fns[int(m.group(1))] = f
        self.core = core
        self.memo = {}

    def names(self):
        return {l for l in self.prods if re.match(r"[A-Za-z]\w*$", l)}

    def run(self, n, args, opaque):
        """The value of an action function for the values of its parts."""
        f = self.fns[n]
        ops = [x["upath"] for x in self.side.c.fns if x["path"].startswith("parser::support::")] if opaque else []
        e = ev.Ev(self.side.c, ops)
        e.xp = False
        cell = ("R", 0)
        mem = {ev.P: t.FALSE, cell: t.mk("sym", "support")}
        av = [t.mk("ref", cell, ()), t.mk("sym", "input")]
        for i, x in enumerate(args):
            av.append(t.struct("tuple", [t.mk("sym", "from"), x, t.mk("sym", "to")]))
        while len(av) < f["argc"]:
            av.append(t.mk("sym", "here"))
        if len(av) != f["argc"]:
            raise Undecided("action %d takes other arguments" % n)
        v = e.run_fn(f["upath"], av, mem)
        if v is None or mem[ev.P] is not t.FALSE:
            raise Undecided("action %d panics" % n)
        return self.side.final(e, self.side.settle(v, mem), 0)

    def sym(self, s):
        return ("t", self.term[s]) if s in self.term else ("n", s)

    def alts(self, l, opaque, stack=()):
        """{sequence of atoms: value} of a nonterminal, helpers folded in; the parts of the value are s0, s1, ..."""
        k = (l, opaque)
        if k in self.memo:
            return self.memo[k]
        if l in stack:
            raise Undecided("%s is recursive in a way that is no list" % l)
        out = []
        for r, n in self.prods[l]:
            # every symbol: a list of (atoms, value as a function of its atoms' values)
            combos = [((), ())]
            for s in r:
                k2, x = self.sym(s)
                if k2 == "t" or x in self.core:
                    ways = [(((k2, x),), lambda vs: vs[0])]
                else:
                    ways = [(a, f) for a, f in self.expand(x, opaque, stack + (l,))]
                combos = [(c + (w,), d + (len(w[0]),)) for c, d in combos for w in ways]
                if len(combos) > 400:
                    raise Undecided("too many alternatives")
            for ws, ls in combos:
                atoms = tuple(a for w in ws for a in w[0])

                def value(vs, ws=ws, n=n):
                    i, parts = 0, []
                    for a, f in ws:
                        parts.append(f(vs[i:i + len(a)]))
                        i += len(a)
                    return self.run(n, parts, opaque)
                out.append((atoms, value))
        self.memo[k] = out
        return out

    def expand(self, l, opaque, stack):
        lst = self.as_list(l, opaque, stack)
        if lst is not None:
            return lst
        return self.alts(l, opaque, stack)

    def as_list(self, l, opaque, stack):
        """L = X | L X making lists: one atom standing for one or more X."""
        rec = [(r, n) for r, n in self.prods[l] if l in r]
        if not rec:
            return None
        base = [(r, n) for r, n in self.prods[l] if l not in r]
        if any(r[0] != l or l in r[1:] for r, n in rec) or len(rec) != len(base):
            raise Undecided("%s is recursive in a way that is no list" % l)
        items = {}
        for r, n in base:
            for atoms, f in self.inline(r, n, opaque, stack + (l,)):
                v = f(self.syms(len(atoms)))
                if v.op != "seq" or len(v.a[0]) != 1:
                    raise Undecided("%s does not start with a list of one" % l)
                items[atoms] = v
        got = {}
        for r, n in rec:
            for atoms, f in self.inline(r[1:], None, opaque, stack + (l,), head=(n, l)):
                vs = self.syms(len(atoms))
                got[atoms] = f(vs)
        if set(got) != set(items):
            raise Undecided("%s is recursive in a way that is no list" % l)
        L = t.mk("sym", "before")
        desc = []
        for atoms, v in sorted(items.items(), key=str):
            if got[atoms] is not t.concat(L, v):
                raise Undecided("%s does not add to the end: %s" % (l, got[atoms]))
            desc.append((atoms, str(v)))
        return [((("+", tuple(desc)),), lambda vs: vs[0])]

    def syms(self, n):
        return [t.mk("sym", "s%d" % i) for i in range(n)]

    def inline(self, r, n, opaque, stack, head=None):
        combos = [()]
        for s in r:
            k2, x = self.sym(s)
            if k2 == "t" or x in self.core:
                ways = [(((k2, x),), lambda vs: vs[0])]
            else:
                ways = self.expand(x, opaque, stack) if x not in stack else None
                if ways is None:
                    raise Undecided("%s is recursive in a way that is no list" % x)
            combos = [c + (w,) for c in combos for w in ways]
        for ws in combos:
            atoms = tuple(a for w in ws for a in w[0])

            def value(vs, ws=ws):
                i, parts = 0, []
                if head:
                    parts.append(t.mk("sym", "before"))
                for a, f in ws:
                    parts.append(f(vs[i:i + len(a)]))
                    i += len(a)
                return self.run(head[0] if head else n, parts, opaque)
            yield atoms, value

    def kinds(self, r):
        """Which helpers of a right-hand side are lists."""
        for x in r:
            if ("n" == self.sym(x)[0]) and x not in self.core:
                yield "+" if any(x in q for q, _ in self.prods[x]) else "?"

    def table(self, l, opaque, listed=True):
        out = {}
        self.core = self.core - {l}          # a list may be written as a rule that refers to itself
        try:
            lst = self.as_list(l, opaque, ())
        except Undecided:
            if listed:
                raise
            lst = None
        finally:
            self.core = self.core | {l}
        for atoms, f in lst or self.alts(l, opaque):
            out.setdefault(atoms, f(self.syms(len(atoms))))
        return out


def show(atoms):
    return " ".join("(%s)+" % " | ".join(show(a) for a, v in x) if k == "+" else x for k, x in atoms) or "nothing"


def notation(repo, dump, side, ref):
    fs, undecided, per, n = [], [], [], 0
    a, b = Notation(ref), Notation(side)
    core = a.names() & b.names()
    a.core = b.core = core
    loc = ("src/parser/grammar.lalrpop", 0)

    def report(l, what):
        fs.append({"props": ["C15"], "key": "notation " + l, "file": loc[0], "line": loc[1], "rule": "notation", "what": what})
    for l in sorted(core):
        per.append(l)
        # what was no list and now refers to itself cannot be the same
        lr = any(k == "+" for r, _ in a.prods[l] for k in a.kinds(r)) or any(l in r for r, _ in a.prods[l])
        try:
            try:
                x, y = a.table(l, False), b.table(l, False, lr)
            except (ev.Unsupported, ev.Budget, t.TooBig):
                x, y = a.table(l, True), b.table(l, True, lr)
            n += len(x)
            for k in sorted(set(x) - set(y), key=str):
                report(l, "%s is no longer written %s" % (l, show(k)))
            for k in sorted(set(y) - set(x), key=str):
                report(l, "%s may also be written %s" % (l, show(k)))
            diff = [k for k in x if k in y and x[k] is not y[k]]
            if diff:
                xo, yo = a.table(l, True), b.table(l, True, lr)
            for k in sorted(diff, key=str):
                if xo[k] is yo[k]:
                    continue
                if rl.new_open({"v": x[k]}, {"v": y[k]}) and rl.new_open({"v": xo[k]}, {"v": yo[k]}):
                    undecided.append("%s = %s: %s" % (l, show(k), str(y[k])[:160]))
                    continue
                report(l, "%s = %s means %s; expected %s" % (l, show(k), str(yo[k])[:200], str(xo[k])[:200]))
        except (Undecided, ev.Unsupported, ev.Budget, t.TooBig, RecursionError) as e:
            undecided.append("%s: %s" % (l, str(e)[:200]))
    if a.skip != b.skip:
        report("white space", "skipped between symbols: %s; expected %s" % (b.skip, a.skip))
    both = [x for x in a.rank if x in b.rank]
    lit = {x for x in both if re.match(r'"\^\((\\\\?.|[^\\()\[\]])*\)"$', x)}
    flip = [(x, y) for x in both for y in both if x in lit and y not in lit and (a.rank[x] < a.rank[y]) != (b.rank[x] < b.rank[y])]
    if flip:
        report("tokens", "of two readings of equal length another is taken: %s" % "; ".join("%s or %s" % z for z in flip[:4]))
    return fs, {"props": ["C15"], "units": {"C15": ["notation " + l for l in per]}, "coverage": {
        "nonterminals": per, "alternatives": n, "terminals": sorted(b.rank), "not decided": undecided}}
