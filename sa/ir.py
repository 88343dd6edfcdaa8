"""The compiler's intermediate representation of the crate, as dumped by the driver."""
import gzip
import json


class Crate:
    def __init__(self, path):
        with (gzip.open(path, "rt") if path.endswith(".gz") else open(path)) as f:
            d = json.load(f)
        self.types = d["types"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.statics = d["statics"]
        self.fns = d["fns"]
        self.grammar = d.get("grammar")
        self.by_upath = {}
        self.by_path = {}
        for f in self.fns:
            self.by_upath[f["upath"]] = f
            self.by_path.setdefault(f["path"], f)
        self.index()
        self._cfg = {}

    def index(self):
        # user (not derived) trait implementations by trait, method and implementing type
        self.user_impls = {}
        self.derived_impls = {}
        for f in self.fns:
            if f.get("trait") and f.get("self") is not None:
                k = (f["trait"], f.get("name"), self.head(f["self"]))
                (self.derived_impls if f["derived"] else self.user_impls)[k] = f

    def head(self, ty):
        """The defining path of a type, through references."""
        t = self.types[ty]
        while t["k"] in ("ref",) and t.get("args"):
            t = self.types[t["args"][0]]
        return t.get("def") or t["s"]

    def cfg(self, fn):
        k = fn["upath"]
        c = self._cfg.get(k)
        if c is None:
            c = self._cfg[k] = Cfg(fn)
        return c

    def promoted(self, upath, i):
        f = self.by_upath[upath]
        p = f["promoted"][i]
        p.setdefault("upath", "%s#p%d" % (upath, i))
        p.setdefault("path", "%s#p%d" % (f["path"], i))
        p.setdefault("argc", 0)
        p.setdefault("promoted", [])
        return p


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = [b for _, b in t[2]]
        if t[3] is not None:
            r.append(t[3])
        return r
    if k == "drop":
        return [t[1]]
    if k == "assert":
        return [t[1]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []


class Loop:
    def __init__(self, header):
        self.header = header
        self.body = set()
        self.parent = None
        self.latches = set()


class Level:
    """The acyclic graph of one nesting level: inner loops are single nodes."""
    pass


class Cfg:
    def __init__(self, fn):
        self.fn = fn
        bl = fn["blocks"]
        n = len(bl)
        self.succ = [succs(b["t"]) for b in bl]
        # blocks that reach a return
        self.live = set()
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss:
                pred[s].append(i)
        self.pred = pred
        reach = set()
        work = [0]
        while work:
            b = work.pop()
            if b in reach:
                continue
            reach.add(b)
            work += self.succ[b]
        self.reach = reach
        work = [i for i in reach if bl[i]["t"][0] == "ret"]
        while work:
            b = work.pop()
            if b in self.live:
                continue
            self.live.add(b)
            work += [p for p in pred[b] if p in reach]
        self._order()
        self._loops()
        self._liveness()
        self._levels = {}

    def _order(self):
        seen = set()
        order = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = order
        self.idx = {b: i for i, b in enumerate(order)}

    def _loops(self):
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom and p in self.idx]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while self.idx[a] > self.idx[c]:
                            a = idom[a]
                        while self.idx[c] > self.idx[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    changed = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.idx[s] <= self.idx[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    l = loops.setdefault(s, Loop(s))
                    l.latches.add(b)
                    l.body.add(s)
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in l.body:
                            continue
                        l.body.add(x)
                        work += [p for p in self.pred[x] if p in self.reach]
        self.loops = loops
        for h, l in loops.items():
            best = None
            for h2, l2 in loops.items():
                if h2 != h and h in l2.body and (best is None or len(l2.body) < len(best.body)):
                    best = l2
            l.parent = best
        self.inner = {}
        for b in self.reach:
            best = None
            for l in loops.values():
                if b in l.body and (best is None or len(l.body) < len(best.body)):
                    best = l
            self.inner[b] = best

    def level(self, loop):
        k = loop.header if loop else None
        lv = self._levels.get(k)
        if lv is None:
            lv = self._levels[k] = self._make_level(loop)
        return lv

    def _make_level(self, loop):
        lv = Level()
        lv.loop = loop
        lv.header = loop.header if loop else 0
        nodes = set()
        lv.compound = {}
        for b in (loop.body if loop else self.reach):
            l = self.inner[b]
            if l is loop:
                nodes.add(b)
            elif l is not None and l.parent is loop and l.header == b:
                nodes.add(b)
                lv.compound[b] = l
        lv.nodes = nodes
        succ = {}
        for b in nodes:
            if b in lv.compound:
                l = lv.compound[b]
                ss = []
                for x in sorted(l.body, key=lambda x: self.idx[x]):
                    for s in self.succ[x]:
                        if s not in l.body and s not in ss:
                            ss.append(s)
            else:
                ss = []
                for s in self.succ[b]:
                    if s not in ss:
                        ss.append(s)
            succ[b] = ss
        lv.succ = succ
        # topological order within the level
        seen = set()
        order = []

        def dfs(b):
            seen.add(b)
            for s in succ[b]:
                if s in nodes and s not in seen and not (loop and s == loop.header):
                    dfs(s)
            order.append(b)
        dfs(lv.header)
        order.reverse()
        lv.idx = {b: i for i, b in enumerate(order)}
        # post-dominators; END is None
        END = -1
        ip = {}
        depth = {END: 0}

        def targets(b):
            r = []
            t = self.fn["blocks"][b]["t"] if b not in lv.compound else None
            if t is not None and t[0] == "ret":
                return [END]
            for s in succ[b]:
                if s not in self.live:
                    continue
                if s in nodes and not (loop and s == loop.header):
                    if s in lv.idx:
                        r.append(s)
                elif loop and s == loop.header:
                    r.append(("L",))
                else:
                    r.append(("X", s))
            return r
        pd = {}
        for b in reversed(order):
            ts = targets(b)
            chains = []
            for t in ts:
                if t == END or isinstance(t, tuple):
                    chains.append([t if isinstance(t, tuple) else END])
                else:
                    chains.append([t] + pd[t])
            if not chains:
                pd[b] = []
                continue
            com = chains[0]
            for c in chains[1:]:
                sc = set(c)
                com = [x for x in com if x in sc]
            pd[b] = com
        lv.ipdom = {}
        for b in order:
            lv.ipdom[b] = next((x for x in pd[b]), None)
        return lv

    # ---- liveness of locals
    def _liveness(self):
        bl = self.fn["blocks"]
        use = {}
        for i in self.reach:
            gen, kill = set(), set()

            def u(l):
                if l not in kill:
                    gen.add(l)

            def place_use(p):
                u(p[0])
                for e in p[1]:
                    if isinstance(e, dict) and "idx" in e:
                        u(e["idx"])

            def oper(o):
                if "c" in o:
                    place_use(o["c"])
                elif "m" in o:
                    place_use(o["m"])

            def dest(p):
                if p[1]:
                    place_use(p)
                else:
                    kill.add(p[0])
            for s in bl[i]["s"]:
                rv_uses(s[1], oper, place_use)
                dest(s[0])
            t = bl[i]["t"]
            if t[0] == "switch":
                oper(t[1])
            elif t[0] == "assert":
                oper(t[2])
            elif t[0] == "call":
                if isinstance(t[1], dict):
                    oper(t[1])
                for a in t[2]:
                    oper(a)
                if t[3] is not None:
                    dest(t[3])
            elif t[0] == "ret":
                u(0)
            use[i] = (gen, kill)
        live = {i: set() for i in self.reach}
        changed = True
        while changed:
            changed = False
            for i in reversed(self.rpo):
                out = set()
                for s in self.succ[i]:
                    out |= live[s]
                g, k = use[i]
                n = g | (out - k)
                if n != live[i]:
                    live[i] = n
                    changed = True
        self.live_in = live


def rv_uses(rv, oper, place):
    k = rv[0]
    if k in ("use", "repeat"):
        oper(rv[1])
    elif k == "ref":
        place(rv[1])
    elif k == "cast":
        oper(rv[1])
    elif k == "bin":
        oper(rv[2])
        oper(rv[3])
    elif k == "un":
        oper(rv[2])
    elif k == "discr":
        place(rv[1])
    elif k == "agg":
        for o in rv[2]:
            oper(o)


def rv_places(rv):
    out = []

    def oper(o):
        if "c" in o:
            out.append(o["c"])
        elif "m" in o:
            out.append(o["m"])
    rv_uses(rv, oper, out.append)
    return out


def refs_of(crate, f):
    """Functions and closures of the crate mentioned in a body."""
    out = []

    def walk(x):
        if isinstance(x, dict):
            for k in ("inst", "closure"):
                v = x.get(k)
                if isinstance(v, str) and v in crate.by_upath:
                    out.append(crate.by_upath[v])
            if "fn" in x and isinstance(x["fn"], str):
                g = crate.by_path.get(x["fn"])
                if g is not None:
                    out.append(g)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if len(x) == 2 and x[0] == "closure" and isinstance(x[1], str) and x[1] in crate.by_upath:
                out.append(crate.by_upath[x[1]])
            for v in x:
                walk(v)
    k = "_refs"
    if k in f:
        return f[k]
    walk(f["blocks"])
    walk(f["promoted"])
    f[k] = out
    return out


def reaches(crate, fn):
    """Whether a function can call itself (not counting functions that it is given)."""
    k = "_reaches"
    if k not in fn:
        seen, work = set(), list(refs_of(crate, fn))
        while work:
            g = work.pop()
            if g["upath"] not in seen:
                seen.add(g["upath"])
                work += refs_of(crate, g)
        fn[k] = fn["upath"] in seen
    return fn[k]


def forwards(crate, fn):
    """The function of the crate that this one does nothing but call, with its own arguments in order."""
    k = "_forwards"
    if k in fn:
        return fn[k]
    fn[k] = None
    val = {i + 1: i + 1 for i in range(fn["argc"])}

    def operand(o):
        pl = o.get("m") or o.get("c") if isinstance(o, dict) else None
        return val.get(pl[0]) if pl and not pl[1] else None
    b, n = 0, 0
    while n < 6:
        bl = fn["blocks"][b]
        for st in bl["s"]:
            dst, rv = st[0], st[1]
            if dst[1]:
                return None
            v = None
            if rv[0] == "ref" and rv[1][1] == ["*"]:
                v = val.get(rv[1][0])
            elif rv[0] == "use":
                v = operand(rv[1])
            if v is None:
                return None
            val[dst[0]] = v
        tm = bl["t"]
        if tm[0] == "goto":
            b, n = tm[1], n + 1
            continue
        if tm[0] != "call" or tm[3] != [0, []] or tm[4] is None or [operand(o) for o in tm[2]] != list(range(1, fn["argc"] + 1)):
            return None
        nb = fn["blocks"][tm[4]]
        if nb["s"] or nb["t"][0] != "ret":
            return None
        g = crate.by_upath.get((tm[1].get("k") or {}).get("inst")) if isinstance(tm[1], dict) else None
        if g is not None and g is not fn and g["kind"] != "Closure":
            fn[k] = g
        return fn[k]
    return None
