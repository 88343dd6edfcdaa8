"""Compare what every function of the current tree computes with the reviewed reference."""
import re
import time

from . import term as t, ir, ev

_LT = re.compile(r"'[a-z_][a-z0-9_]*\s*")


def npath(p):
    """A path without lifetimes."""
    p = _LT.sub("", p)
    p = p.replace("::<>", "").replace("<>", "").replace("<, ", "<").replace(", ,", ",")
    return re.sub(r"::<(, ?)*>", "", p)


def is_unit(f):
    return not (f["derived"] or f["kind"] == "Closure" or "parser::grammar::" in f["path"])


class Side:
    def __init__(self, path, ref=None):
        self.c = ir.Crate(path) if isinstance(path, str) else path
        self.units = {}
        self.plain_memo = {}
        for f in self.c.fns:
            if is_unit(f):
                self.units.setdefault(npath(f["path"]), f)
        self.unit_of = {f["upath"]: n for n, f in self.units.items()}

    def sig(self, f):
        ts = [npath(self.c.types[f["locals"][i]]["s"]) for i in range(f["argc"] + 1)]
        return tuple(ts)

    def run(self, name, opaque, limit=20, xp=False, det=False, um=False):
        """{output: term} of a unit, with the named functions opaque."""
        f = self.units[name]
        ops = [self.units[o]["upath"] for o in opaque if o in self.units and o != name]
        e = self.cur_ev = ev.Ev(self.c, ops)
        e.xp = xp is True
        e.fw = xp == "fw"
        e.det = det
        e.um = um
        mem = {ev.P: t.FALSE}
        args = []
        for i in range(f["argc"]):
            ty = self.c.types[f["locals"][i + 1]]
            s = t.mk("sym", "a%d" % i)
            if ty["k"] == "ref" and ty.get("mut"):
                mem[("R", i)] = s
                args.append(t.mk("ref", ("R", i), ()))
            else:
                if ty["s"] == "bool":
                    s = t.batom(s)
                args.append(s)
        t.DEADLINE[0] = time.time() + limit
        try:
            v = e.run_fn(f["upath"], args, mem)
        finally:
            t.DEADLINE[0] = None
        out = {"value": self.settle(v, mem) if v is not None else t.NEVER}
        for k, x in mem.items():
            if k[0] == "R":
                out["argument %d" % k[1]] = self.settle(x, mem)
        out["panic"] = mem[ev.P]
        # references that stay in the result name the caller's cells only
        return {k: self.final(e, x, 0) for k, x in out.items()}, e

    def settle(self, x, mem):
        """References to cells of the function itself stand for what the cells hold."""
        if not x.rf:
            return x

        def go(y):
            if not y.rf:
                return y
            if y.op == "ref":
                if y.a[0][0] == "R":
                    return y
                v = mem.get(y.a[0])
                if v is None:
                    return t.mk("unk", "cell")
                e = self.cur_ev
                return go(e.read_ref(y, mem))
            return t.rebuild(y, go)
        return go(x)

    def final(self, e, x, depth):
        """Closures that stay in a result are replaced by what they compute."""
        if not t.contains(x, lambda y: y.op in ("clo",)):
            return x
        memo = {}

        def go(y):
            if y in memo:
                return memo[y]
            if y.op == "clo":
                r = self.lam(e, y, depth)
            else:
                r = t.rebuild(y, go)
            memo[y] = r
            return r
        return go(x)

    def lam(self, e, y, depth):
        fn = self.c.by_upath.get(y.a[0])
        if fn is None or depth > 4:
            return t.mk("unk", "closure", y.a[0])
        n = fn["argc"] - 1
        mem = {ev.P: t.FALSE}
        ps = []
        for i in range(n):
            p = t.mk("sym", "p%d.%d" % (depth, i))
            ty = self.c.types[fn["locals"][i + 2]]
            if ty["k"] == "ref" and ty.get("mut"):
                mem[("Q", depth, i)] = p
                p = t.mk("ref", ("Q", depth, i), ())
            ps.append(p)
        env = y
        if self.c.types[fn["locals"][1]]["s"].startswith("&mut"):
            mem[("C", depth)] = y
            env = t.mk("ref", ("C", depth), ())
        # what it can reach of its surroundings, in the order it names it
        seen = []

        def cells(z):
            if isinstance(z, tuple):
                for q in z:
                    cells(q)
            elif isinstance(z, t.T) and z.rf:
                if z.op == "ref" and z.a[0] not in seen:
                    seen.append(z.a[0])
                cells(z.a)
        cells(tuple(y.a[1]))
        for i, c in enumerate(seen):
            mem[c] = t.mk("sym", "cell%d" % i)
        before = dict(mem)
        v = e.run_fn(y.a[0], [env] + ps, mem)
        v = t.NEVER if v is None else self.final(e, self.settle(v, mem), depth + 1)
        outs = [self.final(e, self.settle(mem[c], mem), depth + 1) for c in [("Q", depth, i) for i in range(n) if ("Q", depth, i) in before] + seen]
        same_ = [o is before[c] for o, c in zip(outs, [("Q", depth, i) for i in range(n) if ("Q", depth, i) in before] + seen)]
        return t.mk("lam", n, v, tuple(t.UNIT if k else o for o, k in zip(outs, same_)), mem[ev.P])


def returns_place(side, f):
    """The result gives access to the caller's data: the function is always folded in."""
    if f.get("trait") in ("core::iter::traits::iterator::Iterator", "core::iter::traits::double_ended::DoubleEndedIterator"):
        return True
    s = side.c.types[f["locals"][0]]["s"]
    return "&mut" in s or "Entry<" in s or "impl " in s or "Iter" in s


_AT = re.compile(r"@[^\s]*?\.rs:\d+:\d+(: \d+:\d+)?")


def plain(side, f):
    """The body of a function without positions, local names and table numbers; what it mentions."""
    c = side.c
    r = side.plain_memo.get(f["upath"])
    if r is not None:
        return r

    def ty(i):
        return _AT.sub("", c.types[i]["s"]) if isinstance(i, int) else repr(i)
    refs = []

    def fnname(v):
        g = c.by_upath.get(v)
        if g is None:
            return v
        refs.append(g)
        return "local " + g["path"]

    def walk(x):
        if isinstance(x, dict):
            out = []
            for k, v in sorted(x.items()):
                if k in ("sp", "span", "names"):
                    continue
                if k in ("ty", "t") and isinstance(v, int):
                    v = ty(v)
                elif k in ("targs", "locals"):
                    v = [ty(i) for i in v]
                elif k in ("inst", "closure", "upath", "parent", "of") and isinstance(v, str):
                    v = fnname(v)
                else:
                    v = walk(v)
                out.append((k, v))
            return out
        if isinstance(x, list):
            if len(x) == 3 and isinstance(x[0], str) and x[0].endswith(".rs") and isinstance(x[1], int):
                return "-"
            if len(x) == 2 and x[0] == "closure" and isinstance(x[1], str):
                return ["closure", fnname(x[1])]
            if len(x) == 4 and x[0] == "cast":
                return ["cast", walk(x[1]), ty(x[2]), x[3]]
            if len(x) == 5 and x[0] == "switch":
                return ["switch", walk(x[1]), walk(x[2]), x[3], ty(x[4])]
            return [walk(y) for y in x]
        return x
    w = repr([walk({k: v for k, v in f.items() if k in ("argc", "locals", "blocks", "promoted")})])
    refs += ir.refs_of(c, f)
    r = side.plain_memo[f["upath"]] = (w, refs)
    return r


def context(side):
    """What a comparison body by body takes for granted."""
    c = side.c

    def adt(a):
        return (a["enum"], [(v["name"], v["discr"], [(f[0], f[2]) for f in v["fields"]]) for v in a["variants"]])
    loc = sorted((k, adt(a)) for k, a in c.adts.items() if a["local"])
    imp = sorted((i["trait"], npath(c.types[i["self"]]["s"]), i["derived"]) for i in c.impls)
    return repr((loc, imp, c.statics))


def same(a, b):
    if a.keys() != b.keys():
        return False
    if all(a[k] is b[k] for k in a):
        return True
    # results only count where the function returns
    p = a["panic"]
    if p is not b["panic"] or p.op != "case":
        return False
    go = t.NOT(p)

    def live(x):
        x = t.force(x, go)
        return t.collapse(t.ite(go, x, t.UNDEF))
    try:
        return all(a[k] is b[k] or live(a[k]) is live(b[k]) for k in a if k != "panic")
    except (t.TooBig, RecursionError):
        return False


def _parts(ts):
    """The constants, operations and questions terms are made of; (constants, the rest)."""
    nums, rest = set(), set()

    def head(x):
        while x.op in ("ret", "field", "vfield", "at", "get", "mval", "mkey", "val") and isinstance(x.a[0], t.T):
            x = x.a[0]
        return (x.op, str(x.a[0])) if x.op in ("call", "ext", "op") else ("", "")
    for x in nodes(*ts):
        if x.op in ("int", "lin"):
            nums.add(x.a[0])
        elif x.op == "lit":
            rest.add(("lit", x.a[0]))
        elif x.op in ("call", "op"):
            rest.add((x.op, str(x.a[0])))
        elif x.op == "case":
            q = x.a[0]
            if q.op == "discr":
                rest.add(("discr", str(q.a[0])) + head(q.a[1]))
            elif q.op == "val" and q.a[0].op not in ("len", "first", "lin"):
                for o, _ in x.a[1]:
                    rest.add(("val", str(o)) + head(q.a[0]))
                    if isinstance(o, int):
                        nums.add(o)
    return nums, rest


def narrower(ref, cur):
    """What decides in the current tree, and not in the reference, whether something is absent or out of range.
    ref, cur: (with absent values and indices out of range counted as panics, without)"""
    n0, r0 = _parts([x for o in ref for x in o.values()])
    n1, r1 = _parts([cur[0]["panic"]])
    near = set(s * n + d for n in n0 for s in (1, -1) for d in (-1, 0, 1)) | {0, 1, -1}
    return sorted([str(n) for n in n1 - near] + [" ".join(x for x in r if x) for r in r1 - r0])


class Comparison:
    """Which functions compute something else than in the reference."""

    def __init__(self, ref, cur, heavy, roots, log=None, shortcut=True, deadline=None):
        self.deadline = deadline
        self.shortcut = shortcut
        self.ref, self.cur = ref, cur
        self.log = log or (lambda *a: None)
        self.heavy = set(heavy)
        self.roots = set(roots)
        self.cache = {}
        common = [u for u in ref.units if u in cur.units]
        self.sigdiff = set(u for u in common if ref.sig(ref.units[u]) != cur.sig(cur.units[u]))
        self.missing = set(u for u in ref.units if u not in cur.units)
        self.places = set(u for u in common if returns_place(ref, ref.units[u]) or returns_place(cur, cur.units[u]))
        self.common = set(common) - self.sigdiff
        self.failed = {}
        self.diffs = {}
        self.equal = {}
        self.slow = set()       # not decided for want of time
        self.narrow = {}        # computes the same, but no longer for everything
        self.decide()

    def run(self, side, u, opaque, limit=60, xp=False):
        k = (side is self.ref, u, frozenset(opaque), xp)
        r = self.cache.get(k)
        if r is None and self.deadline and time.time() > self.deadline:
            r = self.cache[k] = (None, "out of time")
        if r is None:
            try:
                o, e = side.run(u, opaque, limit, xp)
                r = (o, e)
            except (ev.Unsupported, t.TooBig, ev.Budget) as x:
                r = (None, repr(x)[:100])
            except RecursionError:
                r = (None, "RecursionError")
            except Exception as x:
                r = (None, "internal " + repr(x)[:100])
            self.cache[k] = r
        return r

    def cmp(self, u, opaque, limit=60, xp=False):
        """True / False / None (not decided)"""
        a, ea = self.run(self.ref, u, opaque, limit, xp)
        b, eb = self.run(self.cur, u, opaque, limit, xp)
        if a is None or b is None:
            self.failed[u] = ea if a is None else eb
            if "time" in self.failed[u] and opaque:
                self.slow.add(u)
            return None, None
        return same(a, b), (a, b, ea, eb)

    def deep(self, u, opaque, limit=40):
        """Whether the rules that combine decisions find the two equal."""
        if self.deadline and time.time() > self.deadline:
            return False
        t.deep(True)
        try:
            a, _ = self.ref.run(u, opaque, limit)
            b, _ = self.cur.run(u, opaque, limit)
            return same(a, b)
        except Exception:
            return False
        finally:
            t.deep(False)

    def anchored(self, u):
        """Whether a function can be observed on its own: it can be named from outside, or nothing here calls it."""
        f = self.cur.units[u]
        if f.get("vis") or f.get("trait"):
            return True
        if self._called is None:
            self._called = set()
            for x in self.cur.units:
                self._called |= self.calls(self.cur, x)
        return u not in self._called or u in self.selfcalls(self.cur, u)

    def text(self, side, u):
        """The body of a unit together with everything that is folded into it."""
        by_u = side.unit_of
        seen = set()
        out = []
        work = [side.units[u]]
        while work:
            f = work.pop()
            if f["upath"] in seen:
                continue
            seen.add(f["upath"])
            w, refs = plain(side, f)
            out.append((f["path"], w))
            for g in refs:
                n = by_u.get(g["upath"])
                if n is None or n in self.places:
                    work.append(g)
        return sorted(out)

    def selfcalls(self, side, u):
        """u if it reaches itself"""
        seen, work = set(), list(self.calls(side, u, True))
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += self.calls(side, x, True)
        return {u} & seen

    def calls(self, side, u, own=False):
        """Units called (transitively through closures and non-units) by u."""
        c = self._calls.get((side is self.ref, u, own))
        if c is not None:
            return c
        out = set()
        seen = set()
        by_u = {f["upath"]: n for n, f in side.units.items()}
        work = [side.units[u]]
        s = None
        while work:
            f = work.pop()
            if f["upath"] in seen:
                continue
            seen.add(f["upath"])
            for g in ir.refs_of(side.c, f):
                n = by_u.get(g["upath"])
                if n is not None and (n != u or own):
                    out.add(n)
                elif n is None:
                    work.append(g)
        self._calls[(side is self.ref, u, own)] = out
        return out

    def decide(self):
        self._calls = {}
        self._called = None
        base = self.common - self.places
        M = {}
        plain_ok = self.shortcut and context(self.ref) == context(self.cur)
        for u in sorted(self.common):
            if plain_ok and self.text(self.ref, u) == self.text(self.cur, u):
                self.equal[u] = "text"
                continue
            r, d = self.cmp(u, base)
            if r is True:
                self.equal[u] = "A"
                n, d2 = self.cmp(u, base, 60, True)
                if n is False:
                    w = narrower((d2[0], d[0]), (d2[1], d[1]))
                    if w:
                        self.narrow[u] = w
            else:
                M[u] = d
        M2 = {}
        for u, d in M.items():
            if d is not None:
                r, _ = self.cmp(u, base, 30, True)
                if r is not True:
                    r, _ = self.cmp(u, base, 30, "fw")
                if r is True:
                    self.equal[u] = "X"
                    continue
            hv = (self.heavy & base) - set(M)
            r, d2 = self.cmp(u, hv, 30)
            if r is True:
                self.equal[u] = "B"
                continue
            r3, d3 = self.cmp(u, set(), 15)
            if r3 is not True and d3 is not None:
                r3, _ = self.cmp(u, set(), 15, True)
                if r3 is not True:
                    r3, _ = self.cmp(u, set(), 15, "fw")
            if r3 is True:
                self.equal[u] = "C"
                continue
            if d is not None and self.deep(u, base):
                self.equal[u] = "D"
                continue
            if d is None and d2 is None and d3 is None:
                self.log("undecided", u, self.failed.get(u))
            M2[u] = (d, d2, d3)
        # what differs and is not an entry point of its own is folded into its callers
        changed = set(u for u in M2 if not self.anchored(u)) | self.sigdiff | self.missing
        done = set()
        while True:
            todo = set()
            for u in self.common:
                if u in M2 or (u, frozenset(changed)) in done:
                    continue
                if (self.calls(self.ref, u) | self.calls(self.cur, u)) & changed:
                    todo.add(u)
            todo = [u for u in todo if (u, frozenset(changed)) not in done]
            if not todo:
                break
            progress = False
            for u in sorted(todo):
                done.add((u, frozenset(changed)))
                op = base - changed
                r, d = self.cmp(u, op)
                if r is True:
                    continue
                if d is not None:
                    r, _ = self.cmp(u, op, 30, True)
                    if r is True:
                        continue
                r2, d2 = self.cmp(u, (self.heavy & base) - changed)
                if r2 is True:
                    continue
                r3, d3 = self.cmp(u, set(), 15)
                if r3 is not True and d3 is not None:
                    r3, _ = self.cmp(u, set(), 15, True)
                if r3 is True or d is not None and self.deep(u, op):
                    continue
                M2[u] = (d, d2, d3)
                if not self.anchored(u):
                    changed.add(u)
                    progress = True
            if not progress:
                break
        self.mismatch = M2
        self.changed = changed
        # the lowest differing functions
        self.lowest = set(u for u in M2 if not any(v in M2 and not self.anchored(v) for v in self.calls(self.cur, u)))


def diff(a, b, path=(), out=None, seen=None):
    """The places where two terms part."""
    if out is None:
        out, seen = [], set()
    if a is b or (a, b) in seen:
        return out
    seen.add((a, b))

    def kids(x, y, p):
        if isinstance(x, t.T) and isinstance(y, t.T):
            diff(x, y, p, out, seen)
            return True
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return False
            return all(kids(p1, q1, p + (i,)) for i, (p1, q1) in enumerate(zip(x, y)))
        return x == y
    if a.op != b.op or len(a.a) != len(b.a):
        out.append((path, a, b))
        return out
    n = len(out)
    if a.op == "case" and a.a[0] is not b.a[0] and a.a[0].op != b.a[0].op:
        out.append((path, a, b))
        return out
    for i, (x, y) in enumerate(zip(a.a, b.a)):
        if not kids(x, y, path + ((a.op, i),)):
            del out[n:]
            out.append((path, a, b))
            return out
    return out


def nodes(*ts):
    r = set()
    for x in ts:
        r |= set(t.collect(x, lambda y: True))
    return r


def fresh_nodes(a, b):
    """Nodes of b that are not in a and whose children all are (the smallest new parts)."""
    na = nodes(a)
    out = []
    for y in nodes(b):
        if y in na:
            continue
        ch = []
        t._flat(y.a, ch)
        if all(c in na for c in ch):
            out.append(y)
    return out
