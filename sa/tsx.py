"""The type-level runtime in ts/: every conditional type is reduced to a canonical decision diagram over
tests of its parameters and compared with the one reviewed against the statement."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ("lex", "parse", "util", "chars")
KEEP = {("util", "Succ"), ("util", "Pred")}
PRIM = {"number": "num", "string": "str", "boolean": "bool", "undefined": "undef", "never": None}
LIMIT = 60000


class Big(Exception):
    pass


def load(repo):
    fs = [os.path.join(repo, "ts", f + ".ts") for f in FILES]
    r = subprocess.run(["node", os.path.join(HERE, "ts_engine", "dump.js")] + [f for f in fs if os.path.exists(f)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise Exception("ts dump: " + r.stderr[-500:])
    return json.loads(r.stdout)


TRUE, FALSE = ("true",), ("false",)


class Side:
    """One version of the runtime."""

    def __init__(self, d):
        self.d = d
        self.al = {(m, n): a for m in d for n, a in d[m]["aliases"].items()}
        self.kinds = {k: frozenset() for k in self.al}
        # properties every declared object type that has them declares as a required boolean
        decl = {}
        for a in self.al.values():
            if not a["params"] and a["type"][0] == "obj":
                for x in a["type"][1]:
                    decl.setdefault(x[0], []).append(x)
        self.flags = {n for n, xs in decl.items() if all(not x[1] and tuple(x[2]) == ("kw", "boolean") for x in xs)}
        self.uses = {k: self._uses(k) for k in self.al}
        self.rec = self._recursive()
        self.dead = {}

    # ------------------------------------------------------------ names
    def resolve(self, m, name):
        """(module, alias) | ("", text) for what is defined elsewhere"""
        imp = self.d[m]["imports"]
        parts = name.split(".")
        if (m, name) in self.al:
            return (m, name)
        if parts[0] in imp:
            src, what = imp[parts[0]]
            f = os.path.basename(src)
            if what == "*" and len(parts) > 1:
                if (f, parts[1]) in self.al:
                    return (f, parts[1])
                return ("", ".".join([f] + parts[1:]))
            if (f, what) in self.al:
                return (f, what)
            return ("", ".".join([what] + parts[1:]))
        return ("", name)

    def _uses(self, k):
        m, out, ps = k[0], set(), {p[0] for p in self.al[k]["params"]}

        def walk(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == "ref" and isinstance(x[1], str) and x[1] not in ps:
                    r = self.resolve(m, x[1])
                    if r in self.al:
                        out.add(r)
                for y in x:
                    walk(y)
        walk(self.al[k]["type"])
        return out

    def _recursive(self):
        """The aliases that reach themselves."""
        out = set()
        for k in self.al:
            seen, work = set(), list(self.uses[k])
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                work += list(self.uses[x])
            if k in seen:
                out.add(k)
        return out

    def heads(self, prefer):
        """A set of aliases that cuts every cycle, with those in prefer first."""
        cut = set()

        def cyc(k, cut):
            seen, work = set(), [x for x in self.uses[k] if x not in cut]
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x == k:
                    return True
                work += [y for y in self.uses[x] if y not in cut]
            return False
        for k in sorted(self.rec, key=lambda k: (k not in self.uses[k], k not in prefer, self.al[k]["line"], k)):
            if k in self.uses[k]:
                cut.add(k)
        for k in sorted(self.rec, key=lambda k: (k not in prefer, -sum(k in self.uses[x] for x in self.rec), k)):
            if k not in cut and cyc(k, cut):
                cut.add(k)
        return cut


# ---------------------------------------------------------------- terms
_key = {}


def key(a):
    k = _key.get(a)
    if k is None:
        k = _key[a] = (len(repr(a)), repr(a))
    return k


class Ev:
    def __init__(self, side, opaque, names):
        self.s = side
        self.opaque = opaque          # aliases kept as calls
        self.names = names            # canonical name of an opaque alias, and the order of its parameters
        self.memo = {}
        self.n = 0

    # -------------------------------------------------------- decision diagrams
    def ite(self, c, a, b):
        """c: a boolean diagram"""
        if c == TRUE or a == b:
            return a
        if c == FALSE:
            return b
        k = (c, a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.n += 1
        if self.n > LIMIT:
            raise Big()
        m = min((x[1] for x in (c, a, b) if x[0] == "ite"), key=key)
        hi = self.ite(self.res(c, m, True), self.res(a, m, True), self.res(b, m, True))
        lo = self.ite(self.res(c, m, False), self.res(a, m, False), self.res(b, m, False))
        r = hi if hi == lo else ("ite", m, hi, lo)
        self.memo[k] = r
        return r

    def res(self, x, atom, val):
        """x where the test atom has this result"""
        k = (x, atom, val, "res")
        r = self.memo.get(k)
        if r is not None:
            return r
        if x[0] != "ite":
            r = x
            if val and atom[0] == "test" and atom[2][0] in ("num", "str") and atom[1][0] not in ("num", "str") and x not in (TRUE, FALSE):
                r = self.replace(x, atom[1], atom[2])
        else:
            v = implied(atom, val, x[1])
            if v is not None:
                r = self.res(x[2] if v else x[3], atom, val)
            else:
                hi, lo = self.res(x[2], atom, val), self.res(x[3], atom, val)
                a2 = x[1]
                if val and atom[0] == "test" and atom[2][0] in ("num", "str") and a2[0] == "test":
                    a2 = ("test", self.replace(a2[1], atom[1], atom[2]), self.replace(a2[2], atom[1], atom[2]))
                if a2 != x[1]:
                    r = self.ite(self.test(a2[1], a2[2]), hi, lo)
                else:
                    r = hi if hi == lo else ("ite", x[1], hi, lo)
        self.memo[k] = r
        return r

    def replace(self, x, old, new):
        if x == old:
            return new
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == "idx" and len(x) == 3 and isinstance(x[1], tuple):
            return self.idx(self.replace(x[1], old, new), self.replace(x[2], old, new))
        return tuple(self.replace(y, old, new) for y in x)

    def lift(self, xs, f):
        """f over the undecided leaves of several diagrams"""
        for i, x in enumerate(xs):
            if x[0] == "ite":
                hi = self.lift([self.res(y, x[1], True) for y in xs], f)
                lo = self.lift([self.res(y, x[1], False) for y in xs], f)
                return self.ite(("ite", x[1], TRUE, FALSE), hi, lo)
        return f(*xs)

    def NOT(self, c):
        return self.ite(c, FALSE, TRUE)

    def AND(self, a, b):
        return self.ite(a, b, FALSE)

    # -------------------------------------------------------- values
    def idx(self, s, k):
        def f(s, k):
            if s[0] == "tuple" and k[0] == "num":
                n = int(k[1])
                for i, e in enumerate(s[1]):
                    if e[0] in ("rest", "opt"):
                        break
                    if i == n:
                        return e
                else:
                    return ("kw", "undefined")
            if s[0] == "tuple" and k == ("str", "length") and all(e[0] not in ("rest", "opt") for e in s[1]):
                return ("num", len(s[1]))
            if s[0] == "tail" and k[0] == "num":
                return self.idx(s[1], ("num", k[1] + s[2]))
            if s[0] == "obj" and k[0] in ("str", "num"):
                for n, o, v in s[1]:
                    if n == str(k[1]) and not o:
                        return v
            return ("idx", s, k)
        return self.lift([s, k], f)

    def tail(self, s, n):
        def f(s):
            if n == 0:
                return s
            if s[0] == "tuple":
                es = list(s[1])
                i = 0
                while i < n and es and es[0][0] not in ("rest", "opt"):
                    es.pop(0)
                    i += 1
                if i == n:
                    return self.mktuple(es)
                if len(es) == 1 and es[0][0] == "rest":
                    return ("tail", es[0][1], n - i)
            if s[0] == "tail":
                return ("tail", s[1], s[2] + n)
            return ("tail", s, n)
        return self.lift([s], f)

    def mktuple(self, es):
        out = []
        for e in es:
            if e[0] == "rest" and e[1][0] == "tuple":
                out += list(e[1][1])
            else:
                out.append(e)
        # an element taken off a list and put back in front of the remainder
        while len(out) > 1 and out[-1][0] == "rest" and out[-1][1][0] == "tail" and out[-2] == ("idx", out[-1][1][1], ("num", out[-1][1][2] - 1)):
            _, b, n = out[-1][1]
            out[-2:] = [("rest", ("tail", b, n - 1) if n > 1 else b)]
        if len(out) == 1 and out[0][0] == "rest":
            return out[0][1]
        return ("tuple", tuple(out))

    def mktpl(self, ps):
        out = []
        for p in ps:
            if p[0] == "num":
                p = ("str", str(p[1]))
            qs = p[1] if p[0] == "tpl" else (p,)
            for q in qs:
                if q[0] == "str" and out and out[-1][0] == "str":
                    out[-1] = ("str", out[-1][1] + q[1])
                elif q != ("str", ""):
                    out.append(q)
        if not out:
            return ("str", "")
        if len(out) == 1 and out[0][0] == "str":
            return out[0]
        return ("tpl", tuple(out))

    stand_in = None                   # (alias, what it is taken to give)

    def call(self, k, args):
        a = self.s.al[k]
        if self.stand_in and k == self.stand_in[0]:
            return self.stand_in[1]
        if k in self.opaque:
            name, order = self.names[k]
            dead = self.s.dead.get(k, set())
            ix = [i for i in order if i is not None and i not in dead]
            xs = [args[i] for i in ix]
            if not xs:
                return ("alias", name)
            return self.lift(xs, lambda *xs: ("call", name, xs))
        if len(args) != len(a["params"]):
            raise Exception("arity " + str(k))
        env = {p[0]: v for p, v in zip(a["params"], args)}
        return self.ty(k[0], a["type"], env)

    def ty(self, m, x, env):
        t = x[0]
        if t in ("str", "num"):
            return (t, x[1])
        if t == "kw":
            return ("kw", " ".join(x[1].split()))
        if t == "ref":
            if x[1] in env and not x[2]:
                return env[x[1]]
            if x[1] in ("Array", "ReadonlyArray"):
                return self.lift([self.ty(m, x[2][0], env)], lambda e: ("array", e))
            k = self.s.resolve(m, x[1])
            args = [self.ty(m, y, env) for y in x[2]]
            if k in self.s.al:
                ps = self.s.al[k]["params"]
                for p in ps[len(args):]:
                    args.append(self.ty(k[0], p[2], dict(zip((q[0] for q in ps), args))) if p[2] else ("kw", "unknown"))
                return self.call(k, args)
            if not args:
                return ("ext", k[1])
            return self.lift(args, lambda *xs: ("call", "ext:" + k[1], xs))
        if t == "index":
            return self.idx(self.ty(m, x[1], env), self.ty(m, x[2], env))
        if t == "op":
            return self.lift([self.ty(m, x[2], env)], lambda e: (x[1], e))
        if t == "tuple":
            vs = [self.ty(m, y[1] if y[0] in ("rest", "opt") else y, env) for y in x[1]]
            tg = [y[0] if y[0] in ("rest", "opt") else None for y in x[1]]
            return self.lift(vs, lambda *vs: self.mktuple([(g, v) if g else v for g, v in zip(tg, vs)])) if vs else ("tuple", ())
        if t == "tpl":
            return self.lift([self.ty(m, y, env) for y in x[1]], lambda *vs: self.mktpl(vs))
        if t == "obj":
            ms = sorted(x[1], key=lambda q: q[0])
            vs = [self.ty(m, q[2], env) if q[2] else ("kw", "?") for q in ms]
            if not vs:
                return ("obj", ())
            return self.lift(vs, lambda *vs: ("obj", tuple((q[0], bool(q[1]), v) for q, v in zip(ms, vs))))
        if t in ("union", "inter"):
            vs = [self.ty(m, y, env) for y in x[1]]

            def un(*vs):
                out = set()
                for v in vs:
                    out |= set(v[1]) if v[0] == t else {v}
                out.discard(("kw", "never") if t == "union" else ("kw", "unknown"))
                return out.pop() if len(out) == 1 else (t, tuple(sorted(out, key=key)))
            return self.lift(vs, un)
        if t == "mapped":
            e2 = dict(env)
            e2[x[1]] = ("bound", x[1])
            return ("mapped", self.ty(m, x[2], e2), self.ty(m, x[4], e2), x[5], x[6])
        if t == "cond":
            s = self.ty(m, x[1], env)
            e2 = dict(env)
            c = self.match(m, s, x[2], e2)
            no = x[4]
            if no[0] in ("str", "tpl") and text(no).startswith("unreachable"):
                return self.ty(m, x[3], e2)
            if c == TRUE:
                return self.ty(m, x[3], e2)
            if c == FALSE:
                return self.ty(m, no, env)
            return self.ite(c, self.ty(m, x[3], e2), self.ty(m, no, env))
        if t == "infer":
            raise Exception("infer outside a pattern")
        return ("kw", json.dumps(x))

    # -------------------------------------------------------- tests
    def match(self, m, s, p, env):
        """The condition under which s matches the pattern, whose variables are bound in env."""
        t = p[0]
        if not has_infer(p):
            if t == "tuple":
                return self.tup(m, s, p, env)
            if t == "union":
                c = FALSE
                for q in p[1]:
                    c = self.ite(c, TRUE, self.match(m, s, q, env))
                return c
            if t == "obj":
                return self.objp(m, s, p, env)
            return self.lift([s, self.ty(m, p, env)], self.test)
        if t == "infer":
            env[p[1]] = s
            return self.match(m, s, p[2], env) if p[2] else TRUE
        if t == "tuple":
            return self.tup(m, s, p, env)
        if t == "obj":
            return self.objp(m, s, p, env)
        if t == "tpl":
            shape, holes = [], []
            for q in p[1]:
                if q[0] == "str":
                    shape.append(q[1])
                else:
                    holes.append(q)
                    shape.append(None)
            sh = tuple(shape)

            def part(s, i):
                return self.lift([s], lambda s: ("hole", s, sh, i))
            c = self.lift([s], lambda s: self.atom(s, ("tplshape", sh)))
            for i, q in enumerate(holes):
                c = self.AND(c, self.match(m, part(s, i), q, env))
            return c
        if t == "ref" and t != "Array" and p[1] == "Array":
            c = self.lift([s], lambda s: self.test(s, ("array", ("kw", "any"))))
            inner = p[2][0]
            if inner[0] == "infer":
                env[inner[1]] = self.idx(s, ("kw", "number"))
            return c
        raise Exception("pattern " + t)

    def objp(self, m, s, p, env):
        c = TRUE
        for n, o, q in sorted(p[1]):
            c = self.AND(c, self.lift([s], lambda s: self.hasprop(s, n)))
            c = self.AND(c, self.match(m, self.idx(s, ("str", n)), q, env))
        return c

    def hasprop(self, s, n):
        if s[0] == "obj":
            return TRUE if any(x[0] == n and not x[1] for x in s[1]) else FALSE
        return self.atom(s, ("prop", n))

    def tup(self, m, s, p, env):
        es = p[1]
        rest = [i for i, e in enumerate(es) if e[0] == "rest"]
        if len(rest) > 1 or any(e[0] == "opt" for e in es) or (rest and rest[0] != len(es) - 1):
            # not a shape used here: one test as a whole
            c = self.lift([s], lambda s: self.atom(s, ("shape", json.dumps(strip(p)))))
            for i, e in enumerate(es):
                q = e[1] if e[0] == "rest" else e
                if q[0] == "infer":
                    env[q[1]] = self.lift([s], lambda s: ("part", s, json.dumps(strip(p)), i))
            return c
        n = len(es) - len(rest)
        c = self.lift([s], lambda s: self.len_test(s, n, bool(rest)))
        for i, e in enumerate(es):
            if e[0] == "rest":
                q = e[1]
                if not (q[0] == "ref" and q[1] == "Array" and not has_infer(q)):
                    c = self.AND(c, self.match(m, self.tail(s, n), q, env))
            else:
                c = self.AND(c, self.match(m, self.idx(s, ("num", i)), e, env))
        return c

    def len_test(self, s, n, more):
        """A tuple of n elements, or of at least n."""
        if s[0] == "tuple":
            fixed = [e for e in s[1] if e[0] not in ("rest", "opt")]
            open_ = len(fixed) < len(s[1])
            if not open_:
                return TRUE if (len(fixed) >= n if more else len(fixed) == n) else FALSE
            if more and all(e[0] != "rest" for e in s[1][:n]) and len(s[1]) >= n and all(e[0] not in ("rest", "opt") for e in s[1][:n]):
                return TRUE
        if s[0] in ("num", "str", "obj", "tpl"):
            return FALSE
        if more and n == 0:
            return self.test(s, ("array", ("kw", "any")))
        base, k = (s[1], s[2]) if s[0] == "tail" else (s, 0)
        return self.atom(base, ("len", n + k, more))

    def kind(self, s):
        """The sorts of type a value can be, or None."""
        if s[0] == "num":
            return {"num"}
        if s[0] in ("str", "tpl", "hole"):
            return {"str"}
        if s[0] in ("tuple", "array", "tail"):
            return {"arr"}
        if s[0] == "obj":
            return {"obj"}
        if s[0] == "param":
            return set(s[2]) if s[2] else None
        if s == ("kw", "never"):
            return set()
        if s[0] == "idx" and s[1] in (("ext", "SuccTable"), ("ext", "PredTable")):
            return {"num"}
        if s[0] == "kw":
            return {PRIM[s[1]]} - {None} if s[1] in PRIM else {"bool"} if s[1] in ("true", "false") else None
        if s[0] == "call":
            ks = self.retkinds.get(s[1])
            return set(ks) if ks is not None else None
        if s[0] == "idx" and s[1][0] == "param" and s[1][3] and s[2][0] == "num":
            # an element whose presence was tested
            return set(s[1][3])
        if s[0] == "idx" and s[2][0] == "str" and s[2][1] in self.s.flags:
            return {"bool"}
        return None

    retkinds = {}

    def test(self, s, p):
        """s extends p, p without variables"""
        if s == p or p in (("kw", "any"), ("kw", "unknown")):
            return TRUE
        if p[0] == "union" and all(y[0] in ("num", "str") for y in p[1]):
            c = FALSE
            for y in p[1]:
                c = self.ite(self.test(s, y), TRUE, c)
            return c
        if p[0] == "obj" and s[0] != "obj" and p[1] and not any(o or v[0] == "ite" for _, o, v in p[1]):
            # an object of this shape: each of its properties is there and is of its type
            c = TRUE
            for n, _, v in p[1]:
                c = self.AND(c, self.hasprop(s, n))
                c = self.AND(c, self.lift([self.idx(s, ("str", n))], lambda x: self.test(x, v)))
            return c
        want = None
        if p[0] == "kw" and p[1] in PRIM and PRIM[p[1]]:
            want = PRIM[p[1]]
        elif p[0] == "array":
            want = "arr"
        ks = self.kind(s)
        if want and ks is not None:
            if ks <= {want}:
                return TRUE
            if want not in ks:
                return FALSE
        if s[0] in ("num", "str") and p[0] in ("num", "str"):
            return FALSE
        if s[0] == "num" and self.kind(p) == {"num"}:
            return self.test(p, s)
        if p in (("kw", "true"), ("kw", "false")):
            if s[0] == "kw" and s[1] in ("true", "false"):
                return FALSE
            if p[1] == "false" and ks == {"bool"}:
                return self.NOT(self.atom(s, ("kw", "true")))
        if ks is not None and p[0] in ("num", "str") and p[0] not in ks:
            return FALSE
        if p[0] == "array" and s[0] != "array":
            p = ("array", ("kw", "any"))
        # equality of two numbers may be written either way round
        if p[0] not in ("num", "str", "kw", "keyof", "ext", "alias", "array", "union", "obj", "inter") and key(p) < key(s):
            k1, k2 = self.kind(s), self.kind(p)
            if k1 == {"num"} or k2 == {"num"}:
                s, p = p, s
        return self.atom(s, p)

    def atom(self, s, p):
        return ("ite", ("test", s, p), TRUE, FALSE)


def text(x):
    if x[0] == "str":
        return x[1]
    return "".join(y[1] if y[0] == "str" else "$" for y in x[1])


def strip(p):
    return ["infer", "_", p[2]] if p[0] == "infer" else [strip(q) if isinstance(q, list) else q for q in p]


def has_infer(p):
    if isinstance(p, list):
        return bool(p) and (p[0] == "infer" or any(has_infer(q) for q in p))
    return False


def is_action(x):
    """An entry of the action table: the generator writes one of shift, reduce and accept in each."""
    if x[0] == "call":
        return x[1] == "parse.GetAction"
    return x[0] == "idx" and x[1][0] == "idx" and show(x[1][1]).endswith("type_defs.Action")


def implied(a, val, b):
    """What is known of test b when test a has this result."""
    if a == b:
        return val
    if a[1] != b[1]:
        # a property that has a value is there
        if val and a[2][0] in ("num", "str", "kw") and b[2][0] == "prop" and a[1] == ("idx", b[1], ("str", b[2][1])):
            return True if a[2][0] != "kw" or a[2][1] in ("true", "false") else None
        if not val and a[2][0] == "prop" and b[2][0] in ("num", "str", "kw") and b[1] == ("idx", a[1], ("str", a[2][1])):
            return False if b[2][0] != "kw" or b[2][1] in ("true", "false") else None
        return None
    p, q = a[2], b[2]
    if val and p[0] == q[0] == "prop" and is_action(a[1]):
        return False
    lit = ("num", "str")
    if val:
        if p[0] in lit or p in (("kw", "true"), ("kw", "false")):
            if q[0] in lit or q in (("kw", "true"), ("kw", "false")):
                return False
            if q[0] == "kw" and q[1] in PRIM:
                return (p[0] == "num") == (q[1] == "number") if p[0] == "num" else (q[1] == "string") if p[0] == "str" else q[1] == "boolean"
            if q[0] in ("len", "array", "prop"):
                return False
            if q[0] == "tplshape" and p == ("str", "") and len(q[1]) >= 1:
                return False
        if p[0] == "kw" and q[0] == "kw" and p[1] in PRIM and q[1] in PRIM:
            return False
        if p[0] == "kw" and p[1] in PRIM and q[0] in ("len", "array", "prop"):
            return False
        if p[0] == "kw" and p[1] in PRIM and q[0] in lit and PRIM[p[1]] != q[0]:
            return False
        if p[0] in ("len", "array"):
            if q[0] in lit or q[0] == "tplshape" or q[0] == "kw" and q[1] in PRIM:
                return False
        if p[0] == "len" and q[0] == "array":
            return True
        if p[0] == "len" and q[0] == "len":
            n, m1, k, m2 = p[1], p[2], q[1], q[2]
            if not m1:
                return n >= k if m2 else n == k
            if m2 and k <= n:
                return True
            if not m2 and k < n:
                return False
        if p[0] == "tplshape":
            if q[0] in ("num", "len", "array") or q == ("str", "") or q[0] == "kw" and q[1] in PRIM and q[1] != "string":
                return False
            if q == ("kw", "string"):
                return True
    else:
        if p[0] == "len" and q[0] == "len":
            n, m1, k, m2 = p[1], p[2], q[1], q[2]
            if m1 and k >= n:
                return False
        if p[0] == "array" and q[0] == "len":
            return False
        if p == ("kw", "number") and q[0] == "num" or p == ("kw", "string") and q[0] in ("str", "tplshape"):
            return False
    return None


# ---------------------------------------------------------------- comparison
def pkind(side, m, c):
    """(kinds, kinds of the elements) a parameter's constraint allows"""
    if c is None:
        return (), ()
    if c[0] == "kw" and PRIM.get(c[1]):
        return (PRIM[c[1]],), ()
    if c[0] == "ref" and c[1] == "Array":
        return ("arr",), pkind(side, m, c[2][0])[0]
    if c[0] == "tuple":
        return ("arr",), ()
    if c[0] == "obj":
        return ("obj",), ()
    if c[0] == "union":
        ks = [pkind(side, m, y)[0] for y in c[1]]
        if all(ks):
            return tuple(sorted({k for x in ks for k in x})), ()
        return (), ()
    if c[0] == "ref":
        k = side.resolve(m, c[1])
        if k in side.al and not side.al[k]["params"]:
            return pkind(side, k[0], side.al[k]["type"])
    return (), ()


def order_of(side, k, refparams):
    """Positions of the parameters in the reviewed order: by name where the names are the same."""
    ps = [p[0] for p in side.al[k]["params"]]
    if refparams is None or ps == refparams:
        return list(range(len(ps)))
    if len(set(ps) & set(refparams)) * 2 >= len(refparams):
        ix = [ps.index(p) if p in ps else None for p in refparams]
        return ix + [i for i, p in enumerate(ps) if p not in refparams]
    return list(range(len(ps)))


def dead_params(side, k):
    """Parameters that only ever reach the same parameter of the same alias."""
    a = side.al[k]
    ps = [p[0] for p in a["params"]]
    live = set()

    def walk(x):
        if not isinstance(x, list):
            return
        if x and x[0] == "ref" and len(x) == 3:
            if x[1] in ps and not x[2]:
                live.add(x[1])
                return
            if side.resolve(k[0], x[1]) == k:
                for i, y in enumerate(x[2]):
                    if not (i < len(ps) and y == ["ref", ps[i], []]):
                        walk(y)
                return
        for y in x:
            walk(y)
    walk(a["type"])
    return {i for i, p in enumerate(ps) if p not in live}


def canonical(side, k, opaque, names, order):
    ev = Ev(side, opaque - {k} | ({k} if k in side.rec else set()), names)
    a = side.al[k]
    args = [None] * len(a["params"])
    j = 0
    for pos, i in enumerate(order):
        if i is None:
            continue
        kk, ek = pkind(side, k[0], a["params"][i][1])
        args[i] = ("param", pos, kk, ek)
    ev.retkinds = side.retkinds
    env = {p[0]: v for p, v in zip(a["params"], args)}
    return etas(ev, ev.ty(k[0], a["type"], env))


def leaf_map(ev, t, f):
    if t[0] == "ite":
        return ev.ite(("ite", t[1], TRUE, FALSE), leaf_map(ev, t[2], f), leaf_map(ev, t[3], f))
    return f(t)


def mentions(x, y):
    return x == y or isinstance(x, tuple) and any(mentions(z, y) for z in x)


def built_in_order(ev, t, name):
    """A list built by adding elements at its end is the one built by adding them in front, turned round.

    t is the body of the alias `name`; the parameter that carries the list is only added to and given back."""
    ls = leafs(t, [])
    own = [l for l in ls if l[0] == "call" and l[1] == name]
    for j in range(min((len(l[2]) for l in own), default=0)):
        ps = {p for l in own for p in params(l[2][j])}
        p = [q for q in ps if q[1] == j and "arr" in q[2]]
        if len(p) != 1:
            continue
        p = p[0]

        def added(l):
            x = l[2][j]
            if x == p:
                return ()
            if x[0] == "tuple" and x[1] and x[1][0] == ("rest", p) and not any(mentions(y, p) or y[0] in ("rest", "opt") for y in x[1][1:]):
                return x[1][1:]
            return None
        if any(added(l) is None or any(mentions(y, p) for i, y in enumerate(l[2]) if i != j) for l in own):
            continue
        if not any(added(l) for l in own) or any(mentions(m, p) for m in tests(t, set())):
            continue

        def f(l):
            if l in own:
                x = l[2][:j] + (ev.mktuple([y for y in reversed(added(l))] + [("rest", p)]),) + l[2][j + 1:]
                return ("call", name, x)
            return turned(l, p)
        return leaf_map(ev, t, f), j
    return None


def turned(x, p):
    if x == p:
        return ("call", "util.Reverse", (p,))
    if isinstance(x, tuple) and x[:2] == ("call", "util.Reverse") and x[2] == (p,):
        return p
    return tuple(turned(y, p) for y in x) if isinstance(x, tuple) else x


def params(x):
    if isinstance(x, tuple) and x and x[0] == "param" and len(x) == 4:
        return {x}
    return set().union(*[params(y) for y in x]) if isinstance(x, tuple) and x else set()


def tests(t, out):
    if t[0] == "ite":
        out.add(t[1])
        tests(t[2], out)
        tests(t[3], out)
    return out


def starts_empty(side, k, j, names):
    """Every use of the alias outside itself passes the empty list there."""
    ok = True

    def walk(m, x):
        nonlocal ok
        if not isinstance(x, list):
            return
        if x and x[0] == "ref" and len(x) == 3 and side.resolve(m, x[1]) == k:
            i = names[k][1][j]
            y = x[2][i] if i is not None and i < len(x[2]) else side.al[k]["params"][i][2] if i is not None else None
            if y != ["tuple", []]:
                ok = False
        for y in x:
            walk(m, y)
    for u in side.al:
        if u != k:
            walk(u[0], side.al[u]["type"])
    return ok


def in_order(side, k, opaque, names, wrap=None):
    """The alias with lists built front to back, and what the one user makes of its results taken in."""
    ev = Ev(side, opaque | {k}, names)
    ev.retkinds = side.retkinds
    t = canonical(side, k, opaque, names, names[k][1])
    n = names[k][0]
    if wrap:
        def f(l):
            if l[0] == "call" and l[1] == n:
                return l
            w = Ev(side, opaque - {k, wrap}, names)
            w.retkinds = side.retkinds
            w.stand_in = (k, l)
            env = {p[0]: ("outer", i) for i, p in enumerate(side.al[wrap]["params"])}
            return w.ty(wrap[0], side.al[wrap]["type"], env)
        t = leaf_map(ev, t, f)
        if mentions(t, "outer"):
            raise Big()
    r = built_in_order(ev, t, n)
    if r is None:
        return t
    if not starts_empty(side, k, r[1], names):
        raise Big()
    return r[0]


def etas(ev, t):
    """A truth value as the choice between true and false."""
    if t[0] == "ite":
        return ev.ite(("ite", t[1], TRUE, FALSE), etas(ev, t[2]), etas(ev, t[3]))
    if t[0] == "call" and ev.kind(t) == {"bool"}:
        return ev.ite(ev.test(t, ("kw", "true")), ("kw", "true"), ("kw", "false"))
    return t


def leafs(t, out):
    if t[0] == "ite":
        leafs(t[2], out)
        leafs(t[3], out)
    else:
        out.append(t)
    return out


def return_kinds(side, names, known):
    """Least solution of: the sorts of type each alias can give."""
    ks = {names[k][0]: frozenset() for k in side.al}
    raw = {}
    side.retkinds = {}
    for k in side.al:
        try:
            raw[k] = leafs(canonical(side, k, known | set(side.rec), names, list(range(len(side.al[k]["params"])))), [])
        except Exception:
            raw[k] = None
    ch = True
    top = set()
    while ch:
        ch = False
        for k, ls in raw.items():
            n = names[k][0]
            if n in top:
                continue
            if ls is None:
                top.add(n)
                ch = True
                continue
            new = set()
            for l in ls:
                if l[0] == "call" and l[1] in ks:
                    if l[1] in top:
                        new = None
                        break
                    new |= ks[l[1]]
                    continue
                q = Ev.kind(Dummy, l)
                if q is None:
                    new = None
                    break
                new |= q
            if new is None:
                top.add(n)
                ch = True
            elif frozenset(new) != ks[n]:
                ks[n] = frozenset(new)
                ch = True
    return {n: v for n, v in ks.items() if n not in top}


class Dummy:
    retkinds = {}

    @staticmethod
    def replace(x, old, new):
        return Ev.replace(Dummy, x, old, new)

    @staticmethod
    def idx(s, k):
        return ("idx", s, k)


def first_difference(a, b, path=()):
    """A combination of test results for which the two diagrams end differently."""
    if a == b:
        return None
    if a[0] != "ite" and b[0] != "ite":
        for m, v in path:
            if v and m[2][0] in ("num", "str") and m[1][0] not in ("num", "str"):
                a, b = Ev.replace(Dummy, a, m[1], m[2]), Ev.replace(Dummy, b, m[1], m[2])
        return None if a == b else (path, a, b)
    m = min((x[1] for x in (a, b) if x[0] == "ite"), key=key)
    known = [implied(p, v, m) for p, v in path]
    for v in (True, False):
        if (not v) in known:
            continue
        x = a[2 if v else 3] if a[0] == "ite" and a[1] == m else a
        y = b[2 if v else 3] if b[0] == "ite" and b[1] == m else b
        r = first_difference(x, y, path + ((m, v),))
        if r is not None:
            return r
    return None


def show(x):
    if not isinstance(x, tuple):
        return str(x)
    if not x:
        return ""
    o = x[0]
    if o == "param":
        return "#%d" % x[1]
    if o == "num":
        return str(x[1])
    if o == "str":
        return json.dumps(x[1])
    if o in ("kw", "ext", "alias"):
        return x[1]
    if o == "call":
        return "%s<%s>" % (x[1].split(".")[-1], ", ".join(map(show, x[2])))
    if o == "idx":
        return "%s[%s]" % (show(x[1]), show(x[2]))
    if o == "tail":
        return "%s[%d..]" % (show(x[1]), x[2])
    if o == "tuple":
        return "[%s]" % ", ".join(map(show, x[1]))
    if o == "rest":
        return "..." + show(x[1])
    if o == "hole":
        return "%s.part%d" % (show(x[1]), x[3])
    if o == "obj":
        return "{%s}" % ", ".join("%s%s: %s" % (n, "?" if q else "", show(v)) for n, q, v in x[1])
    if o == "ite":
        return "(%s ? %s : %s)" % (show(x[1]), show(x[2]), show(x[3]))
    if o == "test":
        return "%s is %s" % (show(x[1]), show(x[2]))
    if o == "tpl":
        return "`%s`" % "".join(y[1] if y[0] == "str" else "${%s}" % show(y) for y in x[1])
    if o == "len":
        return "%s%d elements" % ("at least " if x[2] else "", x[1])
    if o == "prop":
        return "with ." + x[1]
    if o == "tplshape":
        return "like `%s`" % "".join("${}" if y is None else y for y in x[1])
    return "%s(%s)" % (o, ", ".join(map(show, x[1:])))


def compare(ref_d, cur_d):
    """[(alias, verdict, text, line)], statistics"""
    r, s = Side(ref_d), Side(cur_d)
    both = set(r.al) & set(s.al)
    rh = r.heads(set())
    sh = s.heads(rh)
    # a renamed recursive alias
    ren = {}
    for m in FILES:
        a = sorted(k for k in rh - set(s.al) if k[0] == m)
        b = sorted(k for k in sh - set(r.al) if k[0] == m)
        if len(a) == len(b) == 1:
            ren[b[0]] = a[0]
    names_r = {k: (".".join(k), list(range(len(r.al[k]["params"])))) for k in r.al}
    names_s = {}
    for k in s.al:
        k0 = ren.get(k, k)
        rp = [p[0] for p in r.al[k0]["params"]] if k0 in r.al else None
        names_s[k] = (".".join(k0), order_of(s, k, rp))
    for side in (r, s):
        side.dead = {k: dead_params(side, k) for k in side.al}
    r.retkinds = return_kinds(r, names_r, set(r.al))
    s.retkinds = return_kinds(s, names_s, set(r.al) & set(s.al))
    out, stats = [], {"aliases": len(r.al), "recursive": len(rh), "levels": {}}
    pairs = sorted([(k, k) for k in both] + [(b, a) for a, b in ren.items()])
    comm_r = {a for a, _ in pairs}
    comm_s = {b for _, b in pairs}
    differs = {}
    for kr, ks in pairs:
        res = None
        for lv in "AB":
            try:
                if lv == "A":
                    opr, ops = comm_r, comm_s
                else:
                    opr, ops = (rh | KEEP), (sh | KEEP)
                a = canonical(r, kr, set(opr) - {kr}, names_r, names_r[kr][1])
                b = canonical(s, ks, set(ops) - {ks}, names_s, names_s[ks][1])
            except Big:
                continue
            except RecursionError:
                continue
            d = first_difference(a, b)
            if d is None:
                res = lv
                break
            differs.setdefault(kr, d)
        if res:
            differs.pop(kr, None)
            stats["levels"].setdefault(res, []).append(".".join(kr))
    accounted = set()
    for kr, d in sorted(differs.items(), key=lambda e: (e[0] not in r.rec, e[0])):
        ks = dict(pairs)[kr]
        users = {u for u, us in r.uses.items() if kr in us} - {kr}
        if not s.al[ks]["exported"] and kr not in r.rec and users and all(u in both for u in users):
            fold = {k for k in differs if k not in r.rec}
            sm = dict(pairs)
            try:
                if all(canonical(r, u, comm_r - fold - {u}, names_r, names_r[u][1]) == canonical(s, sm[u], comm_s - {sm[f] for f in fold} - {sm[u]}, names_s, names_s[sm[u]][1]) for u in users):
                    stats["levels"].setdefault("folded", []).append(".".join(kr))
                    continue
            except (Big, RecursionError):
                pass
        if d is None or kr in accounted:
            continue
        if kr in r.rec and not s.al[ks]["exported"]:
            # a list built the other way round, alone or together with the one user
            try:
                if first_difference(in_order(r, kr, comm_r, names_r), in_order(s, ks, comm_s, names_s)) is None:
                    stats["levels"].setdefault("turned", []).append(".".join(kr))
                    continue
                us = users - {kr}
                if len(us) == 1:
                    u = us.pop()
                    if u in differs and {x for x, y in s.uses.items() if ks in y} - {ks} == {dict(pairs)[u]} and first_difference(
                            in_order(r, kr, comm_r, names_r, u), in_order(s, ks, comm_s, names_s, dict(pairs)[u])) is None:
                        stats["levels"].setdefault("turned", []).append(".".join(kr))
                        accounted |= {kr, u}
                        continue
            except (Big, RecursionError):
                pass
        path, x, y = d
        cond = "; ".join(("" if v else "not ") + show(m) for m, v in path)
        out.append((".".join(kr), "violation", "where %s: expected %s -- found %s" % (cond[:400] or "always", show(x)[:300], show(y)[:300]), s.al[ks]["line"]))
    stats["missing"] = sorted(".".join(k) for k in set(r.al) - comm_r)
    stats["new"] = sorted(".".join(k) for k in set(s.al) - comm_s)
    stats["errors"] = {m: s.d[m]["errors"] for m in s.d if s.d[m]["errors"]}
    return out, stats


REF = os.path.join(HERE, "spec", "ts_reference.json")
SKIP = {"parse.tokens", "parse.ast", "util.Err", "util.Tail"}


def alias_props(side):
    """Which properties an alias carries: what reaches it from where."""
    out = {}
    for k in side.al:
        n = ".".join(k)
        if n in SKIP:
            continue
        ps = {"lex": {"C22"}, "parse": {"C23"}, "util": {"C28"}, "chars": {"C28", "C22"}}[k[0]]
        out[n] = set(ps)
    for k in side.al:
        if k[0] in ("lex", "parse") and ".".join(k) not in SKIP:
            seen, work = set(), [k]
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                work += list(side.uses[x])
            for x in seen:
                if x[0] == "util" and ".".join(x) in out:
                    out[".".join(x)].add("C22" if k[0] == "lex" else "C23")
    for n in ("util.PopNStackWithValue", "util.PopNStackWithValueImpl"):
        out.setdefault(n, {"C28"}).update({"C20", "C23"})
    for n in ("lex.Token", "lex.TokenDef", "lex.State", "lex.CharRange"):
        out.setdefault(n, {"C22"})
    return out


def run(repo):
    """(findings, coverage)"""
    ref = json.load(open(REF))
    cur = load(repo)
    fs = []
    pr = alias_props(Side(ref))
    miss = [m for m in FILES if m not in cur]
    if miss:
        return [{"props": ["C22", "C23", "C28"], "key": "ts/%s.ts" % m, "what": "the file is not there", "file": "ts/%s.ts" % m, "line": 0, "rule": "ts"} for m in miss], {"aliases": 0}, pr
    out, st = compare(ref, cur)
    for n, v, text_, line in out:
        if n in pr and not n.startswith("chars."):
            fs.append({"props": sorted(pr[n]), "key": "ts:" + n, "what": text_, "file": "ts/%s.ts" % n.split(".")[0], "line": line, "rule": "ts"})
    bad, cnt = chars(cur)
    for n, text_, line in bad:
        fs.append({"props": ["C22", "C28"], "key": "ts:" + n, "what": text_, "file": "ts/chars.ts", "line": line, "rule": "ts"})
    st["character_entries"] = cnt
    return fs, st, pr


def chars(d):
    """Every entry of the two character tables must name its own character."""
    bad, n = [], 0
    a = d.get("chars", {}).get("aliases", {})
    for nm in ("Characters", "CharTable"):
        if nm not in a or a[nm]["type"][0] != "obj":
            bad.append(("chars." + nm, "the table %s is not there" % nm, 0))
            continue
        codes = set()
        for k, o, v in a[nm]["type"][1]:
            n += 1
            c, code = (v[1], k) if nm == "Characters" else (k, v[1] if v else None)
            if not isinstance(c, str) or len(c) != 1 or str(ord(c)) != str(code):
                bad.append(("chars.%s" % nm, "the entry %r: %r does not name its own character" % (k, v and v[1]), a[nm]["line"]))
            codes.add(str(code))
        miss = sorted(set(map(str, range(32, 127))) - codes | ({"10"} - codes))
        if miss:
            bad.append(("chars." + nm, "no entry for the characters with codes %s" % ", ".join(miss[:8]), a[nm]["line"]))
    if not bad:
        x = {str(k) for k, _, _ in a["Characters"]["type"][1]}
        y = {str(v[1]) for _, _, v in a["CharTable"]["type"][1]}
        if x != y:
            bad.append(("chars.CharTable", "the tables list different characters: %s" % sorted(x ^ y)[:8], a["CharTable"]["line"]))
    return bad, n


if __name__ == "__main__":
    import sys
    a, b = load(sys.argv[1]), load(sys.argv[2])
    o, st = compare(a, b)
    for x in o:
        print(x)
    print(st)
    print(chars(b))
