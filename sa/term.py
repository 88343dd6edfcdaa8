"""Hash-consed value terms with canonical (reduced, ordered) decision nodes.

Every value the abstract evaluation computes is one of these terms.  Two program fragments that
compute the same value through different control flow, names, helper functions or library
adaptors end in the same term, so comparing terms compares what the code does.
"""
import hashlib
import sys
import time

sys.setrecursionlimit(20000)

_table = {}
ADTS = {}           # path -> adt description of the dump
MAX_USIZE = (1 << 64) - 1


class TooBig(Exception):
    pass


DEADLINE = [None]
MEMORY = [9 << 30]
_tick = [0]
# whether the rules that combine decisions with each other are used too: they find more terms equal,
# but what they make of a term can depend on the order in which it was built
DEEP = [False]


def deep(on):
    """Switches these rules; nothing that was computed the other way is kept."""
    if DEEP[0] is not on:
        DEEP[0] = on
        for n, m in list(globals().items()):
            if n.startswith("_") and n.endswith("_memo") and isinstance(m, dict):
                m.clear()


def check_time():
    _tick[0] += 1
    if _tick[0] & 1023 == 0:
        if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
            raise TooBig("time")
        if _tick[0] & 65535 == 0 and memory() > MEMORY[0]:
            raise TooBig("memory")


def memory():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


class T:
    __slots__ = ("op", "a", "dg", "sz", "atoms", "unk", "span", "bd", "fv", "rf")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return (self.sz, self.dg) < (o.sz, o.dg)


_NOATOMS = frozenset()


def _flat(x, out):
    if isinstance(x, T):
        out.append(x)
    elif isinstance(x, tuple):
        for y in x:
            _flat(y, out)


def _ser(x):
    if isinstance(x, T):
        return x.dg
    if isinstance(x, tuple):
        return "(" + ",".join(_ser(y) for y in x) + ")"
    return repr(x)


cur_span = [None]
BINDERS = ("rep", "exists", "first", "loop")
_fresh = [0]


def fresh():
    _fresh[0] += 1
    return "t%d" % _fresh[0]


def open_(t_args, tag, tmp):
    """Rename the bound variables of a binder to a temporary name."""
    def ren(x):
        if isinstance(x, tuple):
            return tuple(ren(y) for y in x)
        if isinstance(x, T):
            return rename(x, tag, tmp)
        return x
    return ren(t_args)


_ren_memo = {}


def rename(t, tag, new):
    if tag not in t.fv:
        return t
    k = (t, tag, new)
    r = _ren_memo.get(k)
    if r is not None:
        return r
    if t.op in ("bv", "cv"):
        r = mk(t.op, new, *t.a[1:])
    else:
        r = rebuild(t, lambda x: rename(x, tag, new), frozenset((tag, new)))
    _ren_memo[k] = r
    return r


def close(op, tmp, args):
    """Build a binder whose bound variable has a canonical number."""
    m = 0
    for c in _flat1(args):
        if c.bd > m:
            m = c.bd
    args = open_(args, tmp, m + 1)
    return BUILD[op](m + 1, *args)


def _flat1(x):
    out = []
    _flat(x, out)
    return out


BUILD = {}


def mk(op, *a):
    key = (op, a)
    t = _table.get(key)
    if t is not None:
        return t
    check_time()
    t = T()
    t.op = op
    t.a = a
    ch = []
    _flat(a, ch)
    t.dg = hashlib.blake2b((op + "|" + ",".join(_ser(x) for x in a)).encode(), digest_size=10).hexdigest()
    t.sz = 1 + sum(c.sz for c in ch)
    at = set()
    unk = op == "unk"
    for c in ch:
        at |= c.atoms
        unk = unk or c.unk
    if op == "case":
        at.add(a[0])
    t.atoms = frozenset(at) if at else _NOATOMS
    t.unk = unk
    bd = 0
    fv = _NOATOMS
    rf = _NOATOMS
    for c in ch:
        if c.bd > bd:
            bd = c.bd
        if c.fv and not c.fv <= fv:
            fv = fv | c.fv
        if c.rf and not c.rf <= rf:
            rf = rf | c.rf
    if op in ("bv", "cv"):
        fv = frozenset((a[0],))
    elif op in BINDERS:
        if a[0] in fv:
            fv = fv - {a[0]}
        if isinstance(a[0], int) and a[0] > bd:
            bd = a[0]
    elif op == "ref":
        rf = rf | {a[0]}
    t.bd, t.fv, t.rf = bd, fv, rf
    t.span = cur_span[0]
    _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def INT(n):
    return mk("int", int(n))


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("struct", "tuple", ())
UNDEF = mk("undef")
EMPTY = mk("seq", ())
MAP0 = mk("map0")
SET0 = mk("set", ())
NEVER = mk("never")


def STR(s):
    return mk("seq", (mk("lit", s),)) if s else EMPTY


def BOOL(b):
    return TRUE if b else FALSE


def is_int(t):
    return t.op == "int"


def str_const(t):
    """The text of a constant string, or None."""
    if t.op == "seq":
        if not t.a[0]:
            return ""
        if len(t.a[0]) == 1 and t.a[0][0].op == "lit":
            return t.a[0][0].a[0]
    return None


# ---------------------------------------------------------------- decision nodes
def outcomes(c):
    return c.a[1]


def case_default(c):
    return c.a[2]


def variants_of(adt):
    d = ADTS.get(adt)
    return [v["name"] for v in d["variants"]] if d else None


def variant_fields(adt, var):
    d = ADTS.get(adt)
    for v in d["variants"]:
        if v["name"] == var:
            return len(v["fields"])
    return None


_assume_memo = {}


def assume(t, atom, out):
    """t, knowing that atom has this outcome."""
    return know(_assume(t, atom, out, None), atom, out)


def assume_not(t, atom, outs):
    return _assume(t, atom, None, frozenset(outs))


def _contains_for(atom):
    return atom


def _assume(t, atom, out, nots):
    if atom not in t.atoms and not _mentions(t, atom, out):
        return t
    k = (t, atom, out, nots)
    r = _assume_memo.get(k)
    if r is not None:
        return r
    if t.op == "case" and t.a[0] is atom:
        brs, d = t.a[1], t.a[2]
        if out is not None:
            r = None
            for o, b in brs:
                if o == out:
                    r = b
            if r is None:
                r = d if d is not None else UNDEF
            r = _assume(r, atom, out, nots)
        else:
            keep = [(o, b) for o, b in brs if o not in nots]
            r = mk_case(atom, dict((o, _assume(b, atom, out, nots)) for o, b in keep),
                        None if d is None else _assume(d, atom, None, nots), True)
    else:
        r = rebuild(t, lambda x: _assume(x, atom, out, nots), atom.fv)
    _assume_memo[k] = r
    return r


def _mentions(t, atom, out):
    """Whether the scrutinee itself may be replaced by what is known about it."""
    return False


_sub_memo = {}


def mapargs(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(mapargs(y, f) for y in x)
    return x


_open_memo = {}


def opened(t, avoid):
    """(tag, arguments) of a binder with its variable named; always the same name where no tag in avoid is it."""
    if avoid is not None:
        r = _open_memo.get(t)
        if r is None:
            tmp = fresh()
            r = _open_memo[t] = (tmp, open_(t.a[1:], t.a[0], tmp))
        if r[0] not in avoid:
            return r
    tmp = fresh()
    return tmp, open_(t.a[1:], t.a[0], tmp)


def rebuild(t, f, avoid=None):
    """Apply f to the children and rebuild with the normalising constructors.
    avoid: every tag that f may put into its results (None: not known)."""
    op, a = t.op, t.a
    if op == "case":
        atom, brs, d = a
        na = rebuild_atom(atom, f)
        nb = dict((o, f(b)) for o, b in brs)
        nd = None if d is None else f(d)
        return branch(na, nb, nd)
    if op in ("int", "bool", "sym", "bv", "cv", "lit", "undef", "map0", "never", "ref"):
        if op == "ref":
            return mk("ref", a[0], mapargs(a[1], f))
        return t
    if op in ("lv", "hv") and a[0].op == "loop":
        lp = a[0]
        tmp, oa = opened(lp, avoid)
        na = mapargs(oa, f)
        ni = f(a[2]) if op == "hv" else None
        if na == oa and (op == "lv" or ni is a[2]):
            return t
        lt_, order = sorted_loop(tmp, na)
        return mk("lv", lt_, order[a[1]]) if op == "lv" else hist(lt_, order[a[1]], ni)
    if op in BINDERS:
        if op == "rep" and not isinstance(a[0], int):
            na = mapargs(a, f)
            return t if na == a else make(op, *na)
        tmp, oa = opened(t, avoid)
        na = mapargs(oa, f)
        if na == oa:
            return t
        return close(op, tmp, na)
    na = mapargs(a, f)
    if na == a:
        return t
    return make(op, *na)


def rebuild_atom(atom, f):
    """Returns the new scrutinee: ('discr', adt, x) | ('val', x) | ('b', boolterm)."""
    if atom.op == "discr":
        return ("discr", atom.a[0], f(atom.a[1]))
    if atom.op == "val":
        return ("val", f(atom.a[0]))
    r = f(atom)
    if r.op not in ("case", "bool", "undef"):
        r = batom(r)
    return ("b", r)


def branch(sc, brs, d):
    k = sc[0]
    if k == "discr":
        return switch_discr(sc[2], sc[1], brs, d)
    if k == "val":
        return switch_val(sc[1], brs, d)
    return ite(sc[1], brs[True], brs[False])


def subst(t, m):
    """Replace terms (bound variables, cells) and renormalise."""
    if not m:
        return t
    memo = {}
    vars_only = all(k.op in ("bv", "cv") for k in m)
    fvs = frozenset(k.a[0] for k in m) if vars_only else None
    minsz = min(k.sz for k in m)
    avoid = _NOATOMS
    for k, v in m.items():
        avoid = avoid | k.fv | v.fv

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if vars_only:
            if not (x.fv & fvs):
                return x
        elif x.sz <= minsz:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = rebuild(x, go, avoid)
        memo[x] = r
        return r

    return go(t)


def contains(t, pred, _memo=None):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        if not isinstance(x, T):
            return False
        r = memo.get(x)
        if r is None:
            r = bool(pred(x)) or any(go(y) for y in x.a)
            memo[x] = r
        return r

    return go(t)


def collect(t, pred):
    seen = set()
    out = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if pred(x):
            out.append(x)
        for y in x.a:
            go(y)

    go(t)
    return out


SEQ_OPS = ("seq",)
HOIST = ("struct", "seq", "set")
LIMIT = [10 ** 60]


def top_atoms(ts):
    return [t.a[0] for t in ts if t.op == "case"]


def mk_case(atom, brs, d, raw=False):
    """Canonical decision node on atom. brs: outcome -> term."""
    # exhaustive discriminants have no default
    if atom.op == "discr":
        vs = variants_of(atom.a[0])
        if vs is not None:
            full = {}
            for v in vs:
                if v in brs:
                    full[v] = brs[v]
                elif d is not None:
                    full[v] = d
                else:
                    full[v] = UNDEF
            brs, d = full, None
    elif atom.op != "val":
        brs = {True: brs.get(True, d if d is not None else UNDEF),
               False: brs.get(False, d if d is not None else UNDEF)}
        d = None
    nb = {}
    for o, b in brs.items():
        nb[o] = assume(b, atom, o)
    nd = None if d is None else assume_not(d, atom, brs.keys())
    return _case_ord(atom, nb, nd)


KNOWN = ("sym", "at", "field", "vfield", "bv", "cv", "mkey", "mval", "get", "call", "mut", "ret")
_know_memo = {}


def know(b, atom, o):
    """Rewrite b with what the outcome says about the scrutinee itself."""
    if atom.op == "val":
        x = atom.a[0]
        c = const_of(o)
        if x.op in KNOWN and _has_sub(b, x):
            k = (b, x, c)
            r = _know_memo.get(k)
            if r is None:
                r = _know_memo[k] = subst(b, {x: c})
            return r
        if x.op == "len":
            k = (b, x, c)
            r = _know_memo.get(k)
            if r is None:
                m = {}
                if _has_sub(b, x):
                    m[x] = c
                if c.op == "int" and c.a[0] == 0:
                    sp = mk("sp", x.a[0])
                    if _has_sub(b, sp):
                        m[sp] = mk("sp", EMPTY)
                r = _know_memo[k] = subst(b, m)
            return r
        return b
    if atom.op == "exists" and o is False:
        f = mk("first", *atom.a)
        return subst(b, {f: atom.a[1]}) if _has_sub(b, f) else b
    if not DEEP[0] and atom.op in ("isle", "iseq"):
        return b
    if atom.op == "iseq" and o is True:
        mm = _says(atom, o)
        if mm:
            (x, y), = mm.items()
            if _has_sub(b, x):
                k = (b, x, y)
                r = _know_memo.get(k)
                if r is None:
                    r = _know_memo[k] = subst(b, mm)
                return r
        return b
    if atom.op == "isle" or atom.op == "iseq" and o is False:
        return _settle(b, atom, o)
    if atom.op == "discr":
        x = atom.a[1]
        n = variant_fields(atom.a[0], o)
        if n is None:
            return b
        return eta_expand(b, x, atom.a[0], o, n)
    return b


def _settle(b, atom, o):
    """b, with the other comparisons of the same two quantities that this outcome decides."""
    near = [a for a in b.atoms if a.op in ("isle", "iseq") and a is not atom]
    if not near:
        return b
    k = (b, atom, o)
    r = _know_memo.get(k)
    if r is not None:
        return r

    def diff(a):
        return _lin(a.a[0]) if a.op == "isle" else _lin(sub(a.a[0], a.a[1]))
    c, d = diff(atom)
    r = b
    for a in sorted(near):
        c2, d2 = diff(a)
        if d2 != d:
            if atom.op == a.op == "isle" or d2 != {x: -v for x, v in d.items()}:
                continue
            # an equation may be written either way round
            if atom.op == "iseq":
                c, d = -c, d2
            else:
                c2, d2 = -c2, d
        if atom.op == "isle" and a.op == "isle":
            if o is True and c2 <= c:
                r = _assume(r, a, True, None)
            elif o is False and c2 >= c:
                r = _assume(r, a, False, None)
        elif atom.op == "isle":
            # c + V <= 0, or c + V >= 1, and c2 + V == 0
            if (o is True and c > c2) or (o is False and c <= c2):
                r = _assume(r, a, False, None)
        elif a.op == "isle" and c2 == c + 1:
            # V /= -c, so c + V < 0 is c + V <= 0
            r = subst(r, {batom(a): le0(_mklin(c, d)), a: mk("isle", _mklin(c, d))})
    _know_memo[k] = r
    return r


def eta_expand(b, x, adt, var, n):
    if b is x:
        return mk("ctor", adt, var, tuple(mk("vfield", x, var, i) for i in range(n)))
    if b.op == "case":
        changed = False
        nb = []
        for o, y in b.a[1]:
            z = eta_expand(y, x, adt, var, n)
            changed |= z is not y
            nb.append((o, z))
        nd = b.a[2]
        if nd is not None:
            z = eta_expand(nd, x, adt, var, n)
            changed |= z is not nd
            nd = z
        if not changed:
            return b
        return _case_ord(b.a[0], dict(nb), nd)
    if b.op in ("ctor", "struct"):
        i = 2 if b.op == "ctor" else 1
        na = tuple(eta_expand(y, x, adt, var, n) for y in b.a[i])
        if na == b.a[i]:
            return b
        return mk(b.op, *(b.a[:i] + (na,)))
    return b


def const_of(o):
    if isinstance(o, bool):
        return BOOL(o)
    if isinstance(o, int):
        return INT(o)
    return STR(o)


_ord_memo = {}


def _case_ord(atom, brs, d):
    key = (atom, tuple(sorted(brs.items(), key=lambda kv: repr(kv[0]))), d)
    r = _ord_memo.get(key)
    if r is not None:
        return r
    ts = list(brs.values()) + ([d] if d is not None else [])
    first = ts[0]
    if all(t is first for t in ts):
        r = first
    else:
        defs = [t for t in ts if t is not UNDEF]
        tops = [t.a[0] for t in defs if t.op == "case"]
        m = min(tops) if tops else None
        if m is not None and m < atom:
            outs = set()
            hasd = False
            for t in defs:
                if t.op == "case" and t.a[0] is m:
                    outs |= set(o for o, _ in t.a[1])
                    hasd = hasd or t.a[2] is not None
            nb = {}
            for o in outs:
                nb[o] = _assume(_below(atom, brs, d, m, o), m, o, None) if DEEP[0] else \
                    _case_ord(atom, dict((k, assume(v, m, o)) for k, v in brs.items()), None if d is None else assume(d, m, o))
            nd = None
            if m.op == "val":
                nd = _case_ord(atom, dict((k, assume_not(v, m, outs)) for k, v in brs.items()),
                               None if d is None else assume_not(d, m, outs))
            r = _case_ord(m, nb, nd) if not _same_top(m, nb, nd) else _node(m, nb, nd)
        else:
            r = _node(atom, brs, d)
    _ord_memo[key] = r
    return r


def _below(atom, brs, d, m, o):
    """The decision on atom where m has the outcome o."""
    nb = dict((k, assume(v, m, o)) for k, v in brs.items())
    nd = None if d is None else assume(d, m, o)
    mm = _says(m, o)
    if mm and any(_has_sub(atom, x) for x in mm):
        return branch(rebuild_atom(atom, lambda y: subst(y, mm)), nb, nd)
    r = _case_ord(atom, nb, nd)
    return _settle(r, m, o) if m.op == "isle" or m.op == "iseq" and o is False else r


def _says(m, o):
    """What an outcome says about the value of a term."""
    if m.op == "val" and m.a[0].op in KNOWN:
        return {m.a[0]: const_of(o)}
    if m.op == "iseq" and o is True:
        x, y = m.a[1], m.a[0]
        if x.op not in KNOWN or _has_sub(y, x):
            x, y = y, x
        if x.op in KNOWN and not _has_sub(y, x):
            return {x: y}
    return None


def _same_top(m, nb, nd):
    # every branch is already free of atoms smaller than m at its top
    for t in list(nb.values()) + ([nd] if nd is not None else []):
        if t.op == "case" and t.a[0] < m:
            return False
    return True


def _node(atom, brs, d):
    """All tops are larger than atom: reduce, hoist constructors, build."""
    check_time()
    while d is not None and d.op == "case" and d.a[0] is atom:
        brs = dict(brs)
        for o, b in d.a[1]:
            brs.setdefault(o, b)
        d = d.a[2]
    if d is not None:
        brs = dict((o, b) for o, b in brs.items() if b is not d and not _implied(b, d, atom, o))
        if not brs:
            return d
    ts = list(brs.values()) + ([d] if d is not None else [])
    first = ts[0]
    if all(t is first for t in ts):
        return first
    defs = [t for t in ts if t is not UNDEF]
    if not defs:
        return UNDEF
    if d is None and all(t is defs[0] for t in defs) and len(defs) == len(ts):
        return defs[0]
    # eta: every branch rebuilds the scrutinee
    if atom.op == "discr" and d is None and len(defs) == len(ts):
        x = atom.a[1]
        if all(_is_eta(b, x, o) for o, b in brs.items()):
            return x
    if atom.op == "exists" and len(defs) == 2:
        f = mk("first", *atom.a)
        if _has_sub(brs[True], f) and subst(brs[True], {f: atom.a[1]}) is brs[False]:
            return brs[True]
    if atom.op == "iseq" and len(brs) == 2 and atom.a[0].op == "len" and atom.a[1].op == "len":
        w = _same_elements(atom, brs[True], brs[False])
        if w is not None:
            return w
    if atom.op == "isle" and len(defs) == 2:
        x, y = brs[True], brs[False]
        if x.op != "case" and y.op != "case" and (x.op in INTS or y.op in INTS):
            w = _smaller(atom.a[0], x, y)
            if w is not None:
                return w
    if DEEP[0] and atom.op == "isle" and len(brs) == 2:
        c, dl = _lin(atom.a[0])
        if len(dl) > 1:
            for o, k in ((True, 1), (False, -1)):
                a2 = mk("isle", _mklin(c + k, dl))
                if a2 in brs[o].atoms and _spine(brs[o], a2):
                    # both <= and < are asked: equal, or one of the two
                    mid = _assume(brs[o], a2, o is False, None)
                    yes = brs[True] if o is False else _assume(brs[True], a2, True, None)
                    no = brs[False] if o is True else _assume(brs[False], a2, False, None)
                    return ite(eq(_mklin(c + min(k, 0), dl), INT(0)), mid, mk_case(atom, {True: yes, False: no}, None))
    h = _hoist(atom, brs, d, defs)
    if h is not None:
        return h
    items = tuple(sorted(brs.items(), key=lambda kv: (str(type(kv[0])), kv[0])))
    t = mk("case", atom, items, d)
    if t.sz > LIMIT[0]:
        raise TooBig()
    return t


def _spine(x, atom):
    return x.op == "case" and (x.a[0] is atom or atom in x.atoms and (any(_spine(b, atom) for _, b in x.a[1]) or x.a[2] is not None and _spine(x.a[2], atom)))


INTS = KNOWN + ("int", "lin", "len", "min", "max", "first", "count")


def _smaller(e, x, y):
    """e <= 0 ? x : y  as the smaller or the larger of the two"""
    if x.op not in INTS or y.op not in INTS or not all(k is x or k is y or _part(k, x) or _part(k, y) for k in _lin(e)[1]):
        return None
    d = sub(x, y)
    if d is e or add(d, INT(1)) is e:
        return vmin(x, y)
    d = sub(y, x)
    if d is e or add(d, INT(1)) is e:
        return vmax(x, y)
    return None


def _part(k, x):
    return x.op == "lin" and k in _lin(x)[1]


def _implied(b, d, atom, o):
    """The default already says this for the outcome."""
    if atom.op != "val" or d is UNDEF or b is UNDEF or not _has_sub(d, atom.a[0]):
        return False
    return know(d, atom, o) is b


def _has_sub(t, x):
    k = (t, x)
    r = _sub_memo.get(k)
    if r is None:
        if t is x:
            r = True
        elif t.sz <= x.sz:
            r = False
        else:
            ch = []
            _flat(t.a, ch)
            r = any(_has_sub(c, x) for c in ch)
        _sub_memo[k] = r
    return r


def _same_elements(atom, yes, no):
    """As long and nowhere different: the same sequence."""
    ns = (atom.a[0], atom.a[1])
    for ex in sorted(x for x in yes.atoms if x.op == "exists"):
        tag, n, c = ex.a
        if not (n in ns or n.op == "min") or c.op != "case" or c.a[0].op != "iseq":
            continue
        if dict(c.a[1]) != {True: FALSE, False: TRUE}:
            continue
        seqs = []
        for e in c.a[0].a:
            if e.op == "at" and e.a[1] is mk("bv", tag) and tag not in e.a[0].fv:
                seqs.append((e.a[0], length(e.a[0])))
            elif e.op == "mkey" and e.a[1] is mk("bv", tag) and tag not in e.a[0].fv:
                seqs.append((mk("keys", e.a[0]), mk("len", e.a[0])))
        if len(seqs) == 2 and set(l for _, l in seqs) == set(ns) and (n in ns or n is vmin(*ns)) and assume(yes, ex, True) is no:
            return ite(eq(seqs[0][0], seqs[1][0]), assume(yes, ex, False), no)
    return None


def _is_eta(b, x, o):
    return b.op == "ctor" and b.a[1] == o and all(
        y.op == "vfield" and y.a[0] is x and y.a[1] == o and y.a[2] == i for i, y in enumerate(b.a[2]))


def _hoistable_payload(t):
    return t.op in HOIST


def _hoist(atom, brs, d, defs):
    op = defs[0].op
    if op == "struct" or any(t.op == "struct" for t in defs):
        s = next(t for t in defs if t.op == "struct")
        n = len(s.a[1])
        if all((t.op == "struct" and t.a[0] == s.a[0] and len(t.a[1]) == n) or t.op not in ("struct", "case", "ctor") for t in defs):
            fs = []
            for i in range(n):
                fs.append(_case_ord(atom, dict((o, _sf(b, i, s.a[0])) for o, b in brs.items()),
                                    None if d is None else _sf(d, i, s.a[0])))
            return mk("struct", s.a[0], tuple(fs))
        return None
    if all(t.op == "ctor" for t in defs) and len(set((t.a[0], t.a[1]) for t in defs)) == 1:
        n = len(defs[0].a[2])
        if n and all(any(_hoistable_payload(t.a[2][i]) for t in defs) or all(t.a[2][i] is defs[0].a[2][i] for t in defs)
                     for i in range(n)):
            fs = []
            for i in range(n):
                fs.append(_case_ord(atom, dict((o, _cf(b, i)) for o, b in brs.items()),
                                    None if d is None else _cf(d, i)))
            return mk("ctor", defs[0].a[0], defs[0].a[1], tuple(fs))
        return None
    if all(t.op == "case" for t in defs) and len(set(t.a[0] for t in defs)) == 1 and len(defs) == len(brs) + (d is not None):
        # same next decision everywhere: hoist below it when no branch needs this atom on top
        m = defs[0].a[0]
        outs = set()
        for t in defs:
            outs |= set(o for o, _ in t.a[1])
        nb = {}
        nd = None
        if m.op == "val":
            nd = _case_ord(atom, dict((k, assume_not(v, m, outs)) for k, v in brs.items()),
                           None if d is None else assume_not(d, m, outs))
            if _tops_with(nd, atom):
                return None
        for o in outs:
            r = _assume(_below(atom, brs, d, m, o), m, o, None) if DEEP[0] else \
                _case_ord(atom, dict((k, assume(v, m, o)) for k, v in brs.items()), None if d is None else assume(d, m, o))
            if DEEP[0] and nd is not None and nd is not UNDEF and r is know(nd, m, o):
                # the default says this already
                continue
            if _tops_with(r, atom):
                return None
            nb[o] = r
        if not nb:
            return nd
        return _case_ord(m, nb, nd)
    if DEEP[0] and len(defs) == 2 == len(brs) + (d is not None) and (
            all(t.op in ("lv", "ln") for t in defs) or
            all(t.op == "case" and t.a[0].op == "lfound" for t in defs) and defs[0].a[0] is not defs[1].a[0]):
        w = _woven(atom, brs, d)
        if w is not None:
            return w
    if DEEP[0] and defs[0].op == "put" and len(defs) == len(brs) + (d is not None) and all(t.op == "put" and t.a[0] is defs[0].a[0] for t in defs):
        # the same entry of the same map, whatever is stored
        k = (d if d is not None else brs.get(False, defs[0])).a[1]
        if all(b.a[1] is k or know(k, atom, o) is b.a[1] for o, b in brs.items()):
            return put(defs[0].a[0], k, _case_ord(atom, dict((o, b.a[2]) for o, b in brs.items()), None if d is None else d.a[2]))
    if any(t.op == "seq" for t in defs) and all(_setlike(t, "set") for t in defs):
        return seq_case(atom, brs, d)
    if any(t.op == "set" for t in defs) and all(_setlike(t) for t in defs):
        return set_case(atom, brs, d)
    return None


def _woven(atom, brs, d):
    """One loop that asks on its own, for two that differ in what this decision says."""
    (o, x), *more = brs.items()
    y = more[0][1] if more else d
    keys = [o] + [q for q, _ in more]
    lim = [400]

    def many(p, q):
        if len(p) != len(q):
            raise _No()
        return tuple(any_(u, v) for u, v in zip(p, q))

    def any_(p, q):
        if isinstance(p, T) and isinstance(q, T):
            return go(p, q)
        if isinstance(p, tuple) and isinstance(q, tuple):
            return many(p, q)
        if p != q or type(p) is not type(q):
            raise _No()
        return p

    def leaf(p, q):
        return mk_case(atom, {keys[0]: p, keys[1]: q} if more else {keys[0]: p}, None if more else q)

    memo = {}

    def go(p, q):
        if p is q:
            return p
        k = (p, q)
        if k not in memo:
            lim[0] -= 1
            if lim[0] < 0:
                raise _No()
            check_time()
            memo[k] = go2(p, q)
        return memo[k]

    def go2(p, q):
        if p.op != q.op or p.op in ("int", "bool", "lit", "str", "undef", "bv", "cv", "sym"):
            return leaf(p, q)
        try:
            if p.op == "case":
                if p.a[0] is q.a[0]:
                    at_ = p.a[0]
                elif p.a[0].op == q.a[0].op in ("lfound", "isle", "iseq", "exists", "has"):
                    at_ = go(p.a[0], q.a[0])
                else:
                    return leaf(p, q)
                if [b[0] for b in p.a[1]] != [b[0] for b in q.a[1]] or (p.a[2] is None) != (q.a[2] is None):
                    return leaf(p, q)
                nb = dict((b[0], go(b[1], c[1])) for b, c in zip(p.a[1], q.a[1]))
                if at_ is p.a[0]:
                    return mk_case(at_, nb, None if p.a[2] is None else go(p.a[2], q.a[2]))
                return ite(at_ if at_.op == "case" else batom(at_), nb[True], nb[False])
            if p.op == "lv":
                if p.a[1] != q.a[1]:
                    return leaf(p, q)
                lp, order = loop(p.a[0], q.a[0])
                return mk("lv", lp, order[p.a[1]])
            if p.op in ("ln", "lfound"):
                return mk(p.op, loop(p.a[0], q.a[0])[0])
            if p.op == "hv":
                return leaf(p, q)
            if p.op in BINDERS:
                tmp = fresh()
                return close(p.op, tmp, many(open_(p.a[1:], p.a[0], tmp), open_(q.a[1:], q.a[0], tmp)))
            return make(p.op, *many(p.a, q.a))
        except _No:
            if lim[0] < 0:
                raise
            return leaf(p, q)

    def loop(p, q):
        if p is q:
            return p, range(1 << 20)
        if p.op != "loop" or q.op != "loop":
            raise _No()
        tmp = fresh()
        return sorted_loop(tmp, many(open_(p.a[1:], p.a[0], tmp), open_(q.a[1:], q.a[0], tmp)))

    key = (atom, x, y, tuple(keys))
    if key not in _woven_memo:
        r = None
        _woven_memo[key] = None
        try:
            r = go(x, y)
            if r.op == "case" and r.a[0] is atom or assume(r, atom, keys[0]) is not x or \
                    (assume(r, atom, keys[1]) if more else assume_not(r, atom, keys)) is not y:
                r = None
        except (_No, KeyError, IndexError):
            r = None
        _woven_memo[key] = r
    return _woven_memo[key]


_woven_memo = {}


def _setlike(t, no="seq"):
    if t.op == "case":
        return all(l is UNDEF or _setlike(l, no) for l in _case_leaves(t))
    return t.op not in ("ctor", "struct", no, "bool", "int", "lin", "sq", "put", "map0", "mapof")


def _tops_with(t, atom):
    if t.op != "case":
        return False
    if t.a[0] is atom:
        return True
    return any(_tops_with(b, atom) for _, b in t.a[1]) or (t.a[2] is not None and _tops_with(t.a[2], atom))


def _sf(b, i, adt):
    if b is UNDEF:
        return UNDEF
    if b.op == "struct":
        return b.a[1][i]
    return mk("field", b, i)


def _cf(b, i):
    return UNDEF if b is UNDEF else b.a[2][i]


# ---- lifting of operations over decision nodes
def lift(f, *ts):
    """Apply f to the leaves of the decision nodes among ts."""
    tops = [t.a[0] for t in ts if t.op == "case"]
    if not tops:
        if any(t is UNDEF for t in ts):
            return UNDEF
        return f(*ts)
    m = min(tops)
    outs = set()
    for t in ts:
        if t.op == "case" and t.a[0] is m:
            outs |= set(o for o, _ in t.a[1])
    nb = {}
    for o in outs:
        nb[o] = lift(f, *[assume(t, m, o) for t in ts])
    nd = None
    if m.op == "val":
        nd = lift(f, *[assume_not(t, m, outs) for t in ts])
    return mk_case(m, nb, nd)


# ---------------------------------------------------------------- booleans
def batom(t):
    """A boolean value from an opaque boolean term."""
    if t is TRUE or t is FALSE:
        return t
    return mk("case", t, ((False, FALSE), (True, TRUE)), None)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c is UNDEF:
        return UNDEF
    if a is b:
        return a
    if c.op != "case":
        c = batom(c)
    atom, brs, d = c.a
    nb = {}
    for o, x in brs:
        nb[o] = ite(x, assume(a, atom, o), assume(b, atom, o))
    nd = None
    if d is not None:
        outs = [o for o, _ in brs]
        nd = ite(d, assume_not(a, atom, outs), assume_not(b, atom, outs))
    return mk_case(atom, nb, nd)


def NOT(a):
    return ite(a, FALSE, TRUE)


def AND(a, b):
    if a is TRUE:
        return b
    if a is FALSE or b is FALSE:
        return FALSE
    return prune(ite(a, b, FALSE))


def OR(a, b):
    if a is FALSE:
        return b
    if a is TRUE or b is TRUE:
        return TRUE
    return ite(a, TRUE, b)


_prune_memo = {}


def prune(t):
    return t


def _undef(x, memo):
    """Whether a leaf is UNDEF."""
    r = memo.get(x)
    if r is None:
        r = memo[x] = x is UNDEF or x.op == "case" and (any(_undef(b, memo) for _, b in x.a[1]) or x.a[2] is not None and _undef(x.a[2], memo))
    return r


class _No(Exception):
    pass


def _join(x, y, cx, cy, memo, um):
    """The value that is x where x says something and y where y does; cx, cy: what holds where x and y count."""
    if x is UNDEF or x is y:
        return y
    if y is UNDEF:
        return x
    k = (x, y)
    if k in memo:
        return memo[k]
    if len(memo) > 200 or not (_undef(x, um) or _undef(y, um)):
        raise _No()
    check_time()
    m = min(t.a[0] for t in (x, y) if t.op == "case")
    outs = set()
    for t in (x, y):
        if t.op == "case" and t.a[0] is m:
            outs |= set(o for o, _ in t.a[1])

    def both(f):
        p, q = f(x), f(y)
        if cx is not None:
            p, q = cx(p), cy(q)
        return _join(p, q, cx, cy, memo, um)
    nb = dict((o, both(lambda z: assume(z, m, o))) for o in outs)
    nd = both(lambda z: assume_not(z, m, outs)) if m.op == "val" else None
    r = memo[k] = mk_case(m, nb, nd)
    return r


def collapse(t):
    """Remove don't-care branches: a decision whose other branches all agree is no decision."""
    memo = {}
    um = {}

    def go(x):
        if x.op != "case":
            return x
        r = memo.get(x)
        if r is not None:
            return r
        atom, brs, d = x.a
        raw = [b for _, b in brs] + ([d] if d is not None else [])
        if DEEP[0] and x.sz < 20000 and any(b.op == "case" and _undef(b, um) for b in raw):
            try:
                j = raw[0]
                cs = [lambda z, o=o: _assume(z, atom, o, None) for o, _ in brs]
                if d is not None:
                    cs.append(lambda z: _assume(z, atom, None, frozenset(o for o, _ in brs)))
                for n, b in enumerate(raw[1:]):
                    j = _join(j, b, cs[0] if n == 0 else None, cs[1] if n == 0 else None, {}, um)
                r = memo[x] = go(j)
                return r
            except _No:
                pass
        nb = [(o, go(b)) for o, b in brs]
        nd = None if d is None else go(d)
        live = [b for _, b in nb if b is not UNDEF] + ([nd] if nd is not None and nd is not UNDEF else [])
        if not live:
            r = UNDEF
        elif all(b is live[0] for b in live):
            r = live[0]
        elif nd is UNDEF:
            # no default: the most frequent... keep the largest outcome as the default
            nb = sorted(((o, b) for o, b in nb if b is not UNDEF), key=lambda kv: repr(kv[0]))
            r = _case_ord(atom, dict(nb), UNDEF)
        else:
            r = _case_ord(atom, dict(nb), nd)
        memo[x] = r
        return r

    if t.op == "struct":
        return mk("struct", t.a[0], tuple(collapse(y) for y in t.a[1]))
    return go(t)


def force(x, pc):
    """x where pc holds: decisions that pc settles are taken."""
    if pc.op != "case":
        return x
    for a in sorted(pc.atoms):
        if a not in x.atoms:
            continue
        if a.op == "val":
            outs = set()
            for y in collect(x, lambda y: y.op == "case" and y.a[0] is a):
                outs |= set(o for o, _ in y.a[1])
            dead = [o for o in outs if assume(pc, a, o) is FALSE]
            if dead:
                x = assume_not(x, a, dead)
            for o in outs:
                if o not in dead and assume_not(pc, a, (o,)) is FALSE:
                    x = assume(x, a, o)
        elif a.op == "discr":
            vs = variants_of(a.a[0])
            live = [v for v in vs or () if assume(pc, a, v) is not FALSE]
            if len(live) == 1:
                x = assume(x, a, live[0])
        else:
            if assume(pc, a, True) is FALSE:
                x = assume(x, a, False)
            elif assume(pc, a, False) is FALSE:
                x = assume(x, a, True)
    if DEEP[0] and x.op == "case" and x.sz < 2000 and any(a.op == "val" and a.a[0].op in KNOWN and _has_sub(pc, a.a[0]) for a in x.atoms):
        # what holds may read differently where more is known
        atom, brs, d = x.a
        return mk_case(atom, dict((o, force(b, know(assume(pc, atom, o), atom, o))) for o, b in brs),
                       None if d is None else force(d, pc))
    return x


# ---------------------------------------------------------------- enums and structs
def ctor(adt, var, args=()):
    def f(*xs):
        return mk("ctor", adt, var, tuple(xs))
    if not args:
        return mk("ctor", adt, var, ())
    # scalar decisions are lifted out of a payload, containers stay inside
    return _lift_some(f, list(args))


def _lift_some(f, args):
    tops = [t.a[0] for t in args if t.op == "case"]
    if not tops:
        if any(t is UNDEF for t in args):
            return UNDEF
        return f(*args)
    m = min(tops)
    outs = set()
    for t in args:
        if t.op == "case" and t.a[0] is m:
            outs |= set(o for o, _ in t.a[1])
    nb = {}
    for o in outs:
        nb[o] = _lift_some(f, [assume(t, m, o) for t in args])
    nd = None
    if m.op == "val":
        nd = _lift_some(f, [assume_not(t, m, outs) for t in args])
    return mk_case(m, nb, nd)


OPT = "core::option::Option"
RES = "core::result::Result"


def SOME(x):
    return ctor(OPT, "Some", (x,))


NONE = mk("ctor", OPT, "None", ())


def OKV(x):
    return ctor(RES, "Ok", (x,))


def struct(adt, args):
    if adt != "tuple" and len(args) == 1:
        return args[0]          # newtypes are transparent
    return mk("struct", adt, tuple(args))


def tup(*xs):
    return mk("struct", "tuple", tuple(xs))


def switch_discr(x, adt, brs, d=None):
    if x.op == "case":
        def f(l):
            return switch_discr(l, adt, brs, d)
        # lift through the decision on x
        atom, b2, d2 = x.a
        nb = {}
        outs = [o for o, _ in b2]
        for o, y in b2:
            nb[o] = switch_discr(y, adt, dict((k, assume(v, atom, o)) for k, v in brs.items()),
                                 None if d is None else assume(d, atom, o))
        nd = None
        if d2 is not None:
            nd = switch_discr(d2, adt, dict((k, assume_not(v, atom, outs)) for k, v in brs.items()),
                              None if d is None else assume_not(d, atom, outs))
        return mk_case(atom, nb, nd)
    if x is UNDEF:
        return UNDEF
    if x.op == "ctor":
        r = brs.get(x.a[1], d)
        return UNDEF if r is None else r
    return mk_case(mk("discr", adt, x), brs, d)


def switch_val(x, brs, d):
    if x.op == "case":
        atom, b2, d2 = x.a
        nb = {}
        outs = [o for o, _ in b2]
        for o, y in b2:
            nb[o] = switch_val(y, dict((k, assume(v, atom, o)) for k, v in brs.items()),
                               None if d is None else assume(d, atom, o))
        nd = None
        if d2 is not None:
            nd = switch_val(d2, dict((k, assume_not(v, atom, outs)) for k, v in brs.items()),
                            None if d is None else assume_not(d, atom, outs))
        return mk_case(atom, nb, nd)
    if x is UNDEF:
        return UNDEF
    if x.op == "int":
        r = brs.get(x.a[0], d)
        return UNDEF if r is None else r
    s = str_const(x)
    if s is not None:
        r = brs.get(s, d)
        return UNDEF if r is None else r
    if x.op == "lin":
        # x + c == v  <=>  x == v - c
        c, ts = x.a
        if len(ts) == 1 and ts[0][1] == 1:
            nb = {}
            for o, b in brs.items():
                if o - c >= 0:
                    nb[o - c] = b
            return switch_val(ts[0][0], nb, d) if nb else (d if d is not None else UNDEF)
        if len(ts) > 1:
            r = d if d is not None else UNDEF
            for o, b in sorted(brs.items(), reverse=True):
                r = ite(eq(x, INT(o)), b, r)
            return r
    brs = dict((o, b) for o, b in brs.items() if not _never_const(x, o))
    if not brs:
        return d if d is not None else UNDEF
    if x.op == "len" and list(brs) == [0] and x.a[0].op in ("seq", "set"):
        some = nonempty(x.a[0].a[0])
        if some is not None:
            return ite(some, d if d is not None else UNDEF, brs[0])
    return mk_case(mk("val", x), brs, d if d is not None else UNDEF)


def _never_const(x, o):
    if o == MAX_USIZE:
        return x.op in ("len", "bv") or (x.op == "lin" and x.a[0] > 0)
    return False


def vfield(x, var, i):
    def f(l):
        if l.op == "ctor":
            if l.a[1] == var and i < len(l.a[2]):
                return l.a[2][i]
            return UNDEF
        return mk("vfield", l, var, i)
    if x.op == "case":
        return collapse(lift(f, x))
    return lift(f, x)


def field(x, i, adt=None):
    if adt is not None and adt != "tuple":
        d = ADTS.get(adt)
        if d and not d["enum"] and len(d["variants"][0]["fields"]) == 1:
            return x

    def f(l):
        if l.op == "struct":
            return l.a[1][i]
        return mk("field", l, i)
    return lift(f, x)


def is_variant(x, adt, var):
    return switch_discr(x, adt, {var: TRUE}, FALSE)


# ---------------------------------------------------------------- integers
def _lin(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return INT(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda kv: (kv[0].sz, kv[0].dg))))


def add(a, b):
    def f(x, y):
        c1, d1 = _lin(x)
        c2, d2 = _lin(y)
        for k, v in d2.items():
            d1[k] = d1.get(k, 0) + v
        return _mklin(c1 + c2, d1)
    return lift(f, a, b)


def mulc(a, n):
    def f(x):
        c, d = _lin(x)
        return _mklin(c * n, {k: v * n for k, v in d.items()})
    return lift(f, a)


def sub(a, b):
    return add(a, mulc(b, -1))


def mul(a, b):
    def f(x, y):
        if x.op == "int":
            return mulc(y, x.a[0])
        if y.op == "int":
            return mulc(x, y.a[0])
        return mk("op", "mul", tuple(sorted((x, y))))
    return lift(f, a, b)


NONNEG = ("len", "bv", "sym", "cv", "at", "field", "vfield", "mkey", "mval", "get", "blen", "call", "op",
          "ret", "mut", "count", "first", "ext", "out", "min", "max")


def nonempty(ps):
    """Whether parts put at least one element; None when they are not all of a kind that says so."""
    if not any(p.op in ("rep", "gp", "alt") for p in ps):
        return None
    r = FALSE
    for q in ps:
        if q.op == "e":
            return TRUE
        if q.op == "lit":
            if q.a[0]:
                return TRUE
        elif q.op == "sp":
            r = OR(r, lt(INT(0), length(q.a[0])))
        elif q.op == "rep":
            if q.a[2] is not FALSE:
                return None
            if q.a[3].op not in ("seq", "set"):
                return None
            t2 = fresh()
            oa = open_(q.a[1:], q.a[0], t2)
            y = _some_of(oa[2])
            if y is None:
                return None
            r = OR(r, exists(t2, oa[0], y))
        elif q.op == "gp":
            y = _some([q.a[1]])
            if y is None:
                return None
            r = OR(r, AND(q.a[0], y))
        elif q.op == "alt":
            y = _some_of(q.a[0])
            if y is None:
                return None
            r = OR(r, y)
        else:
            return None
    return r


def _some(ps):
    if any(p.op in ("rep", "gp", "alt") for p in ps):
        return nonempty(ps)
    r = FALSE
    for q in ps:
        if q.op == "e" or q.op == "lit" and q.a[0]:
            return TRUE
        if q.op == "sp":
            r = OR(r, lt(INT(0), length(q.a[0])))
        elif q.op != "lit":
            return None
    return r


def _only(g):
    """The element of a part that puts at most one."""
    if g.op == "e":
        return g.a[0]
    if g.op == "gp":
        return _only(g.a[1])
    if g.op != "alt":
        return None
    bad = []

    def leaf(x):
        if x.op == "case":
            return branch(rebuild_atom(x.a[0], lambda y: y), dict((o, leaf(b)) for o, b in x.a[1]),
                          None if x.a[2] is None else leaf(x.a[2]))
        ps = seq_parts(x) if x is not UNDEF else []
        if not ps:
            return UNDEF
        y = _only(ps[0]) if len(ps) == 1 else None
        if y is None:
            bad.append(x)
            return UNDEF
        return y
    r = leaf(g.a[0])
    return None if bad or r is UNDEF else r


def _some_of(x):
    if x.op == "case":
        bs = [(o, _some_of(b)) for o, b in x.a[1]]
        d = None if x.a[2] is None else _some_of(x.a[2])
        if any(b is None for _, b in bs) or (x.a[2] is not None and d is None):
            return None
        return branch(rebuild_atom(x.a[0], lambda y: y), dict(bs), d)
    if x is UNDEF:
        return FALSE
    if x.op not in ("seq", "set"):
        return None if x.op in ("rep", "gp", "alt", "unk") else lt(INT(0), length(x))
    return _some(x.a[0])


def le0(e):
    """e <= 0 for an integer expression over non-negative terms."""
    def f(x):
        c, d = _lin(x)
        if not d:
            return BOOL(c <= 0)
        if all(v > 0 for v in d.values()):
            if c > 0:
                return FALSE
            if c == 0 and len(d) == 1:
                (k, _), = d.items()
                return switch_val(k, {0: TRUE}, FALSE)
        if all(v < 0 for v in d.values()) and c <= 0:
            return TRUE
        if all(v < 0 for v in d.values()) and c == 1 and len(d) == 1:
            (k, v), = d.items()
            return switch_val(k, {0: FALSE}, TRUE)
        ks = sorted(d.items(), key=lambda kv: (kv[0].sz, kv[0].dg))
        if ks[0][1] < 0:
            # -L + 1 <= 0 is the negation of L <= 0
            return NOT(le0(_mklin(1 - c, {k: -v for k, v in d.items()})))
        return batom(mk("isle", _mklin(c, d)))
    return lift(f, e)


def lt(a, b):
    return le0(add(sub(a, b), INT(1)))


def le(a, b):
    return le0(sub(a, b))


_adt_hint = {}


def eq(a, b):
    if a is b:
        return TRUE

    def f(x, y):
        if x is y:
            return TRUE
        if x.op == "bool" and y.op == "bool":
            return BOOL(x is y)
        if x.op == "ctor" and y.op == "ctor":
            if x.a[1] != y.a[1]:
                return FALSE
            r = TRUE
            for p, q in zip(x.a[2], y.a[2]):
                r = AND(r, eq(p, q))
            return r
        if x.op == "ctor" or y.op == "ctor":
            if y.op == "ctor":
                x, y = y, x
            r = TRUE
            for i, p in enumerate(x.a[2]):
                r = AND(r, eq(p, mk("vfield", y, x.a[1], i)))
            return switch_discr(y, x.a[0], {x.a[1]: r}, FALSE)
        if x.op == "struct" and y.op == "struct":
            r = TRUE
            for p, q in zip(x.a[1], y.a[1]):
                r = AND(r, eq(p, q))
            return r
        if x.op == "struct" or y.op == "struct":
            if y.op == "struct":
                x, y = y, x
            r = TRUE
            for i, p in enumerate(x.a[1]):
                r = AND(r, eq(p, field(y, i)))
            return r
        for p, q in ((x, y), (y, x)):
            if p.op == "int" and not (q.op == "lin" and len(q.a[1]) > 1):
                return switch_val(q, {p.a[0]: TRUE}, FALSE)
            s = str_const(p)
            if s is not None:
                if str_const(q) is not None:
                    return BOOL(s == str_const(q))
                if s == "" :
                    return switch_val(length(q), {0: TRUE}, FALSE)
                return switch_val(q, {s: TRUE}, FALSE)
        if x.op == "lin" or y.op == "lin":
            c, d = _lin(x)
            c2, d2 = _lin(y)
            for k, v in d2.items():
                d[k] = d.get(k, 0) - v
            d = {k: v for k, v in d.items() if v}
            c -= c2
            if not d:
                return BOOL(c == 0)
            if all(v > 0 for v in d.values()) and c > 0:
                return FALSE
            if all(v < 0 for v in d.values()) and c < 0:
                return FALSE
            if len(d) == 1:
                (k, v), = d.items()
                if v in (1, -1):
                    return switch_val(k, {-c * v: TRUE}, FALSE) if -c * v >= 0 else FALSE
            pos = {k: v for k, v in d.items() if v > 0}
            neg = {k: -v for k, v in d.items() if v < 0}
            l = _mklin(c if c > 0 else 0, pos)
            r = _mklin(-c if c < 0 else 0, neg)
            l, r = sorted((l, r))
            return batom(mk("iseq", l, r))
        l, r = sorted((x, y))
        return batom(mk("iseq", l, r))
    if a.op == "case" and b.op == "case" and _isbool(a) and _isbool(b):
        return ite(a, b, NOT(b))
    if _isbool(a) and b.op == "bool":
        return a if b is TRUE else NOT(a)
    if _isbool(b) and a.op == "bool":
        return b if a is TRUE else NOT(b)
    return lift(f, a, b)


def _isbool(t):
    while t.op == "case":
        t = t.a[1][0][1]
    return t.op == "bool"


# ---------------------------------------------------------------- sequences
def E(x):
    return mk("e", x)


def seq_parts(s):
    if s.op == "seq":
        return list(s.a[0])
    return [mk("sp", s)]


def _norm_part(p):
    """A part as a list of parts."""
    if p.op == "sp":
        x = p.a[0]
        if x.op == "seq":
            return list(x.a[0])
        if x is UNDEF:
            return [p]
        if x.op == "case":
            return _alt(x)
        return [p]
    if p.op == "alt":
        return _alt(p.a[0])
    if p.op == "lit" and p.a[0] == "":
        return []
    if p.op == "e" and p.a[0].op == "int" and (0 <= p.a[0].a[0] < 0xd800 or 0xdfff < p.a[0].a[0] < 0x110000):
        return [mk("lit", chr(p.a[0].a[0]))]
    if p.op == "e" and p.a[0].op == "chr":
        return [mk("lit", p.a[0].a[0])]
    if p.op == "rep":
        return _norm_rep(p)
    return [p]


def _norm_rep(p):
    tag, n, stop, body = p.a
    body = mk_seq_keep(body)
    if not body.a[0]:
        return []
    if n.op == "int" and n.a[0] == 0:
        return []
    if n.op == "case":
        return _alt(lift_keep(lambda x: SEQ([mk("rep", tag, x, stop, body)]), n))
    i = mk("bv", tag)
    if n.op == "int" and n.a[0] == 1:
        return list(mk_seq_keep(subst(body, {i: INT(0)})).a[0])
    # copy of a sequence
    if len(body.a[0]) == 1 and body.a[0][0].op == "e":
        x = body.a[0][0].a[0]
        if x.op == "at" and x.a[1] is i and tag not in x.a[0].fv and n is length(x.a[0]):
            return list(seq_parts(x.a[0]))
    f = _fuse(tag, n, body, "seq")
    if f is not None:
        return f
    if stop is FALSE and len(body.a[0]) > 1 and body.a[0][-1].op == "alt":
        y = _between(tag, n, body)
        if y is not None:
            return _norm_rep(mk("rep", tag, n, stop, y))
    if len(body.a[0]) == 1 and body.a[0][0].op == "e":
        x = body.a[0][0].a[0]
        if x.op == "at" and tag not in x.a[0].fv and x.a[0].op not in ("set", "seqmut"):
            lo = sub(x.a[1], i)
            if tag not in lo.fv and lo.op != "case":
                return list(seq_parts(slice_(x.a[0], lo, add(lo, n))))
    return [mk("rep", tag, n, stop, body)]


def _between(tag, n, body):
    """What every round but the last one ends with begins every round but the first one."""
    c = body.a[0][-1].a[0]
    i = mk("bv", tag)
    d = lt(i, sub(n, INT(1)))
    if c.op != "case" or d.op != "case" or c.a[0] is not d.a[0] or len(c.a[1]) != 2:
        return None
    last = dict((o, dict(d.a[1]).get(o) is not TRUE) for o, _ in c.a[1])
    sep = [x for o, x in c.a[1] if not last[o]]
    if len(sep) != 1 or tag in sep[0].fv or sep[0].op != "seq" or any(x.op != "seq" or x.a[0] for o, x in c.a[1] if last[o]):
        return None
    return SEQ(seq_parts(ite(lt(INT(0), i), sep[0], EMPTY)) + list(body.a[0][:-1]))



def lift_keep(f, n):
    if n.op != "case":
        return f(n)
    return _raw_case(n.a[0], [(o, lift_keep(f, b)) for o, b in n.a[1]], None if n.a[2] is None else lift_keep(f, n.a[2]))


def _fuse(tag, n, body, kind):
    """A loop over a composite sequence becomes the loops over its parts."""
    i = mk("bv", tag)
    srcs = collect(body, lambda t: t.op == "at" and t.a[1] is i and tag not in t.a[0].fv and
                   t.a[0].op in ("seq",) + (("set",) if kind == "set" else ()))
    for at_ in srcs:
        s = at_.a[0]
        if n is not length(s):
            continue
        tmp = fresh()
        ph = mk("sym", "@" + tmp)
        b2 = subst(body, {at_: ph})
        if tag in b2.fv:
            continue
        out = []
        mkseq = mk_seq_keep if kind == "seq" else _setkeep

        def inst(x):
            return subst(b2, {ph: x})

        def parts(ps):
            r = []
            for q in ps:
                if q.op == "e":
                    r += list(mkseq(inst(q.a[0])).a[0])
                elif q.op == "lit":
                    for c in q.a[0]:
                        r += list(mkseq(inst(INT(ord(c)))).a[0])
                elif q.op == "sp":
                    t2 = fresh()
                    r.append(close("rep", t2, (length(q.a[0]), FALSE, inst(at(q.a[0], mk("bv", t2))))))
                elif q.op == "rep":
                    t2 = fresh()
                    oa = open_(q.a[1:], q.a[0], t2)
                    r.append(close("rep", t2, (oa[0], FALSE, mk(kind, tuple(parts(list(oa[2].a[0])))))))
                elif q.op == "gp":
                    for z in parts([q.a[1]]):
                        r.append(mk("gp", q.a[0], z))
                elif q.op == "alt":
                    def leaf(x):
                        return mkseq((SEQ if kind == "seq" else SETV)(parts(seq_parts(x) if x.op != "set" else list(x.a[0]))))
                    r.append(mk("alt", _raw_map(q.a[0], leaf)))
            return r
        ps = parts(list(s.a[0]))
        for q in ps:
            out += _norm_part(q) if kind == "seq" else _setp(q)
        return out
    # a loop over one of several sequences becomes a choice between the loops over each
    if n.op == "len" and n.a[0].op == "seq" and len(n.a[0].a[0]) == 1:
        s, q = n.a[0], n.a[0].a[0][0]
        if q.op == "alt":
            def one(l):
                t2 = fresh()
                r = close("rep", t2, (length(l), FALSE, rename(subst(body, {s: l}), tag, t2)))
                return mk_seq_keep(SEQ([r])) if kind == "seq" else _setkeep(SETV([r]))
            c = _raw_map(q.a[0], one)
            return list(_alt(c)) if kind == "seq" else list(_set_alt(c))
        if q.op == "rep" and tag not in body.fv:
            # as many times as the inner loop has elements
            t2 = fresh()
            n2, stop2, b2 = open_(q.a[1:], q.a[0], t2)
            if b2.op == "seq":
                def times(l):
                    t3 = fresh()
                    r = close("rep", t3, (length(l), FALSE, body))
                    return mk_seq_keep(SEQ([r])) if kind == "seq" else _setkeep(SETV([r]))
                if len(b2.a[0]) == 1 and b2.a[0][0].op == "alt":
                    c = _raw_map(b2.a[0][0].a[0], times)
                    inner = _alt(c) if kind == "seq" else _set_alt(c)
                else:
                    inner = times(b2).a[0]
                r = close("rep", t2, (n2, FALSE, mk(kind, tuple(inner))))
                return list(_norm_part(r)) if kind == "seq" else list(_setp(r))
    return None


_alt_memo = {}


def _case_map(c, f):
    """Map the leaves of a decision, with the decisions in canonical order."""
    memo = {}

    def go(x):
        if x.op != "case":
            return f(x) if x is not UNDEF else UNDEF
        r = memo.get(x)
        if r is None:
            r = memo[x] = branch(rebuild_atom(x.a[0], lambda y: y), dict((o, go(b)) for o, b in x.a[1]),
                                 None if x.a[2] is None else go(x.a[2]))
        return r
    return go(c)


def _raw_map(c, f):
    """Map the leaves of a decision, keeping its shape."""
    memo = {}

    def go(x):
        if x.op != "case":
            return f(x) if x is not UNDEF else UNDEF
        r = memo.get(x)
        if r is None:
            r = memo[x] = _raw_case(x.a[0], [(o, go(b)) for o, b in x.a[1]], None if x.a[2] is None else go(x.a[2]))
        return r
    return go(c)


def _case_leaves(c):
    out = []
    seen = set()

    def go(x):
        if x.op == "case":
            if x in seen:
                return
            seen.add(x)
            for _, b in x.a[1]:
                go(b)
            if x.a[2] is not None:
                go(x.a[2])
        elif x not in seen:
            seen.add(x)
            out.append(x)
    go(c)
    return out


def _alt(c):
    """Parts of a decision between sequences."""
    if c.op != "case":
        return seq_parts(c)
    r = _alt_memo.get(c)
    if r is None:
        r = _alt_memo[c] = _alt0(c)
    return list(r)


def _alt0(c):
    def flat(l):
        # a leaf that is nothing but another decision
        if l.op == "seq" and len(l.a[0]) == 1 and l.a[0][0].op == "alt":
            return _case_map(l.a[0][0].a[0], flat)
        return mk("sq", l)
    c = _case_map(c, flat)
    c = _raw_map(c, lambda l: l.a[0])
    if c.op != "case":
        return seq_parts(c) if c is not UNDEF else [mk("sp", UNDEF)]
    leaves = [_explode(seq_parts(l)) for l in _case_leaves(c) if l is not UNDEF]
    if not leaves:
        return [mk("sp", UNDEF)]
    if not any(leaves):
        return []
    pre = []
    while all(len(l) > len(pre) for l in leaves) and all(l[len(pre)] is leaves[0][len(pre)] for l in leaves):
        pre.append(leaves[0][len(pre)])
    suf = []
    m = min(len(l) for l in leaves) - len(pre)
    while len(suf) < m and all(l[-1 - len(suf)] is leaves[0][-1 - len(suf)] for l in leaves):
        suf.insert(0, leaves[0][-1 - len(suf)])
    n, k = len(pre), len(suf)
    if not n and not k:
        return [mk("alt", _raw_map(c, lambda l: mk("seq", tuple(seq_parts(l)))))]
    def cut(l):
        ps = _explode(seq_parts(l))
        return mk("seq", tuple(_implode(ps[n:len(ps) - k])))
    mid = _raw_map(c, cut)
    return _implode(pre) + _alt(mid) + _implode(suf)


def _explode(ps):
    """Literals as single characters."""
    out = []
    for p in ps:
        if p.op == "lit" and len(p.a[0]) > 1:
            out += [mk("lit", ch) for ch in p.a[0]]
        else:
            out.append(p)
    return out


def _implode(ps):
    out = []
    for p in ps:
        if p.op == "lit" and out and out[-1].op == "lit":
            out[-1] = mk("lit", out[-1].a[0] + p.a[0])
        else:
            out.append(p)
    return out


def _all_leaves_opaque(x):
    return False


def _raw_case(atom, items, d):
    """A decision node between sequences; the tops are in order already."""
    if d is not None:
        items = [(o, b) for o, b in items if b is not d]
        if not items:
            return d
    ts = [b for _, b in items] + ([d] if d is not None else [])
    if all(t is ts[0] for t in ts):
        return ts[0]
    return mk("case", atom, tuple(sorted(items, key=lambda kv: (str(type(kv[0])), kv[0]))), d)


def seq_case(atom, brs, d):
    def wrap(t):
        if t.op == "case":
            return _raw_map(t, wrap)
        if t is UNDEF or t.op == "seq":
            return t
        return mk("seq", (mk("sp", t),))
    brs = dict((o, wrap(b)) for o, b in brs.items())
    d = None if d is None else wrap(d)
    c = _raw_case(atom, list(brs.items()), d)
    return SEQ(_alt(c))


def SEQ(parts):
    out = []
    for p in parts:
        for q in _norm_part(p):
            if out and q.op == "lit" and out[-1].op == "lit":
                out[-1] = mk("lit", out[-1].a[0] + q.a[0])
                continue
            if out and q.op == "alt" and out[-1].op == "alt":
                j = _join_alts(out[-1], q)
                if j is not None:
                    out.pop()
                    for r in j:
                        out.append(r)
                    continue
            out.append(q)
    # a literal may have become adjacent again
    res = []
    for q in out:
        if res and q.op == "lit" and res[-1].op == "lit":
            res[-1] = mk("lit", res[-1].a[0] + q.a[0])
        else:
            res.append(q)
    if len(res) == 1 and res[0].op == "sp" and res[0].a[0].op != "undef":
        return res[0].a[0]
    return mk("seq", tuple(res))


def _join_alts(a, b):
    ca, cb = a.a[0], b.a[0]
    if ca.a[0] is not cb.a[0] or ca.op != "case" or cb.op != "case":
        return None
    atom = ca.a[0]
    outs = set(o for o, _ in ca.a[1]) | set(o for o, _ in cb.a[1])
    items = []
    for o in outs:
        items.append((o, seq_raw_concat(assume_leaf(ca, o), assume_leaf(cb, o))))
    d = None
    if ca.a[2] is not None and cb.a[2] is not None:
        d = seq_raw_concat(ca.a[2], cb.a[2])
    c = lift_raw(atom, dict(items), d)
    return _alt(c)


def assume_leaf(c, o):
    for k, b in c.a[1]:
        if k == o:
            return b
    return c.a[2] if c.a[2] is not None else UNDEF


def lift_raw(atom, items, d):
    return _raw_case(atom, list(items.items()), d)


def seq_raw_concat(x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    return mk_seq_keep(SEQ(seq_parts_alt(x) + seq_parts_alt(y)))


def seq_parts_alt(x):
    if x.op == "case":
        return [mk("alt", x)]
    return seq_parts(x)


def mk_seq_keep(t):
    return t if t.op == "seq" else mk("seq", (mk("sp", t),))


def concat(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return SEQ(_parts_of(a) + _parts_of(b))


def _parts_of(t):
    if t.op == "seq":
        return list(t.a[0])
    return [mk("sp", t)]


def push(s, x):
    if x is UNDEF or s is UNDEF:
        return UNDEF
    return SEQ(_parts_of(s) + [E(x)])


def rep(tmp, n, body):
    """The elements of body for tmp in 0..n; tmp is a temporary name."""
    return SEQ([close("rep", tmp, (n, FALSE, mk_seq_keep(body)))])


def rep_set(tmp, n, body):
    return SETV([close("rep", tmp, (n, FALSE, _setkeep(body)))])


def within(tag, n, x):
    """x in the body of a binder that counts up to n."""
    if n.op in ("int", "case", "forever") or not x.atoms:
        return x
    a = mk("val", n)
    if a in x.atoms:
        x = assume_not(x, a, (0,))
    c = lt(mk("bv", tag), n)
    if c.op == "case" and c.a[0].op == "isle" and c.a[0] in x.atoms:
        y = dict(c.a[1])
        if y.get(True) is TRUE or y.get(False) is TRUE:
            x = assume(x, c.a[0], y.get(True) is TRUE)
    return x


def _build_rep(tag, n, stop, body):
    body = within(tag, n, body)
    if body.op not in ("seq", "set"):
        body = mk_seq_keep(body)
    return mk("rep", tag, n, stop, body)


def exists(tmp, n, cond):
    return close("exists", tmp, (n, cond))


def first(tmp, n, cond):
    return close("first", tmp, (n, cond))


def _build_exists(tag, n, cond):
    cond = within(tag, n, cond)
    if cond is FALSE or cond is UNDEF:
        return FALSE
    if n.op == "int" and n.a[0] == 0:
        return FALSE
    if tag not in cond.fv:
        return AND(lt(INT(0), n), cond)
    i = mk("bv", tag)
    if n.op == "int" and n.a[0] == 1:
        return subst(cond, {i: INT(0)})
    # over a composite sequence
    for at_ in collect(cond, lambda t: t.op == "at" and t.a[1] is i and t.a[0].op == "seq" and tag not in t.a[0].fv):
        sq = at_.a[0]
        if n is not length(sq):
            continue
        ph = mk("sym", "@" + fresh())
        c2 = subst(cond, {at_: ph})
        if tag in c2.fv:
            continue

        def over(ps):
            r = FALSE
            for q in ps:
                if q.op == "e":
                    r = OR(r, subst(c2, {ph: q.a[0]}))
                elif q.op == "lit":
                    for ch in q.a[0]:
                        r = OR(r, subst(c2, {ph: INT(ord(ch))}))
                elif q.op == "sp":
                    t2 = fresh()
                    r = OR(r, exists(t2, length(q.a[0]), subst(c2, {ph: at(q.a[0], mk("bv", t2))})))
                elif q.op == "rep":
                    t2 = fresh()
                    oa = open_(q.a[1:], q.a[0], t2)
                    r = OR(r, exists(t2, oa[0], over(oa[2].a[0])))
                elif q.op == "gp":
                    r = OR(r, AND(q.a[0], over([q.a[1]])))
                elif q.op == "alt":
                    def leaf(x):
                        if x.op == "case":
                            return branch(rebuild_atom(x.a[0], lambda y: y), dict((o, leaf(b)) for o, b in x.a[1]),
                                          None if x.a[2] is None else leaf(x.a[2]))
                        if x is UNDEF:
                            return FALSE
                        return over(seq_parts(x))
                    r = OR(r, leaf(q.a[0]))
            return r
        return over(sq.a[0])
    return batom(mk("exists", tag, n, cond))


def _build_first(tag, n, cond):
    cond = within(tag, n, cond)
    if cond is FALSE or cond is UNDEF:
        return n
    if cond is TRUE:
        return vmin(n, INT(0))
    return mk("first", tag, n, cond)


_loop_memo = {}


def sorted_loop(tmp, args):
    """The closed loop with its cells in canonical order, and {old position: new position}."""
    key = (tmp, args)
    r = _loop_memo.get(key)
    if r is not None:
        return r
    n, stop, cells = args
    stop = within(tmp, n, stop)
    cells = tuple((a, within(tmp, n, b)) for a, b in cells)
    k = len(cells)
    order = list(range(k))
    if k > 1:
        cv = [mk("cv", tmp, i) for i in range(k)]
        sig = ["?"] * k
        for _ in range(3):
            m = {cv[i]: mk("sym", "@s" + sig[i]) for i in range(k)}
            ns = []
            for i in range(k):
                s2 = rename(subst(cells[i][1], m), tmp, "@L")
                ns.append(hashlib.blake2b((sig[i] + _ser((cells[i][0], s2))).encode(), digest_size=8).hexdigest())
            done = len(set(ns)) == len(set(sig)) and sig[0] != "?"
            sig = ns
            if len(set(sig)) == k or done:
                break
        order = sorted(range(k), key=lambda i: (sig[i], i))
    pos = {o: i for i, o in enumerate(order)}
    if order != list(range(k)):
        t2 = fresh()
        m = {mk("cv", tmp, o): mk("cv", t2, i) for o, i in pos.items()}
        m[mk("bv", tmp)] = mk("bv", t2)
        stop = subst(stop, m)
        cells = tuple((cells[o][0], subst(cells[o][1], m)) for o in order)
        tmp = t2
    mx = 0
    for c in _flat1((n, stop, cells)):
        if c.bd > mx:
            mx = c.bd
    n, stop, cells = open_((n, stop, cells), tmp, mx + 1)
    r = (mk("loop", mx + 1, n, stop, cells), pos)
    _loop_memo[key] = r
    return r


def _build_loop(tag, *a):
    tmp = fresh()
    return sorted_loop(tmp, open_(a, tag, tmp))[0]


BUILD.update({"rep": _build_rep, "exists": _build_exists, "first": _build_first, "loop": _build_loop})


def simple_rep(s):
    """(tag, n, elem) when s maps every index to exactly one element."""
    if s.op == "seq" and len(s.a[0]) == 1 and s.a[0][0].op == "rep":
        tag, n, stop, body = s.a[0][0].a
        if stop is FALSE and body.op == "seq" and len(body.a[0]) == 1 and body.a[0][0].op == "e":
            return tag, n, body.a[0][0].a[0]
    return None


def fixed_parts(s):
    return s.op == "seq" and all(p.op == "e" or p.op == "lit" for p in s.a[0])


def length(s):
    def f(x):
        if x.op == "seq":
            r = simple_rep(x)
            if r:
                return r[1]
            c = INT(0)
            rest = []
            for p in x.a[0]:
                if p.op == "e":
                    c = add(c, INT(1))
                elif p.op == "lit":
                    c = add(c, INT(len(p.a[0])))
                elif p.op == "sp":
                    c = add(c, length(p.a[0]))
                else:
                    rr = simple_rep(mk("seq", (p,)))
                    if rr:
                        c = add(c, rr[1])
                    else:
                        rest.append(p)
            if rest:
                for p in rest:
                    c = add(c, mk("len", mk("seq", (p,))))
            return c
        if x.op == "setat":
            return length(x.a[0])
        if x.op == "slice":
            s, lo, hi = x.a
            return sub(hi, lo)
        if x.op in ("rev", "keys", "vals", "entries", "horder"):
            return length(x.a[0])
        if x.op == "range":
            return sub(x.a[1], x.a[0])
        if x.op == "map0":
            return INT(0)
        if x.op == "setmval":
            return length(x.a[0])
        if x.op == "set" and not x.a[0]:
            return INT(0)
        if x.op == "set" and len(x.a[0]) == 1 and x.a[0][0].op == "e":
            return INT(1)
        if x.op == "zip":
            return vmin(length(x.a[0]), length(x.a[1]))
        if x.op == "enum":
            return length(x.a[0])
        if x.op == "repeat":
            return x.a[1]
        return mk("len", x)
    return lift(f, s)


def vmin(a, b):
    if a is b:
        return a
    return lift(lambda x, y: INT(min(x.a[0], y.a[0])) if x.op == "int" and y.op == "int" else
                mk("min", *sorted((x, y))), a, b)


def vmax(a, b):
    if a is b:
        return a
    return lift(lambda x, y: INT(max(x.a[0], y.a[0])) if x.op == "int" and y.op == "int" else
                mk("max", *sorted((x, y))), a, b)


def at(s, i):
    def f(x, j):
        if x.op == "seq":
            r = simple_rep(x)
            if r:
                return subst(r[2], {mk("bv", r[0]): j})
            if j.op == "int":
                k = j.a[0]
                if k == 0 and len(x.a[0]) == 1 and x.a[0][0].op == "rep":
                    # the first of those that pass a test
                    tag, n, stop, body = x.a[0][0].a
                    if stop is FALSE and body.op == "seq" and len(body.a[0]) == 1 and body.a[0][0].op in ("gp", "alt"):
                        t2 = fresh()
                        oa = open_(x.a[0][0].a[1:], tag, t2)
                        g = oa[2].a[0][0] if oa[2].op == "seq" and len(oa[2].a[0]) == 1 else None
                        y = None if g is None else _only(g)
                        some = None if y is None else _some([g])
                        if some is not None:
                            return subst(y, {mk("bv", t2): first(t2, oa[0], some)})
                for p in x.a[0]:
                    if p.op == "e":
                        if k == 0:
                            return p.a[0]
                        k -= 1
                    elif p.op == "lit":
                        if k < len(p.a[0]):
                            return INT(ord(p.a[0][k]))
                        k -= len(p.a[0])
                    else:
                        break
            # index relative to a leading spread
            pos = INT(0)
            for p in x.a[0]:
                if p.op == "e":
                    if pos is j:
                        return p.a[0]
                    pos = add(pos, INT(1))
                elif p.op == "lit":
                    k = sub(j, pos)
                    if k.op == "int" and 0 <= k.a[0] < len(p.a[0]):
                        return INT(ord(p.a[0][k.a[0]]))
                    pos = add(pos, INT(len(p.a[0])))
                elif p.op == "sp":
                    pos = add(pos, length(p.a[0]))
                else:
                    break
            return mk("at", x, j)
        if x.op == "setat":
            s0, k, v = x.a
            return ite(eq(k, j), v, at(s0, j))
        if x.op == "slice":
            return at(x.a[0], add(x.a[1], j))
        if x.op == "rev":
            return at(x.a[0], sub(sub(length(x.a[0]), INT(1)), j))
        if x.op == "range":
            return add(x.a[0], j)
        if x.op == "keys":
            return mk("mkey", x.a[0], j)
        if x.op == "vals":
            return mval(x.a[0], j)
        if x.op == "entries":
            return tup(mk("mkey", x.a[0], j), mval(x.a[0], j))
        if x.op == "zip":
            return tup(at(x.a[0], j), at(x.a[1], j))
        if x.op == "enum":
            return tup(j, at(x.a[0], j))
        if x.op == "repeat":
            return x.a[0]
        return mk("at", x, j)
    return lift(f, s, i)


def mval(m, j):
    if m.op == "setmval":
        return ite(eq(m.a[1], j), m.a[2], mval(m.a[0], j))
    return mk("mval", m, j)


def setat(s, i, v):
    def f(x, j):
        if x.op == "seq":
            pos = INT(0)
            ps = list(x.a[0])
            for k, p in enumerate(ps):
                if p.op == "e":
                    if pos is j:
                        ps[k] = E(v)
                        return SEQ(ps)
                    pos = add(pos, INT(1))
                elif p.op == "lit":
                    q = sub(j, pos)
                    if q.op == "int" and 0 <= q.a[0] < len(p.a[0]):
                        cs = [mk("lit", ch) for ch in p.a[0]]
                        cs[q.a[0]] = E(v)
                        return SEQ(ps[:k] + cs + ps[k + 1:])
                    pos = add(pos, INT(len(p.a[0])))
                elif p.op == "sp":
                    pos = add(pos, length(p.a[0]))
                else:
                    break
        if x.op == "setat" and x.a[1] is j:
            return mk("setat", x.a[0], j, v)
        if v is at(x, j):
            return x
        return mk("setat", x, j, v)
    return lift(f, s, i)


def slice_(s, lo, hi):
    if lo is INT(0) and hi is length(s):
        return s
    if lo is hi:
        return EMPTY
    if s.op == "slice":
        return slice_(s.a[0], add(s.a[1], lo), add(s.a[1], hi))
    if s.op == "case":
        return lift(lambda x: slice_(x, lo, hi), s)
    if hi.op == "lin":
        c, d = _lin(hi)
        ms = [k for k, v in d.items() if k.op == "min" and v == 1]
        if len(ms) == 1:
            rest = _mklin(c, {k: v for k, v in d.items() if k is not ms[0]})
            hi = vmin(*(add(rest, x) for x in ms[0].a))
    return mk("slice", s, lo, hi)


def rev(s):
    if s.op == "rev":
        return s.a[0]
    if fixed_parts(s):
        return SEQ(tuple(reversed(_explode(s.a[0]))))
    return lift(lambda x: mk("rev", x), s)


# ---------------------------------------------------------------- sets and maps
def _set_parts(s):
    if s.op == "set":
        return list(s.a[0])
    return [mk("sp", s)]


def SETV(parts):
    cond = {}
    for p in parts:
        for q in _setp(p):
            if q.op == "gp":
                c, q = q.a
            else:
                c = TRUE
            cond[q] = OR(cond[q], c) if q in cond else c
    out = []
    whole = [q.a[0] for q, c in cond.items() if q.op == "sp" and c is TRUE and q.a[0].op not in ("undef", "case")]
    partly = [(q.a[0], c) for q, c in cond.items() if q.op == "sp" and c is not TRUE and q.a[0].op not in ("undef", "case")]
    for q, c in cond.items():
        if q.op == "e" and c is not TRUE and any(AND(c, NOT(AND(d, has(s, q.a[0])))) is FALSE for s, d in partly):
            continue
        if whole and q.op == "e" and c is not TRUE:
            # an element that is there anyway needs no guard for that case
            for s in whole:
                h = has(s, q.a[0])
                if h.op == "case" and h is batom(h.a[0]) and h.a[0] in c.atoms:
                    c = assume(c, h.a[0], False)
        out += _guard(c, q)
    if len(out) > 1 and all(p.op == "gp" and p.a[1].op == "sp" for p in out):
        r = _exclusive(out)
        if r is not None:
            return r
    ps = tuple(sorted(out))
    if len(ps) == 1 and ps[0].op == "sp" and ps[0].a[0].op not in ("slice", "rev", "chars", "range"):
        return ps[0].a[0]
    return mk("set", ps)


def _exclusive(ps):
    """The decision between sets of which exactly one is there."""
    seen = FALSE
    for p in ps:
        if AND(seen, p.a[0]) is not FALSE:
            return None
        seen = OR(seen, p.a[0])
    if seen is not TRUE:
        return None
    r = ps[-1].a[1].a[0]
    if any(p.a[1].a[0].op in ("set", "seq", "slice", "rev", "chars", "range", "case") for p in ps):
        return None
    for p in ps[:-1]:
        r = ite(p.a[0], p.a[1].a[0], r)
    return r


def _guard(c, q):
    """A part of a set that is there under a condition."""
    if c is TRUE:
        return [q]
    if c is FALSE or c is UNDEF:
        return []
    if q.op == "gp":
        return _guard(AND(c, q.a[0]), q.a[1])
    return [mk("gp", c, q)]


def _setp(p):
    if p.op == "alt":
        return _set_alt(p.a[0])
    if p.op == "gp":
        c, q = p.a
        if c.op not in ("case", "bool", "undef"):
            c = batom(c)
        out = []
        for r in (_setp(q) if q.op != "sp" else _sp_parts(q)):
            out += _guard(c, r)
        return out
    if p.op == "rep":
        tag, n, stop, body = p.a
        b = _setkeep(SETV(seq_parts(body) if body.op != "set" else list(body.a[0])))
        if not b.a[0] or (n.op == "int" and n.a[0] == 0):
            return []
        f = _fuse(tag, n, b, "set")
        if f is not None:
            return f
        i = mk("bv", tag)
        out = []
        for q in b.a[0]:
            if q.op == "e" and q.a[0].op == "at" and q.a[0].a[1] is i and tag not in q.a[0].a[0].fv and n is length(q.a[0].a[0]):
                x = q.a[0].a[0]
                while x.op == "horder":
                    x = x.a[0]
                out += list(x.a[0]) if x.op == "set" else [mk("sp", x)]
                continue
            # each part on its own
            tmp = fresh()
            out.append(close("rep", tmp, (n, FALSE, mk("set", (rename(q, tag, tmp),)))))
        return out
    if p.op == "sp":
        return _sp_parts(p)
    return [p]


def _sp_parts(p):
    x = p.a[0]
    while x.op == "horder":
        x = x.a[0]
        p = mk("sp", x)
    if x.op == "set":
        return list(x.a[0])
    if x.op == "seq":
        out = []
        for q in x.a[0]:
            if q.op == "lit":
                out += [E(INT(ord(ch))) for ch in q.a[0]]
            else:
                out += _setp(q)
        return out
    if x.op == "case":
        return _set_alt(x)
    return [p]


def _setkeep(t):
    return t if t.op == "set" else mk("set", (mk("sp", t),))


_setalt_memo = {}


def _set_alt(c):
    """Parts of a decision between sets, each under its own condition."""
    if c.op != "case":
        return _set_parts(c)
    r = _setalt_memo.get(c)
    if r is not None:
        return list(r)
    leaves = {}
    for l in _case_leaves(c):
        if l is not UNDEF:
            leaves[l] = frozenset(q for p in _set_parts(l) for q in _setp(p))
    cond = {}
    parts = set()
    for v in leaves.values():
        parts |= v
    for p in sorted(parts):
        g, q = (p.a[0], p.a[1]) if p.op == "gp" else (TRUE, p)
        k = collapse(_case_map(c, lambda l: g if p in leaves[l] else FALSE))
        cond[q] = OR(cond[q], k) if q in cond else k
    out = []
    for q, k in cond.items():
        out += _guard(k, q)
    _setalt_memo[c] = out
    return list(out)


def set_case(atom, brs, d):
    c = _raw_case(atom, [(o, b) for o, b in brs.items()], d)
    return SETV(_set_alt(c))


def ins(s, x):
    if s is UNDEF or x is UNDEF:
        return UNDEF
    if s.op == "case":
        return lift(lambda y: ins(y, x), s)
    return SETV(_set_parts(s) + [E(x)])


def union(s, t):
    if s is UNDEF or t is UNDEF:
        return UNDEF
    return SETV(_set_parts(s) + [mk("sp", t)])


def has(c, x):
    def f(s, k):
        if s.op == "map0":
            return FALSE
        if s.op == "put":
            return OR(eq(s.a[1], k), has(s.a[0], k))
        if s.op == "setmval":
            return has(s.a[0], k)
        if s.op == "remove":
            return AND(NOT(eq(s.a[1], k)), has(s.a[0], k))
        if s.op in ("keys", "horder"):
            return has(s.a[0], k)
        if s.op == "set":
            if not s.a[0]:
                return FALSE
            if len(s.a[0]) > 16 and all(p.op == "e" and p.a[0].op == "int" for p in s.a[0]):
                if k.op == "int":
                    return BOOL(any(p.a[0] is k for p in s.a[0]))
                return batom(mk("has", s, k))
            r = FALSE
            ok = True
            for p in s.a[0]:
                if p.op == "e":
                    r = OR(r, eq(p.a[0], k))
                elif p.op == "sp":
                    r = OR(r, has(p.a[0], k))
                elif p.op == "gp" and p.a[1].op == "e":
                    r = OR(r, AND(p.a[0], eq(p.a[1].a[0], k)))
                elif p.op == "gp" and p.a[1].op == "sp":
                    r = OR(r, AND(p.a[0], has(p.a[1].a[0], k)))
                else:
                    ok = False
            if ok:
                return r
            return batom(mk("has", s, k))
        if s.op == "seq":
            if fixed_parts(s):
                r = FALSE
                for p in s.a[0]:
                    for x in ([p.a[0]] if p.op == "e" else [INT(ord(ch)) for ch in p.a[0]]):
                        r = OR(r, eq(x, k))
                return r
        if k.op == "mkey" and k.a[0] is s:
            return TRUE
        if k.op == "at" and k.a[0] is s:
            return TRUE
        return batom(mk("has", s, k))
    return lift(f, c, x)


def get(m, k):
    def f(s, q):
        if s.op == "put":
            return ite(eq(s.a[1], q), s.a[2], get(s.a[0], q))
        if q.op == "mkey" and q.a[0] is s:
            return mval(s, q.a[1])
        if s.op == "map0":
            return UNDEF
        return mk("get", s, q)
    return lift(f, m, k)


def put(m, k, v):
    def f(s, q):
        if s.op == "put" and s.a[1] is q:
            return mk("put", s.a[0], q, v)
        if v.op == "get" and v.a[0] is s and v.a[1] is q:
            return s
        return mk("put", s, q, v)
    return lift(f, m, k)


def remove(s, x):
    return lift(lambda a, b: mk("remove", a, b), s, x)


# ---------------------------------------------------------------- generic rebuilding
def hist(lp, pos, i):
    """A cell of a loop after i iterations."""
    return lift(lambda j: lp.a[3][pos][0] if j.op == "int" and j.a[0] == 0 else mk("hv", lp, pos, j), i)


def make(op, *a):
    if op == "lin":
        r = INT(a[0])
        for t, c in a[1]:
            r = add(r, mulc(t, c))
        return r
    if op == "ctor":
        return ctor(a[0], a[1], a[2])
    if op == "struct":
        return mk("struct", a[0], a[1])
    if op == "field":
        return field(a[0], a[1])
    if op == "vfield":
        return vfield(a[0], a[1], a[2])
    if op == "at":
        return at(a[0], a[1])
    if op == "len":
        return length(a[0])
    if op == "seq":
        return SEQ(a[0])
    if op == "sp":
        return mk("sp", a[0])
    if op == "alt":
        return mk("alt", a[0])
    if op == "rep":
        return _build_rep(*a)
    if op == "set":
        return SETV(a[0])
    if op == "has":
        return has(a[0], a[1])
    if op == "get":
        return get(a[0], a[1])
    if op == "put":
        return put(a[0], a[1], a[2])
    if op == "setat":
        return setat(a[0], a[1], a[2])
    if op == "slice":
        return slice_(a[0], a[1], a[2])
    if op == "rev":
        return rev(a[0])
    if op == "mval":
        return lift(mval, a[0], a[1])
    if op == "mkey":
        return lift(lambda m, j: mk("mkey", m, j), a[0], a[1])
    if op == "min":
        return vmin(a[0], a[1])
    if op == "max":
        return vmax(a[0], a[1])
    if op == "isle":
        return le0(a[0])
    if op == "iseq":
        return eq(a[0], a[1])
    if op == "remove":
        return remove(a[0], a[1])
    if op in ("exists", "first", "loop"):
        return BUILD[op](*a)
    if op == "lv":
        return mk("lv", *a)
    if op == "hv":
        return hist(*a)
    return mk(op, *a)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    return Printer().p(t)


def show_dag(x, minsz=14):
    """The term with its shared parts named."""
    uses = {}
    order = []

    def go(y):
        if isinstance(y, tuple):
            for z in y:
                go(z)
            return
        if not isinstance(y, T):
            return
        uses[y] = uses.get(y, 0) + 1
        if uses[y] == 1:
            for z in y.a:
                go(z)
            order.append(y)
    go(x)
    pr = Printer()
    lines = []
    for y in order:
        if y is not x and uses[y] > 1 and y.sz >= minsz and y.op not in ("isle", "iseq", "e", "sp", "alt", "rep", "discr", "val", "lit"):
            s = pr.q(y)
            n = "$%d" % (len(pr.names) + 1)
            pr.names[y] = n
            lines.append("%s := %s" % (n, s))
    lines.append(pr.p(x))
    return "\n        ".join(lines)


class Printer:
    def __init__(self):
        self.names = {}

    def p(self, t):
        n = self.names.get(t)
        return n if n is not None else self.q(t)

    def q(self, t):
        op, a = t.op, t.a
        p = self.p
        if op == "int":
            n = a[0]
            return "MAX" if n == MAX_USIZE else str(n)
        if op == "bool":
            return "true" if a[0] else "false"
        if op == "undef":
            return "_"
        if op == "sym":
            return a[0]
        if op in ("bv", "cv"):
            return ("i" if op == "bv" else "c") + ":" + str(a[0])[:6] + ("" if op == "bv" else "." + str(a[1]))
        if op == "lin":
            c, ts = a
            s = " + ".join((p(k) if v == 1 else "%d*%s" % (v, p(k))) for k, v in ts)
            if c:
                s += " + %d" % c
            return "(" + s + ")"
        if op == "lit":
            return repr(a[0])
        if op == "e":
            return p(a[0])
        if op == "sp":
            return ".." + p(a[0])
        if op == "alt":
            return "?" + p(a[0])
        if op == "gp":
            return p(a[1]) + " if " + p(a[0])
        if op == "seq":
            if str_const(t) is not None:
                return repr(str_const(t))
            return "[" + ", ".join(p(x) for x in a[0]) + "]"
        if op == "set":
            return "{" + ", ".join(p(x) for x in a[0]) + "}"
        if op == "rep":
            tag, n, stop, body = a
            return "for i:%s<%s%s %s" % (tag, p(n), "" if stop is FALSE else " until " + p(stop), p(body))
        if op == "struct":
            nm = "" if a[0] == "tuple" else a[0].split("::")[-1]
            return nm + "(" + ", ".join(p(x) for x in a[1]) + ")"
        if op == "ctor":
            return a[1] + ("(" + ", ".join(p(x) for x in a[2]) + ")" if a[2] else "")
        if op == "field":
            return p(a[0]) + "." + str(a[1])
        if op == "vfield":
            return p(a[0]) + "." + a[1] + "." + str(a[2])
        if op == "at":
            return p(a[0]) + "[" + p(a[1]) + "]"
        if op == "case":
            atom, brs, d = a
            if atom.op not in ("discr", "val"):
                f = dict(brs)
                if f[True] is TRUE and f[False] is FALSE:
                    return p(atom)
                if f[True] is FALSE and f[False] is TRUE:
                    return "!" + p(atom)
                return "(" + p(atom) + " ? " + p(f[True]) + " : " + p(f[False]) + ")"
            x = atom.a[1] if atom.op == "discr" else atom.a[0]
            s = "; ".join("%s=> %s" % (o if atom.op == "discr" else ("MAX" if o == MAX_USIZE else repr(o)), p(b)) for o, b in brs)
            if d is not None:
                s += "; _=> " + p(d)
            return "match " + p(x) + " {" + s + "}"
        if op == "isle":
            return "(" + p(a[0]) + " <= 0)"
        if op == "iseq":
            return "(" + p(a[0]) + " == " + p(a[1]) + ")"

        def q(x):
            if isinstance(x, T):
                return p(x)
            if isinstance(x, tuple):
                return "<" + ", ".join(q(y) for y in x) + ">"
            return str(x)
        return op + "(" + ", ".join(q(x) for x in a) + ")"
