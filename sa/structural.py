"""Rules over the whole program that do not compare summaries."""
import os
import re

from . import build, compare as cm, notation as no, props, rules as rl, term as t

FOREIGN = {"core", "std", "alloc"}
# the libraries the program is built on; they compute and allocate, nothing else
LIBRARIES = {"regex", "regex_syntax", "aho_corasick", "memchr", "bumpalo", "indexmap", "heck", "lalrpop_util", "bit_vec", "bit_set", "hashbrown", "allocator_api2"}


def consts(x, out):
    """Every function constant in a part of the dump."""
    if isinstance(x, dict):
        if isinstance(x.get("fn"), str):
            out.append(x)
        for v in x.values():
            consts(v, out)
    elif isinstance(x, list):
        for v in x:
            consts(v, out)
    return out


def library(side):
    """The functions of the library itself: everything but the parser that lalrpop generates."""
    return [f for f in side.c.fns if "parser::grammar::" not in f["path"] or "__action" in f["path"]]


def uses(side):
    """(function, constant, span) for every function a library function names."""
    for f in library(side):
        bodies = [f["blocks"]] + [p["blocks"] for p in f["promoted"] if p]
        for bl in bodies:
            for b in bl:
                for k in consts(b["t"], []):
                    yield f, k, b.get("sp") or f["span"]
                for st in b["s"]:
                    for k in consts(st, []):
                        yield f, k, (st[2] if len(st) > 2 and isinstance(st[2], list) else b.get("sp")) or f["span"]


def targ_names(side, k):
    return [side.c.types[x]["s"] for x in (k.get("targs") or []) if isinstance(x, int)]


def name_of(f):
    return cm.npath(f["path"])


# ------------------------------------------------------------------------------------------------ effects
DENY = re.compile(r"\bstd::(fs|env|process|net|thread|time|os|sync|io|backtrace|sys|(panic|panicking)::(set_hook|take_hook|update_hook))\b|\bcore::(sync::atomic|arch)\b|\balloc::alloc::set_alloc")
ALLOW = re.compile(r"std::io::stdio::_e?print$|std::io::(stdio::)?_e?print$|std::sync::(poison::)?(once_lock|lazy_lock|Arc)\b")
PURE_IO = re.compile(r"^(&mut )?(std::vec::Vec<u8|alloc::vec::Vec<u8|&?\[u8\]|std::io::Cursor|std::io::cursor)")
CELL = re.compile(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w+|OnceCell|OnceLock|LazyLock|LazyCell|Once)\b")


def effect_of(side, k):
    """Why calling this function is an effect, or None."""
    p = k.get("instp") or k["fn"]
    for q in (p, k["fn"]):
        m = DENY.search(q)
        if m and not ALLOW.search(q):
            if m.group(0).startswith("std::io") or "std::io::" in q:
                ta = targ_names(side, k)
                if ta and PURE_IO.match(ta[0]) or re.search(r"<(std|alloc)::vec::Vec<u8|io::(error|cursor|Error|Cursor)", q):
                    continue
            if "std::time::Duration" in q or "core::time" in q:
                continue
            return m.group(0)
    if k.get("local"):
        return None
    crate = re.sub(r"^[<&'\w ]*?\b(\w+)::.*", r"\1", p)
    roots = set(re.findall(r"(?<![\w:])([a-z_][a-z0-9_]*)::", p))
    unknown = [r for r in roots if r not in FOREIGN and r not in LIBRARIES and r != "typelalr" and r not in side.c_roots]
    if unknown:
        return "unknown library %s" % unknown[0]
    return None


def effects(repo, dump, side, ref):
    side.c_roots = {f["path"].split("::")[0] for f in side.c.fns} | {"impl"}
    fs, n, calls, seen = [], 0, {}, set()
    fns = library(side)
    diag = []
    for f, k, sp in uses(side):
        n += 1
        p = k.get("instp") or k["fn"]
        if not k.get("local"):
            calls.setdefault(p, set()).add(name_of(f))
        if re.search(r"_e?print$", p):
            diag.append(name_of(f))
        w = effect_of(side, k)
        if w and (f["path"], p) not in seen:
            seen.add((f["path"], p))
            fs.append({"props": ["C27"], "key": name_of(f), "file": sp[0], "line": sp[1], "rule": "effects",
                       "what": "calls %s (%s), which does more than compute its result" % (p, w)})
    # a declared function without a body is someone else's
    known = set(side.c.by_upath)
    for f, k, sp in uses(side):
        if k.get("local") and k.get("foreign"):
            fs.append({"props": ["C27"], "key": name_of(f), "file": sp[0], "line": sp[1], "rule": "effects",
                       "what": "calls the foreign function %s" % k["fn"]})
    # statics that can change
    for s in side.c.statics:
        ty = side.c.types[s["ty"]]["s"]
        if s["mut"] or CELL.search(ty):
            if "parser::grammar::" in s["path"]:
                continue
            fs.append({"props": ["C27"], "key": s["path"], "file": s["span"][0], "line": s["span"][1], "rule": "effects",
                       "what": "static %s: %s keeps state between calls" % (s["path"], ty)})
    per = [name_of(f) for f in fns if cm.is_unit(f)]
    return fs, {"props": ["C27"], "units": {"C27": per}, "coverage": {
        "functions": len(fns), "call sites and function values": n, "distinct functions of other libraries": len(calls),
        "statics": len(side.c.statics), "diagnostics on standard output in": sorted(set(diag))}}


# ------------------------------------------------------------------------------------------------ determinism
def uses_tag(x, tag, memo):
    """Whether the index of a binder is used other than to pick an element of a hash table's order."""
    r = memo.get(x)
    if r is not None:
        return r
    memo[x] = False
    if tag not in x.fv:
        return False
    if x.op == "bv":
        r = x.a[0] == tag
    elif x.op == "at" and x.a[0].op == "horder" and x.a[1].op == "bv":
        r = uses_tag(x.a[0], tag, memo)
    else:
        r = any(uses_tag(y, tag, memo) for y in parts(x))
    memo[x] = r
    return r


def parts(x):
    out = []

    def go(y):
        if isinstance(y, t.T):
            out.append(y)
        elif isinstance(y, (tuple, list)):
            for z in y:
                go(z)
    go(x.a)
    return out


def residual(x):
    """('ordered' | 'loop' | None, term): does a hash table's own order show in the value?"""
    memo = {}
    hit = {}

    def has_h(y):
        r = hit.get(y)
        if r is None:
            hit[y] = False
            r = hit[y] = y.op == "horder" or any(has_h(z) for z in parts(y))
        return r

    def go(y, bag, ok):
        if not has_h(y):
            return None
        key = (y, bag, ok)
        if key in memo:
            return memo[key]
        memo[key] = None
        r = None
        if y.op == "at" and y.a[0].op == "horder":
            if y.a[1].op == "bv" and y.a[1].a[0] in ok:
                r = go(y.a[0].a[0], False, ok)
            else:
                r = ("ordered", y)
        elif y.op == "sp" and y.a[0].op == "horder":
            r = go(y.a[0].a[0], bag, ok) if bag else ("ordered", y)
        elif y.op == "horder":
            r = go(y.a[0], bag, ok) if bag else ("ordered", y)
        elif y.op in ("exists",) or (y.op == "rep" and bag):
            body = y.a[-1]
            o2 = ok | {y.a[0]} if not uses_tag(body, y.a[0], {}) and (y.op == "exists" or y.a[2] is t.FALSE) else ok
            for z in parts(y):
                r = r or go(z, y.op == "rep", o2)
        elif y.op == "loop":
            for z in parts(y):
                r = r or go(z, False, ok)
            if r and all(commutes(y.a[0], i, st) for i, (init, st) in enumerate(y.a[3]) if has_h(st)) and not has_h(y.a[2]):
                r = ("loop", y)
        elif y.op == "mapof":
            r = go(y.a[0], False, ok) or go(y.a[1], keyed(y.a[1]), ok)
        elif y.op in ("ext", "unk"):
            sort = "sort" in str(y.a[0])
            for z in parts(y):
                r = r or go(z, sort, ok)
            if r:
                r = ("other", y)
        else:
            b = y.op in ("set", "sort", "len") or (bag and y.op in ("seq", "gp", "alt"))
            for z in parts(y):
                r = r or go(z, b, ok)
        memo[key] = r
        return r
    return go(x, False, frozenset())


def keyed(s):
    """Whether pairs made from a hash table's elements have a key of their own for each element."""
    def inj(k, tag):
        if k.op == "at" and k.a[0].op == "horder":
            return k.a[1].op == "bv" and k.a[1].a[0] == tag
        if k.op == "lin":
            dep = [(z, c) for z, c in k.a[1] if tag in z.fv]
            return len(dep) == 1 and inj(dep[0][0], tag)
        if k.op == "fld" or k.op == "field":
            return isinstance(k.a[0], t.T) and inj(k.a[0], tag)
        if k.op == "struct":
            return any(inj(z, tag) for z in k.a[1])
        return False
    if s.op != "seq":
        return False
    for p in s.a[0]:
        if p.op == "rep" and t.collect(p.a[3], lambda z: z.op == "horder"):
            b = p.a[3]
            if not (b.op == "seq" and all(q.op in ("e", "gp") for q in b.a[0])):
                return False
            for q in b.a[0]:
                q = q.a[1] if q.op == "gp" else q
                e = q.a[0] if q.op == "e" else None
                if e is None or e.op != "struct" or not (inj(e.a[1][0], p.a[0]) or p.a[0] not in e.a[1][1].fv):
                    return False
    return True


def commutes(tag, i, st):
    """Whether the steps of a loop change a cell in a way that does not depend on their order."""
    def cells(y):
        return bool(t.collect(y, lambda z: z.op == "cv" and z.a[0] == tag))

    def own(y):
        return y.op == "cv" and y.a[0] == tag and y.a[1] == i

    def go(y):
        if own(y):
            return True
        if y.op == "case":
            return not cells(y.a[0]) and all(go(b) for o, b in y.a[1]) and (y.a[2] is None or go(y.a[2]))
        if y.op == "lin":
            return any(own(z) and c == 1 for z, c in y.a[1]) and all(own(z) or not cells(z) for z, c in y.a[1])
        if y.op == "put":
            return go(y.a[0]) and not cells(y.a[1]) and not cells(y.a[2])
        if y.op == "set":
            return all(z.op == "sp" and own(z.a[0]) or not cells(z) for z in y.a[0])
        if y.op in ("max", "min"):
            return all(own(z) or not cells(z) for z in y.a)
        return not cells(y) and tag not in y.fv
    return go(st)


SEEDED = re.compile(r"RandomState\b.*::(new|build_hasher|hash_one|default)|hash::random::RandomState|core::ptr::(hash|addr_eq|from_ref)$|<impl \*(const|mut) T>::(addr|expose_provenance|expose_addr)|core::hash::impls::<impl core::hash::Hash for \*|core::fmt::(Pointer|rt::Argument.*::new_pointer)|cmp::impls::<impl .* for \*|core::ptr::(const_ptr|mut_ptr).*(cmp|eq|hash)|std::(time|env|thread|process)::|std::collections::hash::(map|set)::Hash(Map|Set).*::hasher$")


def iterates(side, k):
    p = k.get("instp") or k["fn"]
    if re.search(r"collections::hash::(map|set)::Hash(Map|Set).*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|union|intersection|difference|symmetric_difference|extract_if|retain)$", p):
        return True
    ta = targ_names(side, k)
    if k["fn"].endswith("IntoIterator::into_iter"):
        return bool(ta) and re.match(r"&*(mut )?std::collections::Hash(Map|Set)<", ta[0].replace("&'a ", "&")) is not None
    if re.search(r"(Extend|FromIterator|Iterator)::\w+$", k["fn"]):
        return any(re.match(r"(&\S* ?)*(mut )?std::collections::Hash(Map|Set)<", x) for x in ta[1:])
    return False


def ptr_ops(f):
    """Casts of pointers to numbers and comparisons of pointers in a body."""
    out = []
    for b in f["blocks"]:
        for st in b["s"]:
            r = st[1]
            if isinstance(r, list) and r and r[0] == "cast" and "Expose" in str(r):
                out.append((st, "address as a number"))
    return out


def determinism(repo, dump, side, ref):
    fs, sites, seeded, undecided, decided = [], [], [], [], []
    todo = {}
    rs = {(name_of(f), k.get("instp") or k["fn"]) for f, k, sp in uses(ref) if SEEDED.search(k.get("instp") or k["fn"])}
    n = 0
    for f, k, sp in uses(side):
        n += 1
        p = k.get("instp") or k["fn"]
        if f["derived"]:
            continue
        if SEEDED.search(p) and (name_of(f), p) not in rs:
            seeded.append((f, p, sp))
        if iterates(side, k):
            u = f
            while u["kind"] == "Closure" and u.get("parent") in side.c.by_upath:
                u = side.c.by_upath[u["parent"]]
            sites.append("%s: %s" % (name_of(f), p))
            todo.setdefault(name_of(u), sp)
    for f, p, sp in seeded:
        fs.append({"props": ["C24"], "key": name_of(f), "file": sp[0], "line": sp[1], "rule": "determinism",
                   "what": "calls %s: its result differs from run to run" % p})
    for f in library(side):
        for st, w in ptr_ops(f):
            if not f["derived"]:
                sp = st[2] if len(st) > 2 else f["span"]
                fs.append({"props": ["C24"], "key": name_of(f), "file": sp[0], "line": sp[1], "rule": "determinism", "what": "uses an " + w})
    # iteration that shows: the function, or those it is folded into
    calls = {}
    for u in side.units:
        for k in consts([side.units[u]["blocks"], side.units[u]["promoted"]], []):
            v = side.unit_of.get(k.get("inst") or "")
            if v:
                calls.setdefault(v, set()).add(u)
    work, seen = list(todo), set()
    while work:
        u = work.pop()
        if u in seen:
            continue
        seen.add(u)
        if u not in side.units:
            undecided.append("%s: not a function of its own" % u)
            continue
        if u not in ref.units:
            # a helper is judged where it is used
            up = calls.get(u, set()) - {u}
            if up:
                for v in up:
                    todo.setdefault(v, todo[u])
                    work.append(v)
                continue
        opaque = [v for v in ref.units if v != u]
        try:
            o, e = side.run(u, opaque, limit=60, det=True)
        except Exception as x:
            undecided.append("%s: %s" % (u, repr(x)[:120]))
            continue
        res = None
        for key, v in o.items():
            if key == "panic":
                continue
            r = residual(v)
            if r and (res is None or r[0] == "ordered"):
                res = r
        if res is None:
            decided.append(u)
            continue
        if u in ref.units:
            try:
                o2, _ = ref.run(u, opaque, limit=60, det=True)
                if any(residual(v) for key, v in o2.items() if key != "panic"):
                    decided.append("%s: %s" % (u, "as reviewed" if all(o2.get(key) is v for key, v in o.items()) else "order used as before, not decided"))
                    continue
            except Exception:
                pass
        if res[0] != "ordered":
            undecided.append("%s: order used inside a loop or an unknown operation" % u)
            continue
        sp = todo[u]
        fs.append({"props": ["C24"], "key": u, "file": sp[0], "line": sp[1], "rule": "determinism",
                   "what": "the order in which a hash table yields its elements shows in the result: %s" % rl.show_terms([res[1]])})
    return fs, {"props": ["C24"], "units": {"C24": sorted(seen)}, "coverage": {
        "functions": len(library(side)), "call sites and function values": n, "iterations over hash tables": sites,
        "order does not show": sorted(decided), "not decided": undecided}}


# ------------------------------------------------------------------------------------------------ unchecked operations
DECIDED = ("unwrap_unchecked", "unwrap_err_unchecked", "get_unchecked")


def unchecked(side):
    """{kind: [(function, span)]}: every operation whose safety the compiler does not check."""
    out = {}
    for f, k, sp in uses(side):
        if k.get("unsafe") and not (len(sp) > 2 and sp[2]):
            out.setdefault("call of " + cm.npath(k["fn"]), []).append((f, sp))
    for f in library(side):
        ty = side.c.types
        box = set()
        for b in f["blocks"]:
            for st in b["s"]:
                r = st[1]
                if isinstance(r, list) and r and r[0] == "cast" and "Box" in str(r[3:]):
                    box.add(st[0][0])
        for b in f["blocks"]:
            for st in b["s"]:
                sp = st[2] if len(st) > 2 else f["span"]
                if len(sp) > 2 and sp[2]:
                    continue
                r = st[1]
                if isinstance(r, list) and r and r[0] == "cast" and r[3] == "Transmute" and ty[r[2]]["s"] != "usize":
                    out.setdefault("transmute", []).append((f, sp))
                for l in derefs(st, []):
                    if ty[f["locals"][l]]["k"] == "ptr" and l not in box:
                        out.setdefault("dereference of a raw pointer", []).append((f, sp))
    for s in side.c.statics:
        if s["mut"]:
            out.setdefault("mutable static", []).append(({"path": s["path"], "upath": s["path"], "kind": "static"}, s["span"]))
    return out


def derefs(x, out):
    """Locals through which a place goes first."""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and x[1] and x[1][0] == "*":
            out.append(x[0])
        for y in x:
            derefs(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            derefs(y, out)
    return out


def unit_of(side, f):
    while f["kind"] == "Closure" and f.get("parent") in side.c.by_upath:
        f = side.c.by_upath[f["parent"]]
    return name_of(f)


def unsafe(repo, dump, side, ref):
    fs, cov, undecided = [], [], []
    cur, old = unchecked(side), unchecked(ref)
    for kind in sorted(cur):
        occ = cur[kind]
        n0 = len(old.get(kind, []))
        decided = kind.rsplit("::", 1)[-1] in DECIDED
        local = any(kind == "call of " + u for u in side.units)
        for f, sp in occ:
            cov.append("%s in %s" % (kind, name_of(f) if f["kind"] != "static" else f["path"]))
        if local:
            continue
        if decided:
            for u in sorted({unit_of(side, f) for f, sp in occ}):
                sp = next(sp for f, sp in occ if unit_of(side, f) == u)
                r = assumed(side, ref, u)
                if r is None or r[0] == "undecided":
                    undecided.append("%s in %s%s" % (kind, u, ": " + r[1] if r else ""))
                elif r[0] == "violated":
                    fs.append({"props": ["C26"], "key": u, "file": sp[0], "line": sp[1], "rule": "unsafe",
                               "what": "%s: what it assumes does not hold when %s" % (kind, r[1])})
        elif len(occ) > n0:
            names = {unit_of(ref, f) for f, sp in old.get(kind, [])}
            new = [(f, sp) for f, sp in occ if unit_of(side, f) not in names] or occ[n0:]
            for f, sp in new[:len(occ) - n0]:
                fs.append({"props": ["C26"], "key": unit_of(side, f) if f["kind"] != "static" else f["path"], "file": sp[0], "line": sp[1], "rule": "unsafe",
                           "what": "%s: nothing in the program establishes what it assumes (%d where %d were reviewed)" % (kind, len(occ), n0)})
    for f in library(side):
        if f.get("unsafe") and f["kind"] != "Closure":
            cov.append("unsafe fn " + name_of(f))
    return fs, {"props": ["C26"], "units": {"C26": sorted(set(cov))}, "coverage": {
        "functions": len(library(side)), "unchecked operations": sorted(set(cov)), "not decided": undecided}}


def assumed(side, ref, u):
    """Whether what the unchecked operations in a function assume holds on every path to them."""
    if u not in side.units:
        return None
    todo, seen, worst = [u], set(), ("held", "")
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        try:
            o, e = side.run(v, [w for w in ref.units if w != v], limit=60, xp=True, um=True)
        except Exception as x:
            return ("undecided", repr(x)[:100])
        p = o["panic"]
        if p is t.FALSE:
            continue
        try:
            if v in ref.units and ref.run(v, [w for w in ref.units if w != v], limit=60, xp=True, um=True)[0]["panic"] is p:
                continue
        except Exception:
            pass
        f = side.units[v]
        if not f.get("vis") and not f.get("trait") and v not in ref.units:
            up = {w for w in side.units if any(k.get("inst") == f["upath"] for k in consts([side.units[w]["blocks"]], []))} - {v}
            if up:
                todo += up
                continue
        if t.collect(p, lambda y: y.op in ("ext", "unk", "loop", "call", "app")):
            return ("undecided", rl.show_terms([p], 1, 100))
        return ("violated", rl.show_terms([p], 1, 200))
    return worst


# ------------------------------------------------------------------------------------------------ programs that must not compile
LIFETIME = re.compile(r"error(\[E0(499|502|503|505|506|597|515|716|521|621|310|309|312|495|700|713|372|373)\])|lifetime may not live long enough|does not live long enough|borrowed data escapes")


def cases():
    cur = None
    for line in open(os.path.join(build.HERE, "witness", "arena.rs")):
        if line.startswith("#case"):
            a, b = line[5:].split("|")
            cur = {"name": a.strip(), "what": b.strip(), "FAIL": "", "OK": ""}
            yield cur
        elif line.strip() in ("FAIL", "OK"):
            mode = line.strip()
        elif cur:
            cur[mode] += line


def prelude(src):
    """Only the names a program uses, so that it depends on nothing else."""
    names = {"Bump": "bumpalo::Bump", "Grammar": "typelalr::parser::Grammar", "Symbol": "typelalr::parser::Symbol", "ParserSupport": "typelalr::parser::ParserSupport",
             "Ident": "typelalr::parser::ast::Ident", "InputSymbol": "typelalr::parser::ast::InputSymbol", "Lalr": "typelalr::lalr::Lalr", "Item": "typelalr::lalr::item::Item",
             "ProductionIdx": "typelalr::lalr::item::ProductionIdx", "TokenIdx": "typelalr::lalr::item::TokenIdx", "NFA": "typelalr::lex::nfa::NFA",
             "StateIdx": "typelalr::lex::nfa::StateIdx", "DFA": "typelalr::lex::dfa::DFA"}
    return "".join("use %s;\n" % p for n, p in names.items() if re.search(r"(?<![\w:])%s\b" % n, src)) + "fn keep<T>(_: &T) {}\n"


def witness(repo, dump, side, ref):
    import concurrent.futures as cf
    fs, ok, undecided = [], [], []
    cs = list(cases())

    def one(c):
        a, log = build.compiles(dump, prelude(c["OK"]) + c["OK"])
        if not a:
            return c, None, log
        b, log = build.compiles(dump, prelude(c["FAIL"]) + c["FAIL"])
        return c, b, log
    with cf.ThreadPoolExecutor(8) as ex:
        for c, b, log in ex.map(one, cs):
            if b is None:
                undecided.append("%s: the permitted program is not accepted: %s" % (c["name"], log.strip().split("\n")[0][-160:]))
            elif b:
                fs.append({"props": ["C26"], "key": "witness " + c["name"], "file": "", "line": 0, "rule": "witness",
                           "what": "a program that uses %s after what it refers to is gone compiles: %s" % (c["what"], c["FAIL"].strip()[:300])})
            elif LIFETIME.search(log):
                ok.append(c["name"])
            else:
                undecided.append("%s: refused for another reason: %s" % (c["name"], log.strip().split("\n")[0][-160:]))
    return fs, {"props": ["C26"], "units": {"C26": ["witness " + c["name"] for c in cs]}, "coverage": {
        "programs that must not compile": len(cs), "refused because of a lifetime, with the permitted variant accepted": ok, "not decided": undecided}}


# ------------------------------------------------------------------------------------------------ equality, order and hash
KEY_TRAITS = {"core::cmp::PartialEq": "eq", "core::cmp::Ord": "cmp", "core::cmp::PartialOrd": "partial_cmp", "core::hash::Hash": "hash"}
KEY_PROPS = {"lex::nfa::StateIdx": ["C05"], "lex::nfa::Match": ["C04", "C05"], "lex::lex::TokenDef": ["C05"], "lex::lex::Token": ["C16"],
             "lalr::item::ProductionIdx": ["C10", "C11"], "lalr::item::TokenIdx": ["C10", "C11"], "lalr::item::Item": ["C10", "C11"], "lalr::item::ItemSet": ["C10", "C11"],
             "lalr::table::Action": ["C11"], "parser::ast::Ident": ["C16", "C10"], "parser::ast::InputSymbol": ["C16"], "parser::ast::NamedSymbol": ["C16"],
             "parser::Symbol": ["C16", "C10"], "parser::ast::Production": ["C16"], "parser::ast::ProductionBody": ["C16"], "lalr::item::TokenDebug": ["C16"]}
PTR = re.compile(r"ptr::|addr\b|as_ptr|type_id|RandomState|Instant|SystemTime")


def fields_eq(side, a, b, ty, depth):
    """Equality of two values spelled out over the fields, to some depth."""
    d = side.c.types[ty]
    while d["k"] == "ref":
        d = side.c.types[d["args"][0]]
    ad = t.ADTS.get(d.get("def")) if d["k"] == "adt" else None
    if depth == 0 or not ad or not (ad["local"] or d["def"].startswith("core::ops::range::Range")):
        return t.eq(a, b)

    def payload(v, get):
        r = t.TRUE
        for i, f in enumerate(v["fields"]):
            x = f[1] if f[1] is not None else d["args"][0]
            r = t.AND(r, fields_eq(side, get(a, i), get(b, i), x, depth - 1))
        return r
    if not ad["enum"]:
        return payload(ad["variants"][0], lambda x, i: t.field(x, i, d["def"]))
    return t.switch_discr(a, d["def"], {v["name"]: t.switch_discr(b, d["def"], {v["name"]: payload(v, lambda x, i: t.vfield(x, v["name"], i))}, t.FALSE)
                                        for v in ad["variants"]})


def hashes_all(x, ty, side, got, depth=4):
    """Does the hash take in every field?"""
    if x in got:
        return True
    d = side.c.types[ty]
    while d["k"] == "ref":
        d = side.c.types[d["args"][0]]
    ad = t.ADTS.get(d.get("def")) if d["k"] == "adt" else None
    if depth == 0 or not ad or ad["enum"] or not (ad["local"] or d["def"].startswith("core::ops::range::Range")):
        return False
    return all(hashes_all(t.field(x, i, d["def"]), f[1] if f[1] is not None else d["args"][0], side, got, depth - 1)
               for i, f in enumerate(ad["variants"][0]["fields"]))


def as_derived(side, ref):
    """Written out implementations, derived in the reviewed tree, that say exactly what the fields say."""
    out = []
    for (tr, m, ty), f in sorted(side.c.user_impls.items(), key=lambda x: str(x[0])):
        if KEY_TRAITS.get(tr) != m or cm.npath(ty) not in KEY_PROPS or (tr, m, ty) in ref.c.user_impls or (tr, m, ty) not in ref.c.derived_impls:
            continue
        try:
            out_, e = side.run(side.unit_of[f["upath"]], [])
            if m == "hash":
                got = out_["argument 1"]
                whole = t.collect(got, lambda y: True)
                ok = not t.collect(got, lambda y: y.op in ("ext", "unk")) and hashes_all(t.mk("sym", "a0"), f["self"], side, set(whole))
            else:
                a, b = t.mk("sym", "a0"), t.mk("sym", "a1")
                got = out_["value"]
                if m == "eq":
                    ok = any(side.final(e, fields_eq(side, a, b, f["self"], i), 0) is got for i in range(4))
                else:
                    saved = side.c.user_impls
                    side.c.user_impls = {k: v for k, v in saved.items() if k[2] != ty}
                    try:
                        e.lib._ordmem = {}
                        want = e.lib.order(a, b, f["self"])
                    finally:
                        side.c.user_impls = saved
                    if m == "partial_cmp":
                        from . import lib
                        cu = saved.get(("core::cmp::Ord", "cmp", ty))
                        alt = lib.SOME(side.run(side.unit_of[cu["upath"]], [])[0]["value"]) if cu is not None else None
                        ok = side.final(e, lib.SOME(want), 0) is got or alt is not None and side.final(e, alt, 0) is got and any(g is cu for g in out)
                    else:
                        ok = side.final(e, want, 0) is got
        except Exception:
            ok = False
        if ok:
            out.append(f)
    return out


def keys(repo, dump, side, ref):
    """An implementation written out where the reviewed one follows from the fields must say the same as the fields do."""
    from . import lib
    fs, undecided, checked, per = [], [], [], {}
    have = set(side.c.user_impls) | set(side.c.derived_impls)
    for (tr, m, ty) in sorted(have, key=str):
        tn = cm.npath(ty)
        if KEY_TRAITS.get(tr) != m or tn not in KEY_PROPS:
            continue
        ps = KEY_PROPS[tn]
        name = "<%s as %s>::%s" % (tn, tr, m)
        for p in ps:
            per.setdefault(p, []).append(name)
        if (tr, m, ty) in side.c.derived_impls:
            checked.append(name + " follows the fields")
            continue
        if (tr, m, ty) in ref.c.user_impls:
            checked.append(name + " is compared with its reviewed summary")
            continue
        f = side.c.user_impls[(tr, m, ty)]
        u = side.unit_of.get(f["upath"])
        try:
            out, e = side.run(u, [])
            if m == "hash":
                wants = []
                got = out["argument 1"]
                bad = t.collect(got, lambda y: y.op in ("ext", "unk") and PTR.search(str(y.a[0])))
            else:
                a, b = t.mk("sym", "a0"), t.mk("sym", "a1")
                got = out["value"]
                L = e.lib
                saved = side.c.user_impls
                if m == "eq":
                    wants = [fields_eq(side, a, b, f["self"], i) for i in range(4)]
                else:
                    # the order the fields give; types inside keep their own
                    side.c.user_impls = {k: v for k, v in saved.items() if k[2] != ty}
                    try:
                        L._ordmem = {}
                        want = L.order(a, b, f["self"])
                    finally:
                        side.c.user_impls = saved
                    if m == "partial_cmp":
                        cu = saved.get(("core::cmp::Ord", "cmp", ty))
                        if cu is not None:
                            want = side.run(side.unit_of[cu["upath"]], [])[0]["value"]
                        want = lib.SOME(want)
                    wants = [want]
                bad = not any(side.final(e, w, 0) is got for w in wants)
                if bad and m == "cmp":
                    # another order will do as long as it is equal exactly on equals
                    w = t.is_variant(got, lib.ORD, "Equal")
                    if any(w is fields_eq(side, a, b, f["self"], i) for i in range(4)):
                        bad = False
                if bad and t.collect(got, lambda y: y.op in ("ext", "unk", "loop", "app") and not PTR.search(str(y.a[0]))):
                    undecided.append("%s: %s" % (name, rl.show_terms([got], 1, 160)))
                    continue
        except Exception as x:
            undecided.append("%s: %r" % (name, x))
            continue
        if bad:
            fs.append({"props": ps, "key": u, "file": f["span"][0], "line": f["span"][1], "rule": "keys",
                       "what": "%s does not follow the fields: %s" % (name, rl.show_terms([got], 1, 240))})
        else:
            checked.append(name + " is written out and agrees with the fields")
    return fs, {"props": sorted(per), "units": per, "coverage": {"implementations": checked, "not decided": undecided}}


RULES = [("effects", effects), ("determinism", determinism), ("unsafe", unsafe), ("witness", witness), ("keys", keys), ("notation", no.notation)]


def rules(repo, dump):
    side, ref = cm.Side(dump), cm.Side(rl.REF)
    for n, f in RULES:
        yield n, (lambda f=f: f(repo, dump, side, ref))
