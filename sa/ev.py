"""Abstract evaluation of the intermediate representation to canonical value terms.

Every function reachable from a root is folded in; branches become decision nodes, loops become
comprehension / fold terms.  No path is enumerated, no solver is asked and nothing is run.
"""
import itertools

from . import term as t
from .term import (mk, INT, TRUE, FALSE, UNDEF, UNIT, EMPTY, ite, AND, OR, NOT, switch_discr, subst,
                   collapse, fresh)
from . import ir

RET = "RET"
LATCH = "LATCH"
PANIC = "PANIC"
P = ("P",)
FAIL = ("F",)
DEAD = ("DEAD",)
TRANSPARENT = ("core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit",
               "core::mem::maybe_dangling::MaybeDangling", "alloc::boxed::Box", "core::ptr::unique::Unique",
               "core::ptr::non_null::NonNull", "alloc::boxed::BoxRaw")


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def as_bool(x):
    if x.op in ("case", "bool", "undef"):
        return x
    return t.batom(x)


class Frame:
    __slots__ = ("fn", "id", "cfg", "ev")


class Ev:
    def __init__(self, crate, opaque=(), budget=400000):
        self.c = crate
        t.ADTS.clear()
        t.ADTS.update(crate.adts)
        self.opaque = set(opaque)
        self.stack = []
        self.nfr = 0
        self.nheap = 0
        self.steps = 0
        self.budget = budget
        self.det = False        # let hash tables yield their elements in an order of their own
        self.um = False         # with xp: only what unchecked operations assume counts
        self.fw = False         # a function that only calls another one stands for that one
        self.xp = False         # count absent values and indices out of range as panics
        self.visited_fns = {}
        self.exts = {}
        self.calls = {}
        self.fnvals = {}
        self.loops = 0
        self.seeds = {}
        from . import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.c.types[i]

    def is_bool(self, i):
        return i is not None and self.c.types[i]["s"] == "bool"

    def proj_types(self, fn, place):
        """The type before each projection, and the final one."""
        ty = fn["locals"][place[0]]
        out = [ty]
        for p in place[1]:
            if p == "*":
                a = self.ty(ty).get("args") or []
                ty = a[0] if a else ty
            elif "t" in p and "f" in p:
                ty = p["t"]
            elif "v" in p:
                pass
            elif "idx" in p or "ci" in p:
                a = self.ty(ty).get("args") or []
                ty = a[0] if a else ty
            out.append(ty)
        return out

    def adt_of(self, ty):
        d = self.ty(ty)
        if d["k"] == "adt":
            return d["def"]
        if d["k"] == "tuple":
            return "tuple"
        return None

    # ------------------------------------------------------------ reading
    def deref(self, v, mem):
        if v.op == "ref":
            return self.read_ref(v, mem)
        if v.op == "case" and v.rf:
            return collapse(t.lift(lambda l: self.read_ref(l, mem) if l.op == "ref" else l, v))
        return v

    def read_ref(self, r, mem):
        """The value behind a mutable reference (decisions are lifted)."""
        if r.op == "case":
            return collapse(t.lift(lambda l: self.read_ref(l, mem), r))
        if r.op != "ref":
            return r
        v = mem.get(r.a[0])
        if v is None:
            raise Unsupported("dangling cell %r" % (r.a[0],))
        for p in r.a[1]:
            v = self.sel(v, p)
        return v

    def sel(self, v, p):
        k = p[0]
        if k == "f":
            return t.field(v, p[1], p[2])
        if k == "v":
            return t.vfield(v, p[2], p[3])
        if k == "i":
            return t.at(v, p[1])
        if k == "k":
            return t.get(v, p[1])
        if k == "mv":
            return t.lift(t.mval, v, p[1])
        if k == "c":
            return v.a[1][p[1]]
        if k == "sl":
            return t.slice_(v, p[1], p[2])
        raise Unsupported("projection %r" % (p,))

    def upd(self, old, proj, val):
        if not proj:
            return val
        p = proj[0]
        k = p[0]
        if old.op == "case" and k in ("f", "v", "c"):
            # keep the decision, update every leaf
            return t.lift(lambda l: self.upd(l, proj, val), old)
        rest = proj[1:]
        if k == "f":
            n = p[3]
            if p[2] != "tuple" and n == 1:
                return self.upd(old, rest, val)
            fs = [t.field(old, i, p[2]) for i in range(n)]
            fs[p[1]] = self.upd(fs[p[1]], rest, val)
            return t.struct(p[2], fs)
        if k == "v":
            n = p[4]
            if old.op == "ctor" and old.a[1] != p[2]:
                return UNDEF
            fs = [t.vfield(old, p[2], i) for i in range(n)]
            fs[p[3]] = self.upd(fs[p[3]], rest, val)
            return t.ctor(p[1], p[2], tuple(fs))
        if k == "i":
            nv = self.upd(t.at(old, p[1]), rest, val) if rest else val
            return t.setat(old, p[1], nv)
        if k == "k":
            nv = self.upd(t.get(old, p[1]), rest, val) if rest else val
            return t.put(old, p[1], nv)
        if k == "mv":
            nv = self.upd(t.lift(t.mval, old, p[1]), rest, val) if rest else val
            return mk("setmval", old, p[1], nv)
        if k == "c":
            cs = list(old.a[1])
            cs[p[1]] = self.upd(cs[p[1]], rest, val)
            return mk("clo", old.a[0], tuple(cs))
        if k == "sl":
            nv = self.upd(t.slice_(old, p[1], p[2]), rest, val) if rest else val
            n = t.length(old)
            return t.concat(t.concat(t.slice_(old, INT(0), p[1]), nv), t.slice_(old, p[2], n))
        raise Unsupported("update %r" % (p,))

    def write_ref(self, r, val, mem):
        if r.op == "ref":
            mem[r.a[0]] = self.upd(mem[r.a[0]], r.a[1], val)
            return
        if r is UNDEF:
            return
        if r.op != "case":
            raise Unsupported("write through " + r.op)
        cells = set(r.rf)
        for c in cells:
            old = mem[c]

            def one(l, v, o):
                if l.op == "ref" and l.a[0] == c:
                    return self.upd(o, l.a[1], v)
                return o
            mem[c] = self.lift_ref(r, val, old, one)

    def lift_ref(self, r, val, old, one):
        if r.op != "case":
            return one(r, val, old)
        atom, brs, d = r.a
        outs = [o for o, _ in brs]
        nb = dict((o, self.lift_ref(b, t.assume(val, atom, o), t.assume(old, atom, o), one)) for o, b in brs)
        nd = None
        if d is not None:
            nd = self.lift_ref(d, t.assume_not(val, atom, outs), t.assume_not(old, atom, outs), one)
        return t.mk_case(atom, nb, nd)

    # ------------------------------------------------------------ places
    def local(self, fr, l, mem):
        v = mem.get((fr.id, l))
        return UNDEF if v is None else v

    def read_place(self, fr, place, mem):
        v = self.local(fr, place[0], mem)
        if not place[1]:
            return v
        tys = self.proj_types(fr.fn, place)
        var = None
        for i, p in enumerate(place[1]):
            ty = tys[i]
            if p == "*":
                v = self.deref(v, mem)
            elif "v" in p:
                var = (p["v"], self.adt_of(ty))
            elif "f" in p:
                if var is not None:
                    adt = var[1]
                    vn = t.ADTS[adt]["variants"][var[0]]["name"]
                    v = t.vfield(v, vn, p["f"])
                    var = None
                else:
                    v = self.field_of(v, p["f"], ty, mem)
            elif "idx" in p:
                v = t.at(v, self.local(fr, p["idx"], mem))
            elif "ci" in p:
                k = p["ci"]
                if p.get("end"):
                    v = t.at(v, t.sub(t.length(v), INT(k)))
                else:
                    v = t.at(v, INT(k))
            elif "sub" in p:
                lo = p["sub"]
                hi = t.sub(t.length(v), INT(p["end"])) if p.get("fromend", True) else INT(p["end"])
                v = t.slice_(v, INT(lo), hi)
            else:
                raise Unsupported("projection %r" % (p,))
        if self.is_bool(tys[-1]):
            v = as_bool(v)
        return v

    def field_of(self, v, i, ty, mem):
        d = self.ty(ty)
        if d["k"] == "adt" and d["def"] in TRANSPARENT:
            return v
        if v.op == "ref":
            return v
        if v.op == "clo":
            return v.a[1][i]
        if d["k"] == "closure":
            return t.lift(lambda l: l.a[1][i] if l.op == "clo" else mk("field", l, i), v)
        return t.field(v, i, self.adt_of(ty))

    def lval(self, fr, place, mem):
        """A reference term for the place."""
        r = mk("ref", (fr.id, place[0]), ())
        if (fr.id, place[0]) not in mem:
            mem[(fr.id, place[0])] = UNDEF
        tys = self.proj_types(fr.fn, place)
        var = None
        for i, p in enumerate(place[1]):
            ty = tys[i]
            if p == "*":
                v = self.read_ref(r, mem)
                if v.op == "ref" or (v.op == "case" and v.rf):
                    r = v
            elif "v" in p:
                var = (p["v"], self.adt_of(ty))
            elif "f" in p:
                d = self.ty(ty)
                if d["k"] == "adt" and d["def"] in TRANSPARENT:
                    continue
                if var is not None:
                    adt = var[1]
                    vd = t.ADTS[adt]["variants"][var[0]]
                    r = self.ext(r, ("v", adt, vd["name"], p["f"], len(vd["fields"])))
                    var = None
                elif d["k"] == "closure":
                    r = self.ext(r, ("c", p["f"]))
                elif d["k"] == "tuple":
                    r = self.ext(r, ("f", p["f"], "tuple", len(d["args"])))
                else:
                    adt = self.adt_of(ty)
                    n = len(t.ADTS[adt]["variants"][0]["fields"]) if adt in t.ADTS else 99
                    if n == 1:
                        continue
                    r = self.ext(r, ("f", p["f"], adt, n))
            elif "idx" in p:
                r = self.ext(r, ("i", self.local(fr, p["idx"], mem)))
            elif "ci" in p:
                k = INT(p["ci"])
                if p.get("end"):
                    k = t.sub(t.length(self.read_ref(r, mem)), k)
                r = self.ext(r, ("i", k))
            else:
                raise Unsupported("lvalue projection %r" % (p,))
        return r

    def ext(self, r, p):
        return t.lift(lambda l: mk("ref", l.a[0], l.a[1] + (p,)) if l.op == "ref" else UNDEF, r)

    # ------------------------------------------------------------ constants and operands
    def const(self, fr, k):
        if "promoted" in k:
            of = k["of"]
            body = self.c.promoted(of, k["promoted"])
            m = {P: FALSE}
            v, m2 = self.run_body(body, [], m)
            if v is None:
                return UNDEF
            return self.freeze(v, m2)
        if "fn" in k:
            if k.get("ctor"):
                return mk("ctorfn", k.get("adt") or "", str(k.get("variant")))
            key = k.get("inst") or k["fn"]
            self.fnvals[key] = k
            return mk("fnv", key)
        v = self.cval(k.get("v"), k.get("ty"))
        if self.is_bool(k.get("ty")) and v.op == "int":
            return TRUE if v.a[0] else FALSE
        return v

    def freeze(self, v, mem):
        if v.op == "ref":
            return self.read_ref(v, mem)
        if v.rf:
            return t.rebuild(v, lambda x: self.freeze(x, mem))
        return v

    def cval(self, v, ty):
        if v is None:
            return UNIT
        if "int" in v:
            if ty is not None and self.is_bool(ty):
                return TRUE if v["int"] else FALSE
            return INT(v["int"])
        if "big" in v:
            return INT(int(v["big"]))
        if "str" in v:
            return t.STR(v["str"])
        if "bytes" in v:
            b = v["bytes"]
            if isinstance(b, list):
                return mk("bytes", tuple(b))
            return mk("bytes", b)
        if "ref" in v:
            ity = None
            if ty is not None:
                a = self.ty(ty).get("args") or []
                ity = a[0] if a else None
            return self.cval(v["ref"], ity)
        if "agg" in v:
            aty = v.get("ty", ty)
            d = self.ty(aty)
            if d["k"] == "tuple":
                return t.struct("tuple", [self.cval(x, d["args"][i]) for i, x in enumerate(v["agg"])])
            if d["k"] == "adt":
                adt = t.ADTS.get(d["def"])
                vd = adt["variants"][v.get("variant") or 0]
                xs = [self.cval(x, vd["fields"][i][1]) for i, x in enumerate(v["agg"])]
                if adt["enum"]:
                    return t.ctor(d["def"], vd["name"], tuple(xs))
                return t.struct(d["def"], xs)
            ety = (d.get("args") or [None])[0]
            return t.SEQ([t.E(self.cval(x, ety)) for x in v["agg"]])
        if "fn" in v or "closure" in v:
            if "closure" in v:
                return mk("clo", v["closure"], ())
            self.fnvals[str(v["fn"])] = v
            return mk("fnv", str(v["fn"]))
        return mk("unk", "const", str(v)[:60])

    def operand(self, fr, o, mem):
        if "c" in o:
            return self.read_place(fr, o["c"], mem)
        if "m" in o:
            return self.read_place(fr, o["m"], mem)
        return self.const(fr, o["k"])

    def operand_ty(self, fr, o):
        if "c" in o:
            return self.proj_types(fr.fn, o["c"])[-1]
        if "m" in o:
            return self.proj_types(fr.fn, o["m"])[-1]
        return o["k"].get("ty")

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, rv, mem, dty):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1], mem)
        if k == "ref":
            if rv[2]:
                return self.lval(fr, rv[1], mem)
            pl = rv[1]
            # shared references see the value
            return self.read_place(fr, pl, mem)
        if k == "agg":
            xs = [self.operand(fr, o, mem) for o in rv[2]]
            a = rv[1]
            if a[0] == "tuple":
                return t.struct("tuple", xs)
            if a[0] == "array":
                return t.SEQ([t.E(x) for x in xs])
            if a[0] == "closure":
                return mk("clo", a[1], tuple(xs))
            if a[0] == "adt":
                adt = t.ADTS.get(a[1])
                if adt is None:
                    return mk("struct", a[1], tuple(xs))
                if adt["enum"]:
                    return t.ctor(a[1], adt["variants"][a[2]]["name"], tuple(xs))
                if a[1] in TRANSPARENT and xs:
                    return xs[0]
                return t.struct(a[1], xs)
            raise Unsupported("aggregate %r" % (a,))
        if k == "discr":
            v = self.read_place(fr, rv[1], mem)
            ty = self.proj_types(fr.fn, rv[1])[-1]
            return mk("dv", self.adt_of(ty), v)
        if k == "bin":
            a = self.operand(fr, rv[2], mem)
            b = self.operand(fr, rv[3], mem)
            return self.binop(rv[1], a, b)
        if k == "un":
            a = self.operand(fr, rv[2], mem)
            if rv[1] == "Not":
                ty = self.operand_ty(fr, rv[2])
                if self.is_bool(ty):
                    return NOT(as_bool(a))
                return mk("op", "not", a)
            if rv[1].startswith("PtrMetadata"):
                return t.length(self.deref(a, mem))
            if rv[1] == "Neg":
                return t.mulc(a, -1)
            raise Unsupported("unary " + rv[1])
        if k == "cast":
            a = self.operand(fr, rv[1], mem)
            kind = rv[3]
            if kind == "IntToInt":
                dst = self.ty(rv[2])["s"]
                src = self.ty(self.operand_ty(fr, rv[1]))["s"]
                if a.op == "dv":
                    return self.dv_int(a)
                if dst == "u8" and src not in ("u8", "bool"):
                    return t.lift(lambda x: INT(x.a[0] & 255) if x.op == "int" else mk("op", "u8", x), a)
                if src == "bool":
                    return ite(as_bool(a), INT(1), INT(0))
                if dst == "u16" and src not in ("u8", "u16"):
                    return mk("op", "u16", a)
                return a
            if kind == "PointerExposeProvenance":
                return mk("ext", "core::ptr::addr", (a,))
            return a
        if k == "repeat":
            n = self.ty(dty).get("s", "")
            cnt = n.rsplit(";", 1)[-1].strip(" ]").replace("_usize", "").replace("usize", "") if ";" in n else None
            v = self.operand(fr, rv[1], mem)
            if cnt and cnt.isdigit():
                return mk("repeat", v, INT(int(cnt)))
            return mk("repeat", v, mk("sym", "N"))
        if k == "setdiscr":
            raise Unsupported("setdiscr")
        return mk("unk", "rvalue", str(rv)[:80])

    def dv_int(self, d):
        adt, x = d.a
        vs = t.ADTS[adt]["variants"]
        return switch_discr(x, adt, dict((v["name"], INT(v["discr"])) for v in vs))

    def binop(self, op, a, b):
        if a.op == "dv" and b.op == "dv":
            if op in ("Eq", "Ne") and a.a[0] == b.a[0]:
                adt = a.a[0]
                vs = [v["name"] for v in t.ADTS[adt]["variants"]]
                r = switch_discr(a.a[1], adt, dict((v, t.is_variant(b.a[1], adt, v)) for v in vs))
                return r if op == "Eq" else NOT(r)
            a, b = self.dv_int(a), self.dv_int(b)
        elif a.op == "dv":
            a = self.dv_int(a)
        elif b.op == "dv":
            b = self.dv_int(b)
        if op in ("Add", "AddUnchecked"):
            return t.add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return t.sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return t.mul(a, b)
        if op == "Eq":
            return t.eq(a, b)
        if op == "Ne":
            return NOT(t.eq(a, b))
        if op == "Lt":
            return t.lt(a, b)
        if op == "Le":
            return t.le(a, b)
        if op == "Gt":
            return t.lt(b, a)
        if op == "Ge":
            return t.le(b, a)
        if op in ("BitAnd", "BitOr", "BitXor") and (t._isbool(a) or t._isbool(b)):
            if op == "BitAnd":
                return AND(as_bool(a), as_bool(b))
            if op == "BitOr":
                return OR(as_bool(a), as_bool(b))
            return ite(as_bool(a), NOT(as_bool(b)), as_bool(b))
        return t.lift(lambda x, y: mk("op", op.lower(), x, y), a, b)

    # ------------------------------------------------------------ running code
    def run_fn(self, upath, args, mem):
        """Fold in a function of the crate.  mem is updated; returns the value or None."""
        fn = self.c.by_upath[upath]
        n = self.stack.count(upath)
        if n > 5 or (n and ir.reaches(self.c, fn)) or (upath in self.opaque and self.stack):
            return self.opaque_call(fn, args, mem)
        if len(self.stack) > 60:
            raise Unsupported("depth")
        self.visited_fns[upath] = self.visited_fns.get(upath, 0) + 1
        self.stack.append(upath)
        try:
            v, m2 = self.run_body(fn, args, mem)
        finally:
            self.stack.pop()
        mem.clear()
        mem.update(m2)
        return v

    def opaque_call(self, fn, args, mem):
        n = 0
        while self.fw and n < 4:
            g = ir.forwards(self.c, fn)
            if g is None or not (g["upath"] in self.opaque or fn["upath"] not in self.opaque):
                break
            fn, n = g, n + 1
        return self.opaque_name(fn["path"], args, mem)

    def opaque_name(self, name, args, mem, op="call", bool_=False):
        vals = []
        refs = []
        for a in args:
            if a.rf:
                refs.append(a)
                vals.append(self.freeze(a, mem))
            else:
                vals.append(a)
        c = mk(op, name, tuple(vals))
        self.calls[name] = self.calls.get(name, 0) + 1
        k = 0
        for a in refs:
            for r in t.collect(a, lambda x: x.op == "ref"):
                self.write_ref(r, mk("mut", c, k), mem)
                k += 1
        v = mk("ret", c)
        return as_bool(v) if bool_ else v

    def run_body(self, fn, args, mem):
        fr = Frame()
        fr.fn = fn
        self.nfr += 1
        fr.id = self.nfr
        fr.cfg = self.c.cfg(fn)
        if fr.cfg.irreducible:
            raise Unsupported("irreducible control flow in " + fn["path"])
        mem = dict(mem)
        for i, a in enumerate(args):
            mem[(fr.id, i + 1)] = a
        lv = fr.cfg.level(None)
        outs = self.process(fr, lv, {0: [(TRUE, mem)]}, None)
        rets = [(pc, m) for s, pc, m in outs if s == RET]
        if not rets:
            pm = dict(mem)
            if not self.um:
                pm[P] = TRUE
            return None, pm
        pc, m = self.merge(rets, None, ret=(fr.id, 0))
        v = m.get((fr.id, 0), UNDEF)
        if v is not UNDEF and self.is_bool(fn["locals"][0]):
            v = as_bool(v)
        keep = {}
        fid = fr.id
        live = set()
        if v.rf:
            live = self.reach(v.rf, m)
        for c, x in m.items():
            if c[0] != fid or c in live:
                keep[c] = x
        return v, keep

    def reach(self, cells, m):
        seen = set()
        work = list(cells)
        while work:
            c = work.pop()
            if c in seen:
                continue
            seen.add(c)
            x = m.get(c)
            if x is not None and x.rf:
                work += list(x.rf)
        return seen

    def merge(self, outs, live, ret=None):
        """outs: [(pc, mem)]; live: predicate on cells or None."""
        if len(outs) == 1:
            pc, m = outs[0]
            return pc, dict(m)
        care = FALSE
        for pc, _ in outs:
            care = OR(care, pc)
        pcs = [pc for pc, _ in outs]
        if care is not TRUE:
            pcs = [collapse(ite(care, pc, UNDEF)) for pc in pcs]
        # an outcome that is certain
        keep = [(p, m) for p, (_, m) in zip(pcs, outs) if p is not FALSE]
        if len(keep) == 1:
            return care, dict(keep[0][1])
        m = {}
        cells = set()
        for _, x in keep:
            cells |= x.keys()
        for c in cells:
            vs = [x.get(c) for _, x in keep]
            f = vs[0]
            if all(v is f for v in vs):
                m[c] = f
                continue
            if live is not None and not live(c):
                continue
            if ret is not None and c[0] == ret[0] and c != ret:
                continue
            have = [(p, v) for (p, _), v in zip(keep, vs) if v is not None and v is not UNDEF]
            if not have:
                continue
            if len(have) < len(keep):
                # undefined on some outcome: don't care there
                cc = FALSE
                for p, _ in have:
                    cc = OR(cc, p)
                have = [(collapse(ite(cc, p, UNDEF)), v) for p, v in have]
            r = have[-1][1]
            for p, v in reversed(have[:-1]):
                r = ite(p, v, r)
            m[c] = r
        return care, m

    def live_pred(self, fr, block, outs):
        li = fr.cfg.live_in.get(block, ())
        fid = fr.id
        roots = set()
        for _, m in outs:
            for c, x in m.items():
                if x.rf and (c[0] != fid or c[1] in li):
                    roots |= x.rf
        reach = set()
        for _, m in outs:
            reach |= self.reach(roots, m)
        return lambda c: c[0] != fid or c[1] in li or c in reach

    def process(self, fr, lv, contrib, stop, entry=False):
        """Evaluate from the contributions until stop / the sinks of the level."""
        outs = []
        panics = FALSE
        loop = lv.loop
        first = entry
        while contrib:
            # sinks
            node = None
            best = None
            for b in list(contrib):
                sink = None
                if b == stop:
                    sink = b
                elif b == RET or isinstance(b, tuple):
                    sink = b
                elif loop and b == loop.header and not first:
                    sink = LATCH
                elif b not in lv.nodes:
                    sink = ("X", b)
                if sink == DEAD:
                    for pc, m in contrib.pop(b):
                        if loop:
                            outs.append((("X", DEAD), pc, m))
                        else:
                            panics = OR(panics, pc)
                    continue
                if sink is not None:
                    for pc, m in contrib.pop(b):
                        outs.append((sink, pc, m))
                    continue
                i = lv.idx[b]
                if best is None or i < best:
                    best, node = i, b
            if node is None:
                break
            first = False
            cs = contrib.pop(node)
            pc, mem = self.merge(cs, self.live_pred(fr, node, cs) if len(cs) > 1 else None)
            res = self.exec_node(fr, lv, node, mem)
            if not res:
                if not self.um:
                    panics = OR(panics, pc)
                continue
            if len(res) == 1:
                s, c, m = res[0]
                contrib.setdefault(s, []).append((pc, m))
                continue
            p = lv.ipdom.get(node)
            if isinstance(p, tuple) or p == -1:
                p = None
            sub = {}
            for s, c, m in res:
                if c is FALSE:
                    continue
                sub.setdefault(s, []).append((c, m))
            if len(sub) == 1 and sum(len(x) for x in sub.values()) == 1:
                (s, [(c, m)]), = sub.items()
                contrib.setdefault(s, []).append((pc, m))
                continue
            so = self.process(fr, lv, sub, p)
            at_p = [(c, m) for s, c, m in so if s == p and p is not None]
            rest = [(s, c, m) for s, c, m in so if not (s == p and p is not None)]
            if at_p:
                c, m = self.merge(at_p, self.live_pred(fr, p, at_p))
                contrib.setdefault(p, []).append((AND(pc, c), m))
            for s, c, m in rest:
                outs.append((s, AND(pc, c), m))
            if not so and not self.um:
                panics = OR(panics, pc)
        if panics is not FALSE and outs:
            care = FALSE
            for _, pc, _ in outs:
                care = OR(care, pc)
            no = []
            for s, pc, m in outs:
                m = dict(m)
                m[P] = OR(m[P], panics)
                if care is not TRUE:
                    pc = collapse(ite(care, pc, UNDEF))
                no.append((s, pc, m))
            outs = no
        return outs

    def exec_node(self, fr, lv, node, mem):
        """[(successor, condition, memory)]"""
        if node in lv.compound:
            return self.eval_loop(fr, lv.compound[node], mem)
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        mem = dict(mem)
        bl = fr.fn["blocks"][node]
        for s in bl["s"]:
            t.cur_span[0] = s[2]
            self.assign(fr, s[0], s[1], mem)
        tm = bl["t"]
        t.cur_span[0] = bl["sp"]
        k = tm[0]
        if k == "goto":
            return [(tm[1], TRUE, mem)]
        if k == "ret":
            return [(RET, TRUE, mem)]
        if k == "drop":
            return [(tm[1], TRUE, mem)]
        if k == "assert":
            if self.xp and not self.um:
                c = as_bool(self.operand(fr, tm[2], mem))
                if not c.unk and not c.rf:
                    self.fails(mem, NOT(c) if tm[3] else c)
            return self.failing(mem, [(tm[1], TRUE, mem)])
        if k == "unreachable":
            return []
        if k == "switch":
            return self.switch(fr, tm, mem)
        if k == "call":
            dest = tm[3]
            dty = self.proj_types(fr.fn, dest)[-1] if dest is not None else None
            v = self.call(fr, tm, mem, dty)
            if v is None or tm[4] is None:
                return []
            if dty is not None and self.is_bool(dty):
                v = as_bool(v)
            self.store(fr, dest, v, mem)
            return self.failing(mem, [(tm[4], TRUE, mem)])
        raise Unsupported("terminator " + k)

    def assign(self, fr, place, rv, mem):
        dty = self.proj_types(fr.fn, place)[-1]
        v = self.rvalue(fr, rv, mem, dty)
        self.store(fr, place, v, mem)

    def store(self, fr, place, v, mem):
        if not place[1]:
            mem[(fr.id, place[0])] = v
            return
        self.write_ref(self.lval(fr, place, mem), v, mem)

    def switch(self, fr, tm, mem):
        op, tgts, other = tm[1], tm[2], tm[3]
        x = self.operand(fr, op, mem)
        res = []
        live = fr.cfg.live
        if x.op == "dv":
            adt, v = x.a
            vs = t.ADTS[adt]["variants"]
            by = {vd["discr"]: vd["name"] for vd in vs}
            used = set()
            for val, b in tgts:
                n = by.get(val)
                if n is None:
                    continue
                used.add(n)
                res.append((b, t.is_variant(v, adt, n)))
            rest = [vd["name"] for vd in vs if vd["name"] not in used]
            if rest and other is not None:
                res.append((other, switch_discr(v, adt, dict((n, TRUE) for n in rest), FALSE)))
        elif self.is_bool(self.operand_ty(fr, op)) or x.op in ("bool",):
            c = as_bool(x)
            f = dict((v, b) for v, b in tgts)
            res.append((f.get(1, other), c))
            res.append((f.get(0, other), NOT(c)))
        else:
            vals = [v for v, _ in tgts]
            for v, b in tgts:
                res.append((b, t.switch_val(x, {v: TRUE}, FALSE)))
            if other is not None:
                res.append((other, t.switch_val(x, dict((v, FALSE) for v in vals), TRUE)))
        out = []
        for b, c in res:
            if c is FALSE or c is UNDEF:
                continue
            if fr.fn["blocks"][b]["t"][0] == "unreachable" and not fr.fn["blocks"][b]["s"]:
                continue
            out.append((b, c, mem))
        if len(out) > 1:
            care = FALSE
            for _, c, _ in out:
                care = OR(care, c)
            if care is not TRUE:
                out = [(b, collapse(ite(care, c, UNDEF)), m) for b, c, m in out]
        if len(out) == 1:
            return [(out[0][0], TRUE, mem)]
        return out

    # ------------------------------------------------------------ calls
    def call(self, fr, tm, mem, dty):
        f = tm[1]
        args = [self.operand(fr, a, mem) for a in tm[2]]
        k = f.get("k") if isinstance(f, dict) else None
        if k is None or "fn" not in k:
            fv = self.operand(fr, f, mem)
            return self.call_value(fv, args, mem, dty)
        return self.call_const(k, args, mem, dty, fr)

    def call_const(self, k, args, mem, dty, fr=None):
        if k.get("ctor"):
            return self.make_ctor(k.get("adt"), k.get("variant"), args)
        r = self.lib.call(k, args, mem, dty)
        if r is not NotImplemented:
            return r
        inst = k.get("inst")
        fn = self.c.by_upath.get(inst) if inst else None
        if fn is None and k.get("local"):
            fn = self.c.by_path.get(k["fn"])
        if fn is not None:
            if len(self.stack) and fn["path"].startswith("parser::grammar::") and "::__action" not in fn["path"].replace("::__parse", ""):
                return self.opaque_call(fn, args, mem)
            return self.run_fn(fn["upath"], args, mem)
        name = k.get("fn")
        self.exts[name] = self.exts.get(name, 0) + 1
        return self.opaque_name(name, args, mem, "ext")

    def make_ctor(self, adt, variant, args):
        d = t.ADTS.get(adt)
        if d is None:
            return mk("struct", str(adt), tuple(args))
        if not d["enum"]:
            return t.struct(adt, args)
        vn = variant
        if isinstance(variant, int) or (isinstance(variant, str) and variant.isdigit()):
            vn = d["variants"][int(variant)]["name"]
        return t.ctor(adt, vn, tuple(args))

    def call_value(self, f, args, mem, dty=None):
        """Call a closure or function value with the given argument list."""
        f0 = f
        f = self.deref(f, mem) if (f.op == "ref" or f.rf) and f.op in ("ref", "case") else f
        if f.op == "clo":
            fn = self.c.by_upath.get(f.a[0])
            if fn is None:
                raise Unsupported("closure " + f.a[0])
            env = f0 if f0.op == "ref" else f
            return self.run_fn(f.a[0], [env] + list(args), mem)
        if f.op == "fnv":
            k = self.fnvals.get(f.a[0])
            if k is None:
                raise Unsupported("function value " + str(f.a[0]))
            return self.call_const(k, list(args), mem, dty)
        if f.op == "ctorfn":
            return self.make_ctor(f.a[0], f.a[1], args)
        if f.op == "case":
            raise Unsupported("call of a decision")
        return self.opaque_name("apply", [f] + list(args), mem, "app")

    def under(self, cond, fn, mem):
        """Run fn(mem) where cond holds; merge its effects."""
        if cond is FALSE:
            return UNDEF
        if cond is TRUE:
            r = fn(mem)
            return r
        m2 = dict(mem)
        r = fn(m2)
        if r is None:
            if not self.um:
                mem[P] = OR(mem[P], cond)
            return UNDEF
        for c in list(m2):
            if c in mem:
                if m2[c] is not mem[c]:
                    mem[c] = ite(cond, m2[c], mem[c])
            else:
                mem[c] = m2[c]
        return r

    def fails(self, mem, cond):
        if self.xp and cond is not FALSE:
            mem[FAIL] = OR(mem.get(FAIL, FALSE), cond)

    def failing(self, mem, out):
        """Split off what fails here."""
        f = mem.pop(FAIL, None)
        if f is None or f is FALSE or not out:
            return out
        if f is TRUE:
            return []
        return [(b, AND(NOT(f), c), m) for b, c, m in out] + [(DEAD, f, mem)]

    def out_of(self, mem, i, n, unchecked=False):
        if self.xp and (unchecked or not self.um):
            c = t._lin(i)[0] if i.op in ("lin", "int") else 0
            if -4 <= c < 0:
                neg = FALSE
                for k in range(1, 1 - c):
                    neg = OR(neg, t.eq(t.add(i, INT(k)), INT(0)))
            else:
                neg = t.le0(t.add(i, INT(1)))
            if neg is not TRUE:
                self.fails(mem, OR(neg, t.le(n, i)))
            else:
                self.fails(mem, TRUE)

    # ------------------------------------------------------------ loops
    def eval_loop(self, fr, loop, mem):
        self.loops += 1
        lv = fr.cfg.level(loop)
        li = fr.cfg.live_in[loop.header]
        fid = fr.id
        roots = set()
        for c, x in mem.items():
            if x.rf and (c[0] != fid or c[1] in li):
                roots |= x.rf
        reach = self.reach(roots, mem)

        def keep(c):
            return c[0] != fid or c[1] in li or c in reach
        base = {c: x for c, x in mem.items() if keep(c)}

        def body(m):
            return self.process(fr, lv, {loop.header: [(TRUE, m)]}, None, True)
        outs = self.loop_core(base, body, (fr.fn["upath"], loop.header))
        res = []
        for s, c, m in outs:
            if isinstance(s, tuple) and s[0] == "X":
                res.append((s[1], c, m))
            elif s == RET:
                res.append((RET, c, m))
            else:
                raise Unsupported("loop exit %r" % (s,))
        return res

    def loop_core(self, mem0, body, seedkey=None):
        tag = fresh()
        cvs = []          # [(cell, init)]
        gen = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise Unsupported("loop does not stabilise")
            mem_h = dict(mem0)
            mem_h.update(gen)
            outs = body(dict(mem_h))
            latch = [(pc, m) for s, pc, m in outs if s == LATCH]
            if not latch:
                return [(s, pc, m) for s, pc, m in outs]
            lpc, lm = self.merge(latch, lambda c: c in mem_h)
            if lpc is not TRUE:
                # what holds whenever another iteration follows
                for cell, hv in mem_h.items():
                    x = lm.get(cell)
                    if x is not None and x is not hv and lpc.atoms & x.atoms:
                        lm[cell] = self.given(x, lpc)
            changed = False
            for cell, hv in mem_h.items():
                lvv = lm.get(cell)
                if lvv is None or lvv is hv:
                    continue
                nv = self.generalise(cell, hv, lvv, mem0[cell], cvs, tag)
                if nv is not hv:
                    gen[cell] = nv
                    changed = True
            if not changed:
                break
        # steps of the loop variables
        steps = {}
        inits = {}

        def pair(hv, lvv, init):
            if hv.op == "cv" and hv.a[0] == tag:
                steps[hv] = lvv
                inits[hv] = init
            elif hv.op == "struct":
                for i in range(len(hv.a[1])):
                    pair(hv.a[1][i], lvv.a[1][i] if lvv.op == "struct" else t.field(lvv, i),
                         init.a[1][i] if init.op == "struct" else t.field(init, i))
            elif hv.op == "case":
                # generalised boolean
                b = hv.a[0]
                if b.op == "cv" and b.a[0] == tag:
                    steps[b] = lvv
                    inits[b] = init
        for cell in gen:
            if cell in lm:
                pair(mem_h[cell], lm[cell], mem0[cell])
            else:
                # dead at the latch
                def dead(hv):
                    if hv.op == "cv":
                        steps[hv] = UNDEF
                        inits[hv] = UNDEF
                    elif hv.op == "struct":
                        for y in hv.a[1]:
                            dead(y)
                    elif hv.op == "case" and hv.a[0].op == "cv":
                        dead(hv.a[0])
                dead(mem_h[cell])
        exits = [(s, pc, m) for s, pc, m in outs if s != LATCH]
        from . import loops
        return loops.solve(self, tag, mem_h, steps, inits, exits)

    def given(self, x, pc):
        if x.op == "struct":
            return mk("struct", x.a[0], tuple(self.given(y, pc) for y in x.a[1]))
        x = t.force(x, pc)
        return collapse(ite(pc, x, UNDEF)) if x.op == "case" else x

    def generalise(self, cell, hv, lvv, init, cvs, tag):
        if hv is lvv:
            return hv
        if hv.op == "cv" and hv.a[0] == tag:
            return hv
        if hv.op == "case" and hv.a[0].op == "cv" and hv.a[0].a[0] == tag and hv is t.batom(hv.a[0]):
            return hv
        if lvv.op == "struct" and hv.op in ("struct", "sym", "at", "field", "vfield", "ret", "mut", "get", "mval", "lv") and hv.op != "cv":
            n = len(lvv.a[1])
            fs = []
            for i in range(n):
                h = hv.a[1][i] if hv.op == "struct" else t.field(hv, i)
                ini = init.a[1][i] if init.op == "struct" else t.field(init, i)
                fs.append(self.generalise(cell, h, lvv.a[1][i], ini, cvs, tag))
            return mk("struct", lvv.a[0], tuple(fs))
        if hv.op == "struct" and lvv.op != "struct":
            n = len(hv.a[1])
            fs = []
            for i in range(n):
                ini = init.a[1][i] if init.op == "struct" else t.field(init, i)
                fs.append(self.generalise(cell, hv.a[1][i], t.field(lvv, i), ini, cvs, tag))
            return mk("struct", hv.a[0], tuple(fs))
        cv = mk("cv", tag, len(cvs))
        cvs.append((cell, init))
        if t._isbool(hv) or t._isbool(lvv) or t._isbool(init):
            return t.batom(cv)
        return cv

    # synthetic loop over a sequence
    def over_seq(self, s, mem, step):
        """step(mem, elem) -> list of (sink, pc, mem) with sink LATCH or ('B', name);
        returns outcomes [(sink, pc, mem)] with ('END',) for exhaustion."""
        self.nheap += 1
        pos = ("S", self.nheap)
        m0 = dict(mem)
        m0[pos] = INT(0)
        n = t.length(s)

        def body(m):
            i = m[pos]
            c = t.lt(i, n)
            outs = []
            if c is not TRUE:
                outs.append((("END",), NOT(c), m))
            if c is not FALSE:
                m2 = dict(m)
                m2[pos] = t.add(i, INT(1))
                for s2, pc, m3 in step(m2, t.at(s, i)):
                    outs.append((s2, AND(c, pc), m3))
            return outs
        outs = self.loop_core(m0, body)
        for _, _, m in outs:
            m.pop(pos, None)
        return outs

    def while_next(self, mem, nxt, step):
        """Loop calling nxt(mem)->option until None."""
        def body(m):
            o = nxt(m)
            if o is None:
                return []
            c = t.is_variant(o, t.OPT, "Some")
            outs = []
            if c is not TRUE:
                outs.append((("END",), NOT(c), m))
            if c is not FALSE:
                for s2, pc, m3 in step(dict(m), t.vfield(o, "Some", 0)):
                    outs.append((s2, AND(c, pc), m3))
            return outs
        return self.loop_core(mem, body)
