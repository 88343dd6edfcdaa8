"""Solving a loop: induction variables, counts, accumulators, searches; the rest becomes a fold."""
from . import term as t
from .term import mk, INT, TRUE, FALSE, UNDEF, EMPTY, ite, AND, OR, NOT, subst, collapse, fresh


def has_cv(x, tag):
    if tag not in x.fv:
        return False
    return t.contains(x, lambda y: y.op == "cv" and y.a[0] == tag)


def cvs_of(x, tag):
    if tag not in x.fv:
        return []
    return t.collect(x, lambda y: y.op == "cv" and y.a[0] == tag)


def free(x, tag):
    return not has_cv(x, tag)


def at_bv(body, tag, upto):
    """body with the loop counter as its own bound variable, counted up to upto."""
    tmp = fresh()
    return tmp, t.rename(body, tag, tmp)


def strip_seq(step, cv):
    """The parts appended to the variable, or None."""
    if step.op == "seq" and step.a[0] and step.a[0][0].op == "sp" and step.a[0][0].a[0] is cv:
        return mk("seq", step.a[0][1:])
    return None


def strip_any(step, cv):
    body = strip_seq(step, cv)
    if body is not None:
        return body, "seq"
    if step.op == "set" and any(p.op == "sp" and p.a[0] is cv for p in step.a[0]):
        return mk("set", tuple(p for p in step.a[0] if not (p.op == "sp" and p.a[0] is cv))), "set"
    return None, None


def reach(cvs, steps, tag):
    """The variables that these depend on."""
    roots, work = set(), list(cvs)
    while work:
        x = work.pop()
        if x in steps and x not in roots:
            roots.add(x)
            work += cvs_of(steps[x], tag)
    return roots


def contains_cv(x, cv):
    return cv.a[0] in x.fv and t.contains(x, lambda y: y is cv)


def solve_one(ev, tag, cv, init, step):
    """Closed form at the start of iteration bv, or None."""
    bv = mk("bv", tag)
    if step is cv or step is UNDEF:
        return init
    b = t.batom(cv)
    if step is b:
        return init
    # counter
    d = t.sub(step, cv) if step.op in ("lin",) else None
    if d is not None and free(d, tag) and tag not in d.fv:
        return t.add(init, t.mul(d, bv))
    # accumulation of a sequence
    body = strip_seq(step, cv)
    if body is not None and free(body, tag):
        tmp, b2 = at_bv(body, tag, bv)
        return t.concat(init, t.rep(tmp, bv, b2))
    if step.op == "set" and any(p.op == "sp" and p.a[0] is cv for p in step.a[0]):
        rest = mk("set", tuple(p for p in step.a[0] if not (p.op == "sp" and p.a[0] is cv)))
        if free(rest, tag):
            tmp, b2 = at_bv(rest, tag, bv)
            return t.union(init, t.rep_set(tmp, bv, b2))
    # shrinking from one end
    if step.op == "slice" and step.a[0] is cv:
        n = t.length(cv)
        lo, hi = step.a[1], t.sub(n, step.a[2])
        if lo.op == "int" and hi.op == "int":
            m = t.length(init)
            return t.slice_(init, t.mul(lo, bv), t.sub(m, t.mul(hi, bv)))
    # booleans
    if t._isbool(step):
        st = t.assume(step, cv, True)
        sf = t.assume(step, cv, False)
        if free(st, tag) and free(sf, tag):
            if st is TRUE:
                tmp, c = at_bv(sf, tag, bv)
                return OR(ev_bool(init), t.exists(tmp, bv, c))
            if sf is FALSE:
                tmp, c = at_bv(NOT(st), tag, bv)
                return AND(ev_bool(init), NOT(t.exists(tmp, bv, c)))
    # element-wise update
    if step.op == "setat" and step.a[0] is cv and step.a[1] is bv:
        v = subst(step.a[2], {mk("at", cv, bv): t.at(init, bv)})
        if free(v, tag):
            tmp, b2 = at_bv(v, tag, bv)
            return patch(init, bv, t.rep(tmp, bv, mk("seq", (t.E(b2),))))
    if step.op == "case":
        pw = pointwise(step, cv, bv)
        if pw is not None:
            v = subst(pw, {mk("at", cv, bv): t.at(init, bv)})
            if free(v, tag):
                tmp, b2 = at_bv(v, tag, bv)
                return patch(init, bv, t.rep(tmp, bv, mk("seq", (t.E(b2),))))
    if step.op == "setmval" and step.a[0] is cv and step.a[1] is bv:
        v = subst(step.a[2], {mk("mval", cv, bv): t.lift(t.mval, init, bv)})
        if free(v, tag):
            tmp, b2 = at_bv(v, tag, bv)
            return mk("patchm", init, t.rep(tmp, bv, mk("seq", (t.E(b2),))))
    # one entry changes, the rest stays
    r = focus(ev, tag, cv, init, step)
    if r is not None:
        return r
    r = group(tag, cv, init, step)
    if r is not None:
        return r
    # map built entry by entry
    m = puts(step, cv)
    if m is not None and free(m, tag):
        tmp, b2 = at_bv(m, tag, bv)
        return mapof(init, t.rep(tmp, bv, b2))
    return None


def group(tag, cv, init, step):
    """One entry of a map collects elements, and is there once it has one."""
    ps = t.collect(step, lambda y: y.op == "put" and y.a[0] is cv)
    if not ps or len(set(y.a[1] for y in ps)) != 1 or tag in ps[0].a[1].fv:
        return None
    k = ps[0].a[1]
    kinds = set(y.a[2].op for y in ps)
    if kinds not in ({"seq"}, {"set"}):
        return None
    kind = kinds.pop()
    empty = EMPTY if kind == "seq" else t.SET0
    old = mk("get", cv, k)
    ok = [True]

    def leaf(present):
        def f(l):
            if l is cv:
                return empty
            if l is UNDEF:
                return UNDEF
            if l.op != "put" or l.a[0] is not cv:
                ok[0] = False
                return UNDEF
            v = l.a[2]
            if present:
                v, _ = strip_any(v, old)
            if v is None or not any(p.op == "e" for p in v.a[0]):
                ok[0] = False
                return UNDEF
            return v
        return f
    a = mk("has", cv, k)
    d = [t.lift(leaf(o), t.assume(step, a, o)) for o in (True, False)]
    if not ok[0] or d[0] is not d[1] or not free(d[0], tag):
        return None
    bv = mk("bv", tag)
    tmp, b2 = at_bv(d[0], tag, bv)
    new = t.rep(tmp, bv, b2) if kind == "seq" else t.rep_set(tmp, bv, b2)
    cur = ite(t.has(init, k), t.get(init, k), empty)
    return ite(t.eq(t.length(new), INT(0)), init, t.put(init, k, (t.concat if kind == "seq" else t.union)(cur, new)))


def injective(k, bv):
    """Different iterations have different keys."""
    tag = bv.a[0]
    if k is bv:
        return True
    if k.op == "mkey":
        return k.a[1] is bv and tag not in k.a[0].fv
    if k.op == "lin":
        d = t.sub(k, bv)
        return tag not in d.fv and d.op != "case"
    if k.op == "struct":
        return any(injective(x, bv) for x in k.a[1])
    return False


def own_keys(tag, cv, init, step):
    """A map or set that only gets the keys of the iterations: each finds what was there before the loop."""
    bv = mk("bv", tag)
    keys = []

    def f(l):
        if l is cv or l is UNDEF:
            return UNDEF
        if l.op == "put" and l.a[0] is cv:
            keys.append(l.a[1])
        else:
            keys.append(None)
        return UNDEF
    t.lift(f, step)
    if not keys or any(k is None or k is not keys[0] for k in keys) or not injective(keys[0], bv):
        return step
    k = keys[0]
    a = mk("has", cv, k)
    if not t.contains(step, lambda y: y is a or (y.op == "get" and y.a[0] is cv)):
        return step
    h = t.has(init, k)
    step = ite(h, t.assume(step, a, True), t.assume(step, a, False)) if h.op != "bool" else t.assume(step, a, h is TRUE)
    return subst(step, {mk("get", cv, k): t.get(init, k)})


def focus(ev, tag, cv, init, step):
    keys = t.collect(step, lambda y: y.op in ("setmval", "setat") and y.a[0] is cv)
    if len(set((y.op, y.a[1]) for y in keys)) != 1 or tag in keys[0].a[1].fv:
        return None
    op, k = keys[0].op, keys[0].a[1]
    el = mk("mval", cv, k) if op == "setmval" else mk("at", cv, k)
    ok = [True]

    def f(l):
        if l is cv:
            return el
        if l.op == op and l.a[0] is cv:
            return l.a[2]
        if l is not UNDEF:
            ok[0] = False
        return UNDEF
    new = t.lift(f, step)
    if not ok[0]:
        return None
    ec = mk("cv", tag, 1000 + cv.a[1])
    new = subst(new, {el: ec})
    if t.contains(new, lambda y: y is cv):
        return None
    i0 = t.lift(t.mval, init, k) if op == "setmval" else t.at(init, k)
    r = solve_one(ev, tag, ec, i0, new)
    if r is None:
        return None
    if op == "setmval":
        return t.lift(lambda m, v: m if v is i0 else mk("setmval", m, k, v), init, r)
    return t.setat(init, k, r)


def ev_bool(x):
    return x if x.op in ("case", "bool", "undef") else t.batom(x)


def patch(init, n, new):
    if n is t.length(init):
        return new
    return mk("patch", init, new)


def pointwise(step, cv, bv):
    """The new element when every leaf is the variable or an update of it at bv."""
    ok = [True]

    def f(l):
        if l is cv:
            return mk("at", cv, bv)
        if l.op == "setat" and l.a[0] is cv and l.a[1] is bv:
            return l.a[2]
        if l is UNDEF:
            return UNDEF
        ok[0] = False
        return UNDEF
    r = t.lift(f, step)
    return r if ok[0] else None


def puts(step, cv):
    """A sequence of (key, value) put into the variable."""
    if step is cv:
        return EMPTY
    if step.op == "put":
        r = puts(step.a[0], cv)
        if r is None:
            return None
        return t.mk_seq_keep(t.push(r, t.tup(step.a[1], step.a[2])))
    if step.op == "mapof":
        r = puts(step.a[0], cv)
        if r is None:
            return None
        return t.mk_seq_keep(t.concat(r, step.a[1]))
    if step.op == "case":
        ok = [True]

        def f(l):
            if l is UNDEF:
                return UNDEF
            r = puts(l, cv) if l.op != "case" else None
            if r is None:
                ok[0] = False
                return UNDEF
            return r
        atom, brs, d = step.a

        def go(x):
            if x.op == "case":
                return t._raw_case(x.a[0], [(o, go(b)) for o, b in x.a[1]], None if x.a[2] is None else go(x.a[2]))
            return t.mk_seq_keep(f(x)) if x is not UNDEF else UNDEF
        r = go(step)
        if not ok[0]:
            return None
        if r.op == "case":
            return mk("seq", tuple(t._alt(r)))
        return r
    return None


def mapof(m, s):
    if s.op == "seq" and not s.a[0]:
        return m
    if m.op == "mapof":
        return mapof(m.a[0], t.concat(m.a[1], s))
    s = again(pairs(s))
    if s.op == "seq" and all(p.op == "e" and p.a[0].op == "struct" for p in s.a[0]):
        for p in s.a[0]:
            m = t.put(m, p.a[0].a[1][0], p.a[0].a[1][1])
        return m
    return mk("mapof", m, s)


def again(s):
    """Entries put into a map: the same entry put several times in a row is put once."""
    if s.op != "seq" or not any(p.op in ("rep", "alt") for p in s.a[0]):
        return s
    out = []
    for p in s.a[0]:
        if p.op == "alt":
            out.append(mk("alt", t._raw_map(p.a[0], lambda x: t.mk_seq_keep(again(x)))))
        elif p.op == "rep":
            tmp = fresh()
            n, stop, body = t.open_(p.a[1:], p.a[0], tmp)
            body = t.mk_seq_keep(again(body))
            q = None
            if stop is FALSE and len(body.a[0]) == 1:
                q = body.a[0][0]
                one, c = (q.a[0], TRUE) if q.op == "e" else (None, None)
                if q.op == "alt":
                    ls = [x for x in t._case_leaves(q.a[0]) if x is not UNDEF]
                    full = [x for x in ls if x.op == "seq" and x.a[0]]
                    if all(x.op == "seq" for x in ls) and full and all(x is full[0] for x in full) and len(full[0].a[0]) == 1 and full[0].a[0][0].op == "e":
                        one = full[0].a[0][0].a[0]
                        c = t._case_map(q.a[0], lambda x: x if x is UNDEF else t.BOOL(bool(x.a[0])))
                q = (c, one) if one is not None and tmp not in one.fv else None
            if q is None:
                out.append(t.close("rep", tmp, (n, stop, body)))
            else:
                out += t.seq_parts(t.ite(t.exists(tmp, n, q[0]), mk("seq", (t.E(q[1]),)), mk("seq", ())))
        else:
            out.append(p)
    return t.mk_seq_keep(t.SEQ(out))


def pairs(s):
    """A sequence of pairs with every pair spelled out."""
    def pair(x):
        if x.op == "struct":
            return x
        return t.tup(t.field(x, 0), t.field(x, 1))

    def leaf(x):
        return t.mk_seq_keep(pairs(x))
    out = []
    for p in t.seq_parts(s):
        if p.op == "e":
            out.append(t.E(pair(p.a[0])))
        elif p.op == "sp" and p.a[0].op != "undef":
            x = p.a[0]
            tmp = fresh()
            out += t.seq_parts(t.rep(tmp, t.length(x), mk("seq", (t.E(pair(t.at(x, mk("bv", tmp)))),))))
        elif p.op == "rep":
            tmp = fresh()
            n, stop, body = t.open_(p.a[1:], p.a[0], tmp)
            out.append(t.close("rep", tmp, (n, stop, leaf(body))))
        elif p.op == "alt":
            out.append(mk("alt", t._raw_map(p.a[0], leaf)))
        else:
            out.append(p)
    r = mk("seq", tuple(out))
    return s if r is s else t.mk_seq_keep(t.SEQ(out)) if out else s


def find_count(C, tag):
    """(n, decision, exit outcome) for a decision of C that says the counter has reached n."""
    bv = mk("bv", tag)
    best = None
    for a in sorted(C.atoms):
        if has_cv(a, tag) or tag not in a.fv:
            continue
        cands = []
        if a.op == "isle":
            c, d = t._lin(a.a[0])
            k = d.get(bv)
            rest = {x: v for x, v in d.items() if x is not bv}
            if k not in (1, -1) or any(tag in x.fv for x in rest):
                continue
            r = t._mklin(c, rest)
            if k == 1:
                cands.append((False, t.sub(INT(1), r)))
            else:
                cands.append((True, r))
        elif a.op == "iseq":
            x, y = a.a
            for p, q in ((x, y), (y, x)):
                if tag not in q.fv:
                    c, d = t._lin(p)
                    if d.get(bv) == 1 and len(d) == 1:
                        cands.append((True, t.sub(q, INT(c))))
        elif a.op == "val" and a.a[0] is bv:
            continue
        for out, n in cands:
            if t.assume(C, a, out) is TRUE:
                return n, a, out
    return None


def source(x, bv, tag):
    """Composite sequences indexed by the counter."""
    return [y.a[0] for y in t.collect(x, lambda y: y.op == "at" and y.a[1] is bv and y.a[0].op == "seq" and tag not in y.a[0].fv)]


def over_parts(ev, tag, steps, inits, exits):
    """A loop over the elements of a composite sequence as a loop over what the sequence is made from."""
    bv = mk("bv", tag)
    cnt = {}
    for cv, s in steps.items():
        if inits[cv].op == "int" and inits[cv].a[0] == 0 and t.sub(s, cv) is INT(1):
            cnt[cv] = bv
    if not cnt:
        return None
    cands = []
    for s in steps.values():
        if s.op != "lin" or s.a[0] != 1:
            cands += source(subst(s, cnt), bv, tag)
    for _, pc, m in exits:
        if tag in pc.fv:
            cands += source(subst(pc, cnt), bv, tag)
    R = None
    for x in cands:
        if len(x.a[0]) == 1 and x.a[0][0].op == "rep":
            R = x
            break
    if R is None:
        return None
    N = t.length(R)
    A = t.lt(bv, N)
    if A.op != "case" or A is not t.batom(A.a[0]) and A is not NOT(t.batom(A.a[0])):
        return None
    atom = A.a[0]
    inr = A is t.batom(atom)
    rest = {cv: subst(s, cnt) for cv, s in steps.items() if cv not in cnt}
    ex = [(s, subst(pc, cnt), m) for s, pc, m in exits]
    full = [pc for _, pc, _ in ex if t.assume(pc, atom, not inr) is TRUE]
    if len(full) != 1:
        return None
    early = any(t.assume(pc, atom, inr) is not FALSE for _, pc, _ in ex)
    tmp = fresh()
    ph = mk("sym", "@" + tmp)
    el = mk("at", R, bv)

    def inner(x):
        return subst(t.assume(x, atom, inr), {el: ph})
    body = {cv: inner(s) for cv, s in rest.items()}
    if any(t.contains(s, lambda y: y is bv) for s in body.values()):
        return None
    epc = [(inner(pc), t.assume(pc, atom, not inr)) for _, pc, _ in ex]
    if any(t.contains(p, lambda y: y is bv) or t.contains(q, lambda y: y is bv) for p, q in epc):
        return None
    t2, n2, _, parts = (lambda tg, oa: (tg,) + tuple(oa))(*t.opened(R.a[0][0], None))
    order = sorted(rest, key=lambda c: c.a[1])

    class Stop(Exception):
        pass

    def step(st, x):
        m = {ph: x}
        m.update(st)
        return {cv: subst(body[cv], m) for cv in order}

    def fold(st, ps):
        for p in ps:
            if p.op == "e":
                st = step(st, p.a[0])
            elif p.op == "lit":
                for ch in p.a[0]:
                    st = step(st, INT(ord(ch)))
            elif p.op == "alt":
                def leaf(x):
                    if x.op == "case":
                        br = [(o, leaf(b)) for o, b in x.a[1]]
                        d = None if x.a[2] is None else leaf(x.a[2])
                        return {cv: t.branch(t.rebuild_atom(x.a[0], lambda y: y), dict((o, b[cv]) for o, b in br),
                                             None if d is None else d[cv]) for cv in order}
                    if x is UNDEF:
                        return {cv: UNDEF for cv in order}
                    return fold(st, t.seq_parts(x))
                st = leaf(p.a[0])
            elif p.op in ("sp", "rep"):
                if early:
                    raise Stop()
                tg = fresh()
                b = mk("bv", tg)
                if p.op == "sp":
                    n = t.length(p.a[0])
                    sub_ = [t.E(t.at(p.a[0], b))]
                else:
                    n, _, bd = t.open_(p.a[1:], p.a[0], tg)
                    sub_ = t.seq_parts(bd)
                cs = {cv: mk("cv", tg, cv.a[1]) for cv in order}

                def wrapb(cv, v):
                    return t.batom(v) if t._isbool(body[cv]) else v
                start = {cv: cs[cv] for cv in order}
                inner_ = fold(start, sub_)
                outs = solve(ev, tg, None, {cs[cv]: inner_[cv] for cv in order}, {cs[cv]: st[cv] for cv in order},
                             [("END", NOT(t.lt(b, n)), {cv: wrapb(cv, cs[cv]) for cv in order})])
                if len(outs) != 1:
                    raise Stop()
                st = outs[0][2]
            else:
                raise Stop()
        return st

    def one(ps, f, none):
        """f of the only element, where there is one."""
        if len(ps) == 0:
            return none
        if len(ps) != 1:
            raise Stop()
        p = ps[0]
        if p.op == "e":
            return f(p.a[0])
        if p.op == "lit" and len(p.a[0]) == 1:
            return f(INT(ord(p.a[0])))
        if p.op == "alt":
            def leaf(x):
                if x.op == "case":
                    return t.branch(t.rebuild_atom(x.a[0], lambda y: y), dict((o, leaf(b)) for o, b in x.a[1]),
                                    None if x.a[2] is None else leaf(x.a[2]))
                if x is UNDEF:
                    return UNDEF
                return one(t.seq_parts(x), f, none)
            return leaf(p.a[0])
        raise Stop()
    try:
        ident = {cv: cv for cv in order}
        new = fold(ident, t.seq_parts(parts))
        ren = lambda x: t.rename(x, t2, tag)
        steps2 = {cv: ren(v) for cv, v in new.items()}
        B = t.lt(bv, n2)
        exits2 = []
        for (s, pc, m), (pin, pout) in zip(ex, epc):
            if early and pin is not FALSE:
                p1 = ren(one(t.seq_parts(parts), lambda x: subst(pin, {ph: x}), FALSE))
            else:
                p1 = FALSE
            nm = {}
            for c, v in m.items():
                if tag in v.fv:
                    v = subst(v, cnt)
                    if p1 is not FALSE and pout is FALSE:
                        w = inner(v)
                        v = ren(one(t.seq_parts(parts), lambda x: subst(w, {ph: x}), UNDEF)) if not t.contains(w, lambda y: y is bv) else mk("unk", "position")
                    elif p1 is FALSE:
                        v = t.assume(v, atom, not inr)
                        if t.contains(v, lambda y: y is bv):
                            v = mk("unk", "position")
                    else:
                        v = mk("unk", "position")
                nm[c] = v
            exits2.append((s, OR(AND(B, p1), AND(NOT(B), pout)), nm))
    except Stop:
        return None
    return steps2, {cv: inits[cv] for cv in order}, exits2


def counts(C, tag, depth=0):
    """(count, what else stops the loop, the view from inside an iteration, the view at the count)"""
    n = None
    alphas = []
    cur = C
    while True:
        f = find_count(cur, tag)
        if f is None:
            break
        k, a, out = f
        n = k if n is None else t.vmin(n, k)
        alphas.append((a, out))
        cur = t.assume(cur, a, not out)

    def cont(x):
        for a, out in alphas:
            x = t.assume(x, a, not out)
        return x

    def exh(x):
        # reached the count through any of the decisions
        for a, out in alphas[:1]:
            x = t.assume(x, a, out)
        return x
    if n is None and depth < 3:
        # a different count for each outcome of something that stays the same
        for a in sorted(C.atoms):
            if tag in a.fv or a.op in ("val", "discr"):
                continue
            r1 = counts(t.assume(C, a, True), tag, depth + 1)
            if r1[0] is None or r1[1] is not FALSE:
                continue
            r2 = counts(t.assume(C, a, False), tag, depth + 1)
            if r2[0] is None or r2[1] is not FALSE:
                continue
            ba = t.batom(a)

            def both(i):
                return lambda x: ite(ba, r1[i](t.assume(x, a, True)), r2[i](t.assume(x, a, False)))
            return ite(ba, r1[0], r2[0]), FALSE, both(2), both(3)
    return n, cur, cont, exh


def solve(ev, tag, mem_h, steps, inits, exits):
    bv = mk("bv", tag)
    closed = {}
    unsolved = dict(steps)
    r = over_parts(ev, tag, steps, inits, exits)
    if r is not None:
        unsolved, inits, exits = r
    changed = True
    C0 = FALSE
    for _, pc, _ in exits:
        C0 = OR(C0, pc)
    for cv in sorted(unsolved, key=lambda c: c.a[1]):
        # taken from until empty
        a = mk("val", t.length(cv))
        if a not in C0.atoms or t.assume(C0, a, 0) is not TRUE:
            continue
        st = t.assume_not(unsolved[cv], a, (0,))
        if st.op != "slice" or st.a[0] is not cv:
            continue
        lo, hi = st.a[1], t.sub(t.length(cv), st.a[2])
        if (lo, hi) not in ((INT(0), INT(1)), (INT(1), INT(0))) or inits[cv].op == "case":
            continue
        r = t.slice_(inits[cv], t.mul(lo, bv), t.sub(t.length(inits[cv]), t.mul(hi, bv)))
        closed[cv] = r
        del unsolved[cv]
        for c2 in list(unsolved):
            unsolved[c2] = subst(unsolved[c2], {cv: r})
        for c2 in list(closed):
            if c2 is not cv:
                closed[c2] = subst(closed[c2], {cv: r})
    while changed and unsolved:
        changed = False
        for c in list(unsolved):
            if free(inits[c], tag):
                unsolved[c] = own_keys(tag, c, inits[c], unsolved[c])
        for cv in sorted(unsolved, key=lambda c: c.a[1]):
            st = unsolved[cv]
            r = solve_one(ev, tag, cv, inits[cv], st)
            if r is not None:
                closed[cv] = r
                del unsolved[cv]
                m = {cv: r}
                for c2 in list(unsolved):
                    unsolved[c2] = subst(unsolved[c2], m)
                for c2 in list(closed):
                    if c2 is not cv:
                        closed[c2] = subst(closed[c2], m)
                changed = True
                break

    def cl(x):
        if tag not in x.fv:
            return x
        return subst(x, closed)
    ex = [(s, cl(pc), m) for s, pc, m in exits]
    if not ex:
        # never left
        return []
    C = FALSE
    for _, pc, _ in ex:
        C = OR(C, pc)
    n, cur, cont, exh = counts(C, tag)
    if cur is TRUE and n is not None:
        # left in the first iteration in any case
        pass
    stop = cur if n is not None else C
    # inside an iteration the counter is below the count
    unsolved = {c: cont(s) for c, s in unsolved.items()}
    if stop is not FALSE and stop is not TRUE:
        go = NOT(stop)
        unsolved = {c: t.force(s, go) for c, s in unsolved.items()}
    for c, s in list(unsolved.items()):
        r = solve_one(ev, tag, c, inits[c], s)
        if r is not None and free(r, tag):
            closed[c] = r
            del unsolved[c]
            for c2 in unsolved:
                unsolved[c2] = subst(unsolved[c2], {c: r})
            for c2 in closed:
                if c2 is not c:
                    closed[c2] = subst(closed[c2], {c: r})
            stop = subst(stop, {c: r})

    # a flag that stays up once it is
    for c in sorted(unsolved, key=lambda c: c.a[1]):
        s = unsolved[c]
        if not t._isbool(s) or t.assume(s, c, True) is not TRUE:
            continue
        p = t.assume(s, c, False)
        roots = reach(cvs_of(p, tag), unsolved, tag)
        if c in roots or p.unk or (has_cv(p, tag) is False):
            continue
        lp, _ = build_loop(tag, roots, inits, unsolved, p, bv)
        r = OR(ev_bool(inits[c]), t.batom(mk("lfound", lp)))
        del unsolved[c]
        closed[c] = r
        stop = subst(stop, {c: r})
        for d in (unsolved, closed):
            for c2 in list(d):
                if c2 is not c:
                    d[c2] = subst(d[c2], {c: r})

    # collected values that nothing in the loop looks at: the loop without them, and what it had at each step
    for c in sorted(unsolved, key=lambda c: c.a[1]):
        body, kind = strip_any(unsolved[c], c)
        if body is None or body.unk or contains_cv(body, c) or contains_cv(stop, c) or \
                any(contains_cv(s, c) for c2, s in unsolved.items() if c2 is not c):
            continue
        roots = reach(cvs_of(body, tag), unsolved, tag)
        lp, pos = build_loop(tag, roots, inits, unsolved, FALSE, None)
        tmp = fresh()
        bt = mk("bv", tmp)
        m = {x: t.hist(lp, pos[x], bt) for x in roots}
        m[bv] = bt
        b2 = subst(body, m)
        r = t.concat(inits[c], t.rep(tmp, bv, b2)) if kind == "seq" else t.union(inits[c], t.rep_set(tmp, bv, b2))
        del unsolved[c]
        closed[c] = r
        for c2 in list(closed):
            if c2 is not c:
                closed[c2] = subst(closed[c2], {c: r})

    generic_stop = has_cv(stop, tag)
    deps = {}
    for c, s in unsolved.items():
        deps[c] = set(cvs_of(s, tag))
    stop_deps = set(cvs_of(stop, tag))

    def slice_(roots, at_end=False):
        need = set()
        work = [c for c in roots if c in unsolved]
        if not at_end:
            work += [c for c in stop_deps if c in unsolved]
        while work:
            c = work.pop()
            if c in need:
                continue
            need.add(c)
            work += [x for x in deps[c] if x in unsolved]
        return need
    loop_memo = {}

    def loop_term(roots, at_end=False):
        """at_end: it was not left before, so that it does not matter when it would be."""
        need = frozenset(slice_(roots, at_end))
        r = loop_memo.get((need, at_end))
        if r is None:
            r = loop_memo[need, at_end] = build_loop(tag, need, inits, unsolved, FALSE if at_end else stop, n)
        return r
    # value maps at the exits
    sig = {}

    def sigma(x, at_end, whole=False):
        """x at the exit iteration."""
        if tag not in x.fv:
            return x
        x = cl(x)
        m = {}
        for c in cvs_of(x, tag):
            lt_, order = loop_term([c], whole)
            m[c] = mk("lv", lt_, order[c])
        if tag in x.fv:
            m[bv] = index(at_end)
        return subst(x, m)

    def index(at_end):
        k = ("i", at_end)
        r = sig.get(k)
        if r is None:
            if n is not None and (at_end or stop is FALSE):
                r = n
            elif n is not None and not generic_stop:
                tmp, c = at_bv(stop, tag, bv)
                r = t.first(tmp, n, c)
            else:
                lt_, order = loop_term([])
                r = mk("ln", lt_)
            sig[k] = r
        return r
    if n is None:
        found = TRUE
    elif stop is FALSE:
        found = FALSE
    elif not generic_stop:
        tmp, c = at_bv(stop, tag, bv)
        found = t.exists(tmp, n, c)
    else:
        lt_, _ = loop_term([])
        found = t.batom(mk("lfound", lt_))
    res = []
    for s, pc, m in ex:
        cond = FALSE
        pe = ps = FALSE
        if n is not None and found is not TRUE:
            pe = sigma(exh(pc), True, True)
            cond = OR(cond, AND(NOT(found), pe))
        if found is not FALSE:
            x = cont(pc)
            if x is not FALSE:
                x = collapse(ite(stop, x, UNDEF))
            ps = sigma(x, False)
            cond = OR(cond, AND(found, ps))
        if cond is FALSE:
            continue
        nm = {}
        for c, v in m.items():
            if tag in v.fv:
                ve = sigma(exh(cl(v)), True) if pe is not FALSE else UNDEF
                vs = sigma(t.force(cont(cl(v)), stop), False) if ps is not FALSE else UNDEF
                if pe is FALSE:
                    v = vs
                elif ps is not FALSE and ve is vs:
                    v = ite(found, vs, ve)
                else:
                    ve = sigma(exh(cl(v)), True, True)
                    v = ve if ps is FALSE else ite(found, vs, ve)
            nm[c] = v
        res.append((s, cond, nm))
    return res


def build_loop(tag, need, inits, steps, stop, n):
    """(loop term, {cv: position})"""
    need = sorted(need, key=lambda c: c.a[1])
    tmp = fresh()
    m = {c: mk("cv", tmp, i) for i, c in enumerate(need)}
    m[mk("bv", tag)] = mk("bv", tmp)
    cells = tuple((inits[c], subst(steps[c], m)) for c in need)
    lt_, pos = t.sorted_loop(tmp, (n if n is not None else mk("forever"), subst(stop, m), cells))
    return lt_, {c: pos[i] for i, c in enumerate(need)}
