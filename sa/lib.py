"""What the library functions compute, as operations on terms."""
from . import term as t
from .term import (mk, INT, TRUE, FALSE, UNDEF, UNIT, EMPTY, MAP0, SET0, NONE, SOME, OKV, OPT, RES, ite, AND, OR, NOT,
                   switch_discr, subst, fresh)
from . import loops as L

ORD = "core::cmp::Ordering"
CF = "core::ops::control_flow::ControlFlow"
ENTRY = "@entry"
RANGE = "core::ops::range::Range"
ITER = "@iter"
LAZY = "@lazy"


def ordv(n):
    return mk("ctor", ORD, n, ())


def err(x):
    return t.ctor(RES, "Err", (x,))


def opt(c, x):
    """Some(x) where c, None elsewhere."""
    return ite(c, SOME(x), NONE)


def iter_(s, pos=None):
    return mk("struct", ITER, (s, pos if pos is not None else INT(0)))


def body_seq(x):
    return t.mk_seq_keep(t.SEQ(t._parts_of(x))) if x.op != "case" else mk("seq", tuple(t._alt(x)))


class Lib:
    def __init__(self, ev):
        self.ev = ev
        self.tab = {}
        for n in dir(self):
            if n.startswith("f_"):
                pass
        self.build()

    # ---------------------------------------------------------------- dispatch
    def call(self, k, args, mem, dty):
        fn = k["fn"]
        instp = k.get("instp") or ""
        meth = k.get("method") or fn.rsplit("::", 1)[-1]
        trait = k.get("trait")
        ev = self.ev
        if ev.det:
            r = self.det_call(k, args, mem, dty, fn, instp, meth, trait)
            if r is not None:
                return r
        cx = Cx(self, k, args, mem, dty)
        if trait:
            h = self.traits.get((trait, meth))
            if h is not None:
                return h(cx)
            return NotImplemented
        if k.get("local"):
            return NotImplemented
        # inherent: by type and method
        h = self.fns.get(fn)
        if h is not None:
            return h(cx)
        owner = self.owner(fn)
        h = self.meths.get((owner, meth))
        if h is not None:
            return h(cx)
        return NotImplemented

    def det_call(self, k, args, mem, dty, fn, instp, meth, trait):
        """The order in which a hash table yields its elements is one of its own."""
        ev = self.ev

        def hashed(ty):
            d = ev.ty(ty)
            while d["k"] == "ref":
                d = ev.ty(d["args"][0])
            return d["k"] == "adt" and d.get("def", "").startswith("std::collections::hash::") and d["def"].endswith(("HashMap", "HashSet"))
        ta = [x for x in (k.get("targs") or []) if isinstance(x, int)]

        def wrap(r):
            if r is None or r is NotImplemented:
                return r
            if r.op == "struct" and r.a[0] == ITER:
                return iter_(mk("horder", r.a[1][0]), r.a[1][1])
            return r
        inh = not trait and "collections::hash::" in fn
        if inh and meth in ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "union", "intersection",
                            "difference", "symmetric_difference", "extract_if"):
            h = self.meths.get((self.owner(fn), meth))
            return wrap(h(Cx(self, k, args, mem, dty))) if h is not None else None
        if trait and trait.endswith("IntoIterator") and ta and hashed(ta[0]):
            return wrap(self.into_iter(Cx(self, k, args, mem, dty)))
        if trait and trait.rsplit("::", 1)[-1] in ("Extend", "FromIterator", "Iterator") and len(ta) > 1 and any(hashed(x) for x in ta[1:]):
            i = 0 if meth == "from_iter" else 1
            c = Cx(self, k, args, mem, dty)
            if len(args) > i:
                a2 = list(args)
                a2[i] = mk("horder", c.val(i))
                h = self.traits.get((trait, meth))
                if h is not None:
                    return h(Cx(self, k, a2, mem, dty))
        return None

    @staticmethod
    def owner(fn):
        p = fn.rsplit("::", 1)[0]
        for a, b in (("BTreeMap", "map"), ("IndexMap", "map"), ("HashMap", "map"), ("BTreeSet", "set"), ("HashSet", "set"),
                     ("IndexSet", "iset"), ("OccupiedEntry", "occ"), ("VacantEntry", "vac"), ("Entry", "entry"),
                     ("option::Option", "option"), ("result::Result", "result"),
                     ("VecDeque", "vec"), ("vec::Vec", "vec"), ("BitVec", "vec"), ("String", "string"), ("impl str", "str"), ("impl [T", "slice"),
                     ("<impl char", "char"), ("<impl bool", "bool"), ("RangeInclusive", "rangei"), ("Range", "range"), ("Bump", "bump"), ("ManuallyDrop", "md"), ("boxed::Box", "box"),
                     ("rt::Argument", "fmtarg"), ("Arguments", "fmtargs"), ("Formatter", "formatter"), ("Peekable", "peek"),
                     ("Ordering", "ordering"), ("Cell", "cell"), ("impl u", "uint")):
            if a in p:
                return b
        return p

    # ---------------------------------------------------------------- tables
    def build(self):
        T = self.traits = {}
        IT = "core::iter::traits::iterator::Iterator"
        for n in ("map", "filter", "filter_map", "flat_map", "enumerate", "rev", "skip", "take", "chain", "copied", "cloned", "zip",
                  "find", "find_map", "any", "all", "position", "fold", "collect", "count", "for_each", "last", "next", "sum", "max", "min",
                  "by_ref", "peekable", "inspect", "take_while", "skip_while", "flatten", "nth", "try_fold", "try_for_each", "max_by_key",
                  "min_by_key", "max_by", "min_by", "step_by", "partition", "unzip", "map_while", "reduce", "rposition", "product", "size_hint", "fuse", "eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "cycle"):
            f = getattr(self, "it_" + n, None)
            if f:
                T[(IT, n)] = f
        DE = "core::iter::traits::double_ended::DoubleEndedIterator"
        T[(DE, "next_back")] = self.it_next_back
        T[(DE, "rfind")] = self.it_rfind
        T[("core::iter::traits::exact_size::ExactSizeIterator", "len")] = lambda c: t.length(c.seq(0))
        C = "core::iter::traits::collect::"
        T[(C + "IntoIterator", "into_iter")] = self.into_iter
        T[(C + "FromIterator", "from_iter")] = lambda c: self.conv(c.seq(0), c.dty, c)
        T[(C + "Extend", "extend")] = self.extend
        T[("core::clone::Clone", "clone")] = self.clone
        T[("core::clone::Clone", "clone_from")] = lambda c: c.set(0, c.val(1))
        T[("alloc::borrow::ToOwned", "to_owned")] = lambda c: c.val(0)
        T[("alloc::string::ToString", "to_string")] = self.to_string
        T[("core::ops::deref::Deref", "deref")] = self.deref
        T[("core::ops::deref::DerefMut", "deref_mut")] = self.deref
        T[("core::convert::AsRef", "as_ref")] = self.deref
        T[("core::convert::AsMut", "as_mut")] = self.deref
        T[("core::borrow::Borrow", "borrow")] = self.deref
        T[("core::borrow::BorrowMut", "borrow_mut")] = self.deref
        T[("core::convert::Into", "into")] = self.into
        T[("core::convert::From", "from")] = self.from_
        T[("core::convert::TryInto", "try_into")] = NI
        T[("core::default::Default", "default")] = self.default
        P = "core::cmp::"
        T[(P + "PartialEq", "eq")] = lambda c: self.eq(c, False)
        T[(P + "PartialEq", "ne")] = lambda c: self.eq(c, True)
        T[(P + "Ord", "cmp")] = self.cmp
        T[(P + "PartialOrd", "partial_cmp")] = self.partial_cmp
        for n in ("lt", "le", "gt", "ge"):
            T[(P + "PartialOrd", n)] = self.rel(n)
        T[(P + "Ord", "min")] = lambda c: t.vmin(c.val(0), c.val(1))
        T[(P + "Ord", "max")] = lambda c: t.vmax(c.val(0), c.val(1))
        O = "core::ops::"
        T[(O + "index::Index", "index")] = self.index
        T[(O + "index::IndexMut", "index_mut")] = self.index_mut
        T[(O + "arith::AddAssign", "add_assign")] = self.add_assign
        T[(O + "arith::Add", "add")] = self.add
        T[(O + "arith::Sub", "sub")] = lambda c: t.sub(c.val(0), c.val(1))
        T[(O + "arith::SubAssign", "sub_assign")] = lambda c: c.set(0, t.sub(c.val(0), c.val(1)))
        T[(O + "bit::Not", "not")] = lambda c: NOT(c.bool(0))
        T[(O + "bit::BitOr", "bitor")] = lambda c: t.union(c.val(0), c.val(1))
        T[(O + "try_trait::Try", "branch")] = self.try_branch
        T[(O + "try_trait::Try", "from_output")] = self.try_out
        T[(O + "try_trait::FromResidual", "from_residual")] = self.try_residual
        for tr, n in (("Fn", "call"), ("FnMut", "call_mut"), ("FnOnce", "call_once")):
            T[(O + "function::" + tr, n)] = self.fn_call
        T[("core::fmt::Write", "write_fmt")] = self.w_str
        T[("core::fmt::Write", "write_str")] = self.w_str
        T[("core::fmt::Write", "write_char")] = self.w_char
        for tr in ("Display", "Debug", "LowerHex", "UpperHex"):
            T[("core::fmt::" + tr, "fmt")] = self.fmt_fmt(tr)
        T[("core::hash::Hash", "hash")] = self.hash
        T[("core::hash::Hasher", "finish")] = lambda c: mk("hfin", c.val(0))
        T[("core::hash::Hasher", "write_usize")] = self.hash_write
        T[("core::hash::Hasher", "write_u64")] = self.hash_write
        T[("core::hash::Hasher", "write_u32")] = self.hash_write
        T[("core::hash::Hasher", "write_u8")] = self.hash_write
        T[("core::str::traits::FromStr", "from_str")] = NI
        T[("core::ops::range::RangeBounds", "contains")] = self.range_contains
        T[("core::any::Any", "type_id")] = NI

        F = self.fns = {}
        ident = lambda c: c.val(0)
        F["std::hash::random::DefaultHasher::new"] = lambda c: mk("sym", "hasher0")
        F["core::cmp::max"] = lambda c: t.vmax(c.val(0), c.val(1))
        F["core::cmp::min"] = lambda c: t.vmin(c.val(0), c.val(1))
        F["core::mem::take"] = self.mem_take
        F["core::mem::replace"] = self.mem_replace
        F["core::mem::swap"] = self.mem_swap
        F["core::mem::drop"] = lambda c: UNIT
        F["core::hint::must_use"] = ident
        F["core::convert::identity"] = ident
        F["core::hint::black_box"] = ident
        F["alloc::fmt::format"] = ident
        F["alloc::fmt::format::format_inner"] = ident
        F["std::io::stdio::_print"] = lambda c: UNIT
        F["std::io::stdio::_eprint"] = lambda c: UNIT
        F["core::iter::sources::once::once"] = lambda c: iter_(t.SEQ([t.E(c.arg(0))]))
        F["core::iter::sources::empty::empty"] = lambda c: iter_(EMPTY)
        F["core::iter::sources::repeat::repeat"] = lambda c: iter_(mk("repeat", c.val(0), mk("forever")))
        F["core::iter::sources::repeat_n::repeat_n"] = lambda c: iter_(mk("repeat", c.val(0), c.val(1)))
        F["alloc::boxed::box_assume_init_into_vec_unsafe"] = lambda c: c.val(0)
        F["core::slice::raw::from_ref"] = lambda c: t.SEQ([t.E(c.val(0))])
        F["alloc::vec::from_elem"] = lambda c: mk("repeat", c.val(0), c.val(1))
        F["core::char::convert::from_u32"] = lambda c: SOME(c.val(0))
        F["core::char::methods::<impl char>::from_u32"] = lambda c: SOME(c.val(0))
        F["core::char::convert::from_u32_unchecked"] = ident
        for n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_default_msg", "core::panicking::todo_default_msg",
                  "core::panicking::unreachable_default_msg", "core::panicking::assert_failed", "core::panicking::panic_display",
                  "std::panicking::begin_panic", "core::panicking::unreachable_display", "core::panicking::panic_explicit",
                  "core::panicking::unimplemented_default_msg", "core::option::unwrap_failed", "core::option::expect_failed",
                  "std::process::abort", "core::panicking::panic_str_2015", "core::panicking::panic_nounwind", "core::panicking::assert_failed_inner",
                  "core::panicking::assert_matches_failed"):
            F[n] = lambda c: None

        M = self.meths = {}

        def m(owner, names, f):
            for n in names.split():
                M[(owner, n)] = f
        m("vec", "new with_capacity", lambda c: EMPTY)
        m("vec", "capacity", lambda c: mk("ext", "capacity", (c.val(0),)))
        m("vec", "reserve reserve_exact shrink_to_fit", lambda c: UNIT)
        m("vec", "push", self.v_push)
        m("vec", "push_back", self.v_push)
        m("vec", "pop pop_back", self.v_pop)
        m("vec", "pop_front", self.v_pop_front)
        m("vec", "truncate", lambda c: c.set(0, t.slice_(c.val(0), INT(0), c.val(1))))
        m("vec", "clear", lambda c: c.set(0, EMPTY))
        m("vec", "len", lambda c: t.length(c.val(0)))
        m("vec", "is_empty", lambda c: t.switch_val(t.length(c.val(0)), {0: TRUE}, FALSE))
        m("vec", "as_slice as_mut_slice into_boxed_slice as_ptr leak", lambda c: c.arg(0))
        m("vec", "retain", self.v_retain)
        m("vec", "extend_from_slice", lambda c: c.set(0, t.concat(c.val(0), c.val(1))))
        m("vec", "append", self.v_append)
        m("vec", "insert", lambda c: c.set(0, t.concat(t.push(t.slice_(c.val(0), INT(0), c.val(1)), c.val(2)), t.slice_(c.val(0), c.val(1), t.length(c.val(0))))))
        m("vec", "remove swap_remove", self.v_remove)
        m("vec", "drain", self.v_drain)
        m("vec", "iter into_iter", lambda c: iter_(c.val(0)))
        m("vec", "iter_mut", self.s_iter_mut)
        m("vec", "set", lambda c: c.set(0, t.setat(c.val(0), c.val(1), c.val(2))))
        m("vec", "from_elem", lambda c: mk("repeat", c.val(1), c.val(0)))
        m("vec", "get", self.s_get)
        m("vec", "resize", self.v_resize)
        for n in "dedup dedup_by dedup_by_key".split():
            m("vec", n, lambda c, n=n: self.v_reorder(c, n))
        m("slice", "iter", lambda c: iter_(c.val(0)))
        m("slice", "iter_mut", self.s_iter_mut)
        m("slice", "len", lambda c: t.length(c.val(0)))
        m("slice", "is_empty", lambda c: t.switch_val(t.length(c.val(0)), {0: TRUE}, FALSE))
        m("slice", "get", self.s_get)
        m("slice", "get_mut", self.s_get_mut)
        m("slice", "get_unchecked", self.s_get_unchecked)
        m("slice", "first", lambda c: opt(NOT(t.switch_val(t.length(c.val(0)), {0: TRUE}, FALSE)), t.at(c.val(0), INT(0))))
        m("slice", "last", lambda c: opt(NOT(t.switch_val(t.length(c.val(0)), {0: TRUE}, FALSE)), t.at(c.val(0), t.sub(t.length(c.val(0)), INT(1)))))
        m("slice", "last_mut", self.s_last_mut)
        m("slice", "contains", self.s_contains)
        m("slice", "join concat", self.s_join)
        m("slice", "to_vec into_vec", lambda c: c.val(0))
        m("slice", "split_at", lambda c: t.tup(t.slice_(c.val(0), INT(0), c.val(1)), t.slice_(c.val(0), c.val(1), t.length(c.val(0)))))
        m("slice", "reverse", lambda c: c.set(0, t.rev(c.val(0))))
        m("slice", "swap", self.s_swap)
        m("slice", "sort sort_unstable", lambda c: c.set(0, mk("sort", c.val(0))))
        m("slice", "as_ptr", lambda c: c.arg(0))
        for n in "sort_by sort_by_key sort_by_cached_key sort_unstable_by sort_unstable_by_key".split():
            m("slice", n, lambda c, n=n: self.v_reorder(c, n.replace("_unstable", "").replace("_cached", "")))
        m("slice", "split_first", lambda c: self.nonempty(c, lambda v, n: t.tup(t.at(v, INT(0)), t.slice_(v, INT(1), n))))
        m("slice", "split_last", lambda c: self.nonempty(c, lambda v, n: t.tup(t.at(v, t.sub(n, INT(1))), t.slice_(v, INT(0), t.sub(n, INT(1))))))
        m("slice", "starts_with", lambda c: self.begins(c.val(0), c.val(1), False))
        m("slice", "ends_with", lambda c: self.begins(c.val(0), c.val(1), True))
        for n in ("binary_search", "binary_search_by", "binary_search_by_key", "partition_point", "windows", "chunks", "chunks_exact", "rchunks"):
            m("slice", n, lambda c, n=n: self.stdop(c, n, iter_ if n[-1] == "s" or n == "chunks_exact" else None))
        m("slice", "rotate_left rotate_right fill", lambda c: c.set(0, self.stdop(c, c.meth)))
        m("vec", "split_off", self.v_split_off)
        m("string", "new with_capacity", lambda c: EMPTY)
        m("string", "push", self.v_push)
        m("string", "push_str", lambda c: c.set(0, t.concat(c.val(0), c.val(1))))
        m("string", "as_str as_mut_str into_boxed_str leak as_bytes into_bytes", lambda c: c.val(0))
        m("string", "len", lambda c: self.blen(c.val(0)))
        m("string", "is_empty", lambda c: t.switch_val(t.length(c.val(0)), {0: TRUE}, FALSE))
        m("string", "clear", lambda c: c.set(0, EMPTY))
        m("string", "pop", self.v_pop)
        m("string", "truncate", lambda c: c.set(0, mk("btrunc", c.val(0), c.val(1))))
        m("string", "from_utf8_lossy", NI)
        m("string", "reserve", lambda c: UNIT)
        m("str", "chars", lambda c: iter_(c.val(0)))
        m("str", "len", lambda c: self.blen(c.val(0)))
        m("str", "is_empty", lambda c: t.switch_val(t.length(c.val(0)), {0: TRUE}, FALSE))
        m("str", "bytes", lambda c: iter_(mk("bytesof", c.val(0))))
        m("str", "as_bytes", lambda c: mk("bytesof", c.val(0)))
        m("str", "char_indices", self.char_indices)
        m("str", "to_string to_owned into_string into_boxed_str as_str", lambda c: c.val(0))
        m("str", "get", self.str_get)
        # text with other letters or without its white space: whatever it is, it is not the text itself
        m("str", "eq_ignore_ascii_case", lambda c: t.batom(mk("op", c.meth, *sorted((c.val(0), c.val(1)), key=str))))
        for n in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end"):
            m("str", n, lambda c: self.relettered(c))
        m("str", "trim_matches trim_start_matches trim_end_matches", self.trimmed)
        m("char", "to_ascii_lowercase to_ascii_uppercase", lambda c: mk("op", c.meth, c.val(0)))
        m("char", "eq_ignore_ascii_case", lambda c: t.batom(mk("op", c.meth, *sorted((c.val(0), c.val(1)), key=str))))
        m("char", "is_ascii_digit", lambda c: self.between(c, ("0", "9")))
        m("char", "is_ascii_lowercase", lambda c: self.between(c, ("a", "z")))
        m("char", "is_ascii_uppercase", lambda c: self.between(c, ("A", "Z")))
        m("char", "is_ascii_alphabetic", lambda c: self.between(c, ("A", "Z"), ("a", "z")))
        m("char", "is_ascii_alphanumeric", lambda c: self.between(c, ("0", "9"), ("A", "Z"), ("a", "z")))
        m("char", "is_ascii_graphic", lambda c: self.between(c, ("!", "~")))
        m("char", "is_ascii_control", lambda c: self.between(c, ("\0", "\x1f"), ("\x7f", "\x7f")))
        m("char", "is_ascii_whitespace", lambda c: self.between(c, ("\t", "\n"), ("\x0c", "\r"), (" ", " ")))
        m("char", "is_ascii_hexdigit", lambda c: self.between(c, ("0", "9"), ("A", "F"), ("a", "f")))
        m("char", "is_ascii_punctuation", lambda c: self.between(c, ("!", "/"), (":", "@"), ("[", "`"), ("{", "~")))
        m("char", "is_whitespace is_control is_alphabetic is_alphanumeric is_numeric is_lowercase is_uppercase", lambda c: t.batom(mk("op", c.meth, c.val(0))))
        m("str", "replace", self.str_replace)
        m("str", "starts_with", lambda c: self.str_begins(c, False))
        m("str", "ends_with", lambda c: self.str_begins(c, True))
        m("char", "is_ascii", lambda c: t.le(c.val(0), INT(127)))
        m("uint", "saturating_sub", lambda c: ite(t.lt(c.val(0), c.val(1)), INT(0), t.sub(c.val(0), c.val(1))))
        m("uint", "wrapping_add unchecked_add saturating_add", lambda c: t.add(c.val(0), c.val(1)))
        m("uint", "wrapping_sub unchecked_sub", lambda c: t.sub(c.val(0), c.val(1)))
        m("uint", "checked_sub", lambda c: opt(t.le(c.val(1), c.val(0)), t.sub(c.val(0), c.val(1))))
        m("uint", "checked_rem checked_div checked_rem_euclid checked_div_euclid", lambda c: opt(NOT(t.switch_val(c.val(1), {0: TRUE}, FALSE)), mk("op", c.meth, c.val(0), c.val(1))))
        m("uint", "to_ascii_lowercase to_ascii_uppercase", lambda c: mk("op", c.meth, c.val(0)))
        m("uint", "eq_ignore_ascii_case", lambda c: t.batom(mk("op", c.meth, *sorted((c.val(0), c.val(1)), key=str))))
        for o in ("uint",):
            for n in ("is_ascii_digit", "is_ascii_lowercase", "is_ascii_uppercase", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii", "is_ascii_graphic",
                      "is_ascii_control", "is_ascii_whitespace", "is_ascii_hexdigit", "is_ascii_punctuation"):
                M[(o, n)] = M[("char", n)]
        m("str", "strip_prefix", lambda c: self.strip(c, False))
        m("str", "strip_suffix", lambda c: self.strip(c, True))
        m("uint", "checked_add", lambda c: SOME(t.add(c.val(0), c.val(1))))
        m("uint", "to_string", lambda c: self.disp(c.val(0)))
        m("range", "contains", self.range_contains)
        m("range", "is_empty", lambda c: t.le(t.field(c.val(0), 1), t.field(c.val(0), 0)))
        m("rangei", "new", lambda c: iter_(mk("range", c.val(0), t.add(c.val(1), INT(1)))))
        m("rangei", "contains", self.rangei_contains)
        m("rangei", "start", lambda c: t.at(c.seq(0), INT(0)))
        m("bump", "alloc alloc_str", lambda c: c.arg(1))
        m("bump", "new", lambda c: mk("sym", "bump"))
        m("md", "new into_inner take", lambda c: c.val(0))
        m("box", "new", lambda c: c.arg(0))
        m("box", "new_uninit", self.box_uninit)
        m("box", "as_ref as_mut leak into_inner", lambda c: c.arg(0))
        # options
        m("option", "unwrap expect unwrap_unchecked", lambda c: self.opt_get(c))
        m("option", "unwrap_or", lambda c: switch_discr(c.val(0), OPT, {"Some": t.vfield(c.val(0), "Some", 0), "None": c.val(1)}))
        m("option", "unwrap_or_default", lambda c: switch_discr(c.val(0), OPT, {"Some": t.vfield(c.val(0), "Some", 0), "None": self.default_of(c.dty)}))
        m("option", "is_some", lambda c: t.is_variant(c.val(0), OPT, "Some"))
        m("option", "is_none", lambda c: t.is_variant(c.val(0), OPT, "None"))
        m("option", "as_ref copied cloned as_deref", lambda c: c.val(0))
        m("option", "as_mut as_deref_mut", self.opt_as_mut)
        m("option", "take", lambda c: c.swap(0, NONE))
        m("option", "replace", lambda c: c.swap(0, SOME(c.val(1))))
        m("option", "insert", lambda c: c.set(0, SOME(c.val(1))))
        m("option", "map", lambda c: self.opt_case(c, lambda x: SOMEX(c.fcall(1, [x])), lambda: NONE))
        m("option", "and_then", lambda c: self.opt_case(c, lambda x: c.fcall(1, [x]), lambda: NONE))
        m("option", "map_or", lambda c: self.opt_case(c, lambda x: c.fcall(2, [x]), lambda: c.val(1)))
        m("option", "map_or_else", lambda c: self.opt_case(c, lambda x: c.fcall(2, [x]), lambda: c.fcall(1, [])))
        m("option", "unwrap_or_else", lambda c: self.opt_case(c, lambda x: x, lambda: c.fcall(1, [])))
        m("option", "ok_or", lambda c: self.opt_case(c, OKV, lambda: err(c.val(1))))
        m("option", "ok_or_else", lambda c: self.opt_case(c, OKV, lambda: errx(c.fcall(1, []))))
        m("option", "or", lambda c: switch_discr(c.val(0), OPT, {"Some": c.val(0), "None": c.val(1)}))
        m("option", "and", lambda c: switch_discr(c.val(0), OPT, {"Some": c.val(1), "None": NONE}))
        m("option", "or_else", lambda c: self.opt_case(c, SOME, lambda: c.fcall(1, [])))
        m("option", "filter", self.opt_filter)
        m("option", "is_some_and", lambda c: self.opt_case(c, lambda x: boolx(c.fcall(1, [x])), lambda: FALSE))
        m("option", "is_none_or", lambda c: self.opt_case(c, lambda x: boolx(c.fcall(1, [x])), lambda: TRUE))
        m("option", "flatten", lambda c: self.opt_case(c, lambda x: x, lambda: NONE))
        m("option", "iter into_iter", lambda c: iter_(self.opt_seq(c.val(0))))
        m("option", "get_or_insert_with", NI)
        m("option", "zip", NI)
        m("result", "unwrap expect unwrap_unchecked", lambda c: self.res_get(c, "Ok", "Err"))
        m("result", "unwrap_err expect_err", lambda c: self.res_get(c, "Err", "Ok"))
        m("result", "is_ok", lambda c: t.is_variant(c.val(0), RES, "Ok"))
        m("result", "is_err", lambda c: t.is_variant(c.val(0), RES, "Err"))
        m("result", "ok", lambda c: switch_discr(c.val(0), RES, {"Ok": SOME(t.vfield(c.val(0), "Ok", 0)), "Err": NONE}))
        m("result", "err", lambda c: switch_discr(c.val(0), RES, {"Err": SOME(t.vfield(c.val(0), "Err", 0)), "Ok": NONE}))
        m("result", "as_ref as_mut copied cloned", lambda c: c.val(0))
        m("result", "map", lambda c: self.res_case(c, lambda x: okx(c.fcall(1, [x])), err))
        m("result", "map_err", lambda c: self.res_case(c, OKV, lambda x: errx(c.fcall(1, [x]))))
        m("result", "and_then", lambda c: self.res_case(c, lambda x: c.fcall(1, [x]), err))
        m("result", "unwrap_or", lambda c: switch_discr(c.val(0), RES, {"Ok": t.vfield(c.val(0), "Ok", 0), "Err": c.val(1)}))
        m("result", "unwrap_or_else", lambda c: self.res_case(c, lambda x: x, lambda x: c.fcall(1, [x])))
        # maps and sets
        m("map", "new with_capacity", lambda c: MAP0)
        m("map", "get", lambda c: opt(t.has(c.val(0), c.val(1)), t.get(c.val(0), c.val(1))))
        m("map", "get_mut", self.m_get_mut)
        m("map", "contains_key", lambda c: t.has(c.val(0), c.val(1)))
        m("map", "insert", self.m_insert)
        m("map", "entry", self.m_entry)
        m("map", "len", lambda c: t.length(c.val(0)))
        m("map", "is_empty", lambda c: t.switch_val(t.length(c.val(0)), {0: TRUE}, FALSE))
        m("map", "iter into_iter", lambda c: iter_(mk_entries(c.val(0))))
        m("map", "keys into_keys", lambda c: iter_(mk_keys(c.val(0))))
        m("map", "values into_values", lambda c: iter_(mk_vals(c.val(0))))
        m("map", "iter_mut", lambda c: iter_(mk("entriesmut", c.ref(0))))
        m("map", "values_mut", lambda c: iter_(mk("valsmut", c.ref(0))))
        m("map", "remove", self.m_remove)
        m("map", "clear", lambda c: c.set(0, MAP0))
        m("map", "get_index_of", lambda c: opt(t.has(c.val(0), c.val(1)), mk("ixof", c.val(0), c.val(1))))
        m("map", "get_full", NI)
        m("map", "first_key_value", lambda c: self.nonempty(c, lambda v, n: t.tup(mk("mkey", v, INT(0)), t.mval(v, INT(0)))))
        m("map", "last_key_value", lambda c: self.nonempty(c, lambda v, n: t.tup(mk("mkey", v, t.sub(n, INT(1))), t.mval(v, t.sub(n, INT(1))))))
        m("map", "range", self.map_range)
        m("map", "retain", self.m_retain)
        m("map", "sort_keys sort_unstable_keys", lambda c: c.set(0, self.stdop(c, c.meth)))
        m("set", "first", lambda c: self.nonempty(c, lambda v, n: t.at(v, INT(0))))
        m("set", "last", lambda c: self.nonempty(c, lambda v, n: t.at(v, t.sub(n, INT(1)))))
        m("set", "pop_first", lambda c: self.set_pop(c, lambda n: INT(0)))
        m("set", "pop_last", lambda c: self.set_pop(c, lambda n: t.sub(n, INT(1))))
        m("set", "retain", self.set_retain)
        m("set", "range", lambda c: self.map_range(c))
        m("set", "is_disjoint", lambda c: NOT(self.meets(c.val(0), c.val(1))))
        m("set", "intersection", lambda c: self.set_part(c, True))
        m("set", "symmetric_difference", lambda c: iter_(t.union(t.SETV([mk("sp", self.set_part(c, False).a[1][0])]), t.SETV([mk("sp", self.set_part(c, False, True).a[1][0])]))))
        m("set", "take", lambda c: self.set_take(c))
        m("set", "get", lambda c: opt(t.has(c.val(0), c.val(1)), c.val(1)))
        m("set", "difference", lambda c: self.set_part(c, False))
        m("set", "new with_capacity", lambda c: SET0)
        m("set", "insert", self.set_insert)
        m("set", "contains", lambda c: t.has(c.val(0), c.val(1)))
        m("set", "len", lambda c: t.length(c.val(0)))
        m("set", "is_empty", lambda c: t.switch_val(t.length(c.val(0)), {0: TRUE}, FALSE))
        m("set", "iter into_iter", lambda c: iter_(c.val(0)))
        m("set", "remove", self.set_remove)
        m("set", "clear", lambda c: c.set(0, SET0))
        m("set", "union", lambda c: iter_(t.union(c.val(0), c.val(1))))
        m("set", "is_subset", lambda c: self.subset(c.val(0), c.val(1)))
        m("set", "is_superset", lambda c: self.subset(c.val(1), c.val(0)))
        m("iset", "new with_capacity", lambda c: EMPTY)
        m("iset", "insert", self.iset_insert)
        m("iset", "insert_full", self.iset_insert_full)
        m("iset", "contains", lambda c: t.has(c.val(0), c.val(1)))
        m("iset", "get_index_of", lambda c: opt(t.has(c.val(0), c.val(1)), mk("ixof", c.val(0), c.val(1))))
        m("iset", "get_index", self.s_get)
        m("iset", "len", lambda c: t.length(c.val(0)))
        m("iset", "is_empty", lambda c: t.switch_val(t.length(c.val(0)), {0: TRUE}, FALSE))
        m("iset", "iter into_iter", lambda c: iter_(c.val(0)))
        m("iset", "first", lambda c: opt(NOT(t.switch_val(t.length(c.val(0)), {0: TRUE}, FALSE)), t.at(c.val(0), INT(0))))
        m("entry", "or_insert_with", lambda c: self.e_or(c, lambda: c.fcall(1, [])))
        m("entry", "or_insert", lambda c: self.e_or(c, lambda: c.val(1)))
        m("entry", "or_default", lambda c: self.e_or(c, lambda: self.default_of(self.pointee(c.dty))))
        m("entry", "and_modify", self.e_and_modify)
        m("entry", "key", lambda c: self.entry_parts(c)[1])
        m("occ", "get", lambda c: self.e_get(c))
        m("occ", "get_mut into_mut", lambda c: self.e_ref(c))
        m("occ", "insert", self.occ_insert)
        m("occ", "key", lambda c: self.entry_parts(c)[1])
        m("occ", "remove", self.occ_remove)
        m("vac", "insert", self.vac_insert)
        m("vac", "insert_entry", self.vac_insert)
        m("vac", "key into_key", lambda c: self.entry_parts(c)[1])
        m("fmtargs", "new", self.fmt_new)
        m("fmtargs", "from_str from_str_nonconst", lambda c: c.val(0))
        m("fmtargs", "new_const new_v1 new_v1_formatted", NI)
        m("fmtarg", "new_display", lambda c: self.fmt_arg(c, "disp"))
        m("fmtarg", "new_debug", lambda c: self.fmt_arg(c, "dbg"))
        m("fmtarg", "new_lower_hex new_upper_hex new_octal new_binary new_pointer", lambda c: self.fmt_arg(c, c.meth))
        m("formatter", "write_str write_fmt pad", self.w_str)
        m("formatter", "write_char", self.w_char)
        m("formatter", "debug_struct debug_set debug_list debug_map debug_tuple", NI)
        m("ordering", "reverse", lambda c: switch_discr(c.val(0), ORD, {"Less": ordv("Greater"), "Equal": ordv("Equal"), "Greater": ordv("Less")}))
        m("ordering", "then", lambda c: switch_discr(c.val(0), ORD, {"Less": ordv("Less"), "Equal": c.val(1), "Greater": ordv("Greater")}))
        m("ordering", "then_with", self.then_with)
        m("ordering", "is_eq", lambda c: t.is_variant(c.val(0), ORD, "Equal"))
        m("ordering", "is_lt", lambda c: t.is_variant(c.val(0), ORD, "Less"))
        m("ordering", "is_gt", lambda c: t.is_variant(c.val(0), ORD, "Greater"))
        m("bool", "then_some", lambda c: opt(c.bool(0), c.val(1)))
        m("bool", "then", self.b_then)
        m("char", "len_utf8", lambda c: mk("op", "len_utf8", c.val(0)))
        m("char", "to_digit", NI)
        m("char", "from_u32", lambda c: SOME(c.val(0)))
        m("peek", "peek", self.it_peek)

    # ---------------------------------------------------------------- basics
    def clone(self, c):
        x = c.arg(0)
        return c.val(0)

    def deref(self, c):
        inst = c.k.get("inst")
        if inst and inst in self.ev.c.by_upath:
            return NotImplemented
        ty = self.self_ty(c)
        if ty is not None:
            d = self.ev.ty(ty)
            while d["k"] == "ref":
                d = self.ev.ty(d["args"][0])
            if d["k"] == "adt" and "Cow" in d["def"]:
                return uncow(c.val(0))
        return c.arg(0)

    def into(self, c):
        f = self.ev.c.by_upath.get(c.k.get("inst") or "")
        if f is not None:
            return NotImplemented
        # a user From behind the blanket Into
        ta = c.k.get("targs") or []
        if len(ta) >= 2:
            h = self.ev.c.head(ta[1])
            u = self.ev.c.user_impls.get(("core::convert::From", "from", h))
            if u is not None:
                src = u["locals"][1]
                if self.ev.c.head(src) == self.ev.c.head(ta[0]) or self.ev.ty(ta[0])["k"] == "param":
                    return self.ev.run_fn(u["upath"], [c.arg(0)], c.mem)
        return self.conv_val(c.val(0), c.dty, c)

    def from_(self, c):
        f = self.ev.c.by_upath.get(c.k.get("inst") or "")
        if f is not None:
            return NotImplemented
        return self.conv_val(c.val(0), c.dty, c)

    def conv_val(self, v, dty, c):
        d = self.ev.ty(dty) if dty is not None else None
        if d and d["k"] == "adt":
            k = self.kind(d["def"])
            if k in ("set", "map") and v.op == "seq":
                return self.conv(v, dty, c)
            if d["def"] == OPT:
                return SOME(v)
        return v

    def default(self, c):
        f = self.ev.c.by_upath.get(c.k.get("inst") or "")
        if f is not None and not f["derived"]:
            return NotImplemented
        return self.default_of(c.dty)

    def default_of(self, ty):
        d = self.ev.ty(ty)
        if d["k"] == "ref":
            return self.default_of(d["args"][0])
        if d["k"] == "adt":
            k = self.kind(d["def"])
            if k == "map":
                return MAP0
            if k == "set":
                return SET0
            if k in ("vec", "string", "iset"):
                return EMPTY
            if d["def"] == OPT:
                return NONE
            if d["def"].endswith("DefaultHasher"):
                return mk("sym", "hasher0")
            a = t.ADTS.get(d["def"])
            if a and not a["enum"] and a["local"]:
                return t.struct(d["def"], [self.default_of(f[1]) for f in a["variants"][0]["fields"]])
        if d["k"] == "prim":
            if d["s"] == "bool":
                return FALSE
            return INT(0)
        if d["k"] == "str":
            return EMPTY
        if d["k"] == "tuple":
            return t.struct("tuple", [self.default_of(x) for x in d["args"]])
        if d["k"] == "seq":
            return EMPTY
        return mk("unk", "default", d["s"])

    @staticmethod
    def kind(p):
        for a, b in (("BTreeMap", "map"), ("HashMap", "map"), ("IndexMap", "map"), ("BTreeSet", "set"), ("HashSet", "set"),
                     ("IndexSet", "iset"), ("vec::Vec", "vec"), ("String", "string"), ("VecDeque", "vec"), ("boxed::Box", "box"), ("BitVec", "vec")):
            if a in p:
                return b
        return None

    def pointee(self, ty):
        d = self.ev.ty(ty)
        return d["args"][0] if d["k"] in ("ref", "ptr") else ty

    def user(self, trait, name, ty):
        """The user's own implementation for this type, if any."""
        if ty is None:
            return None
        return self.ev.c.user_impls.get((trait, name, self.ev.c.head(ty)))

    def self_ty(self, c):
        ta = c.k.get("targs") or []
        return ta[0] if ta else None

    def eq(self, c, neg):
        ty = self.self_ty(c)
        f = self.ev.c.by_upath.get(c.k.get("inst") or "")
        if f is not None and not f["derived"] and not neg:
            return NotImplemented
        u = self.user("core::cmp::PartialEq", "eq", ty)
        a, b = c.val(0), c.val(1)
        if u is not None:
            r = self.ev.run_fn(u["upath"], [a, b], c.mem)
            r = boolx(r)
        else:
            r = t.eq(a, b)
        return NOT(r) if neg else r

    def cmp(self, c):
        ty = self.self_ty(c)
        f = self.ev.c.by_upath.get(c.k.get("inst") or "")
        if f is not None and not f["derived"]:
            return NotImplemented
        u = self.user("core::cmp::Ord", "cmp", ty)
        if u is not None:
            return self.ev.run_fn(u["upath"], [c.val(0), c.val(1)], c.mem)
        self._ordmem = c.mem
        return self.order(c.val(0), c.val(1), ty)

    def order(self, a, b, ty):
        d = self.ev.ty(ty)
        while d["k"] == "ref":
            d = self.ev.ty(d["args"][0])
        if d["k"] == "prim" and d["s"] != "bool":
            return int_cmp(a, b)
        if d["k"] == "adt":
            ad = t.ADTS.get(d["def"])
            if ad and not ad["enum"] and len(ad["variants"][0]["fields"]) == 1 and \
                    self.ev.ty(ad["variants"][0]["fields"][0][1])["k"] == "prim":
                return int_cmp(a, b)
        if a is b:
            return ordv("Equal")
        if d["k"] == "tuple":
            return self.lexi([(t.field(a, i), t.field(b, i), x) for i, x in enumerate(d["args"])])
        if d["k"] == "adt" and d["def"] == OPT:
            x = d["args"][0]
            av, bv = t.vfield(a, "Some", 0), t.vfield(b, "Some", 0)
            return switch_discr(a, OPT, {"Some": switch_discr(b, OPT, {"Some": self.order_ty(av, bv, x), "None": ordv("Greater")}),
                                         "None": switch_discr(b, OPT, {"Some": ordv("Less"), "None": ordv("Equal")})})
        if d["k"] == "adt":
            ad = t.ADTS.get(d["def"])
            if ad and ad.get("local") and not ad["enum"]:
                return self.lexi([(t.field(a, i, d["def"]), t.field(b, i, d["def"]), f[1]) for i, f in enumerate(ad["variants"][0]["fields"])])
        if d["k"] == "prim":
            a, b = boolx(a), boolx(b)
            return ite(a, ite(b, ordv("Equal"), ordv("Greater")), ite(b, ordv("Less"), ordv("Equal")))
        return mk("op", "cmp", a, b)

    def order_ty(self, a, b, ty):
        d = self.ev.ty(ty)
        while d["k"] == "ref":
            ty = d["args"][0]
            d = self.ev.ty(ty)
        u = self.user("core::cmp::Ord", "cmp", ty)
        if u is not None:
            return self.ev.run_fn(u["upath"], [a, b], dict(self._ordmem or {}))
        return self.order(a, b, ty)

    _ordmem = None

    def lexi(self, items):
        r = ordv("Equal")
        for a, b, ty in reversed(items):
            o = self.order_ty(a, b, ty)
            r = switch_discr(o, ORD, {"Less": ordv("Less"), "Equal": r, "Greater": ordv("Greater")})
        return r

    def partial_cmp(self, c):
        ty = self.self_ty(c)
        f = self.ev.c.by_upath.get(c.k.get("inst") or "")
        if f is not None and not f["derived"]:
            return NotImplemented
        u = self.user("core::cmp::PartialOrd", "partial_cmp", ty)
        if u is not None:
            return self.ev.run_fn(u["upath"], [c.val(0), c.val(1)], c.mem)
        self._ordmem = c.mem
        return SOME(self.order(c.val(0), c.val(1), ty))

    def rel(self, n):
        def f(c):
            ty = self.self_ty(c)
            u = self.user("core::cmp::PartialOrd", "partial_cmp", ty)
            a, b = c.val(0), c.val(1)
            if u is not None:
                o = self.ev.run_fn(u["upath"], [a, b], c.mem)
                o = t.vfield(o, "Some", 0)
            else:
                self._ordmem = c.mem
                o = self.order(a, b, ty)
            if n == "lt":
                return t.is_variant(o, ORD, "Less")
            if n == "gt":
                return t.is_variant(o, ORD, "Greater")
            if n == "le":
                return NOT(t.is_variant(o, ORD, "Greater"))
            return NOT(t.is_variant(o, ORD, "Less"))
        return f

    def then_with(self, c):
        o = c.val(0)
        r = c.under(t.is_variant(o, ORD, "Equal"), lambda m: c.ev.call_value(c.arg(1), [], m))
        return switch_discr(o, ORD, {"Less": ordv("Less"), "Equal": r, "Greater": ordv("Greater")})

    def blen(self, s):
        sc = t.str_const(s)
        if sc is not None:
            return INT(len(sc.encode()))
        return t.lift(lambda x: mk("blen", x) if t.str_const(x) is None else INT(len(t.str_const(x).encode())), s)

    def mem_take(self, c):
        return c.swap(0, self.default_of(self.pointee_default(c)))

    def pointee_default(self, c):
        return c.dty

    def mem_replace(self, c):
        return c.swap(0, c.val(1))

    def mem_swap(self, c):
        a, b = c.val(0), c.val(1)
        c.set(0, b)
        c.set(1, a)
        return UNIT

    def box_uninit(self, c):
        self.ev.nheap += 1
        cell = ("H", self.ev.nheap)
        c.mem[cell] = UNDEF
        return mk("ref", cell, ())

    def add_assign(self, c):
        a, b = c.val(0), c.val(1)
        if self.is_string(self.self_ty(c)):
            return c.set(0, t.concat(a, b))
        return c.set(0, t.add(a, b))

    def add(self, c):
        if self.is_string(self.self_ty(c)):
            return t.concat(c.val(0), c.val(1))
        return t.add(c.val(0), c.val(1))

    def is_string(self, ty):
        if ty is None:
            return False
        d = self.ev.ty(ty)
        while d["k"] == "ref":
            d = self.ev.ty(d["args"][0])
        return d["k"] == "str" or (d["k"] == "adt" and "String" in d["def"])

    # ---------------------------------------------------------------- try
    def try_branch(self, c):
        v = c.val(0)
        ty = self.self_ty(c)
        d = self.ev.ty(ty)
        if d.get("def") == OPT:
            return switch_discr(v, OPT, {"Some": t.ctor(CF, "Continue", (t.vfield(v, "Some", 0),)),
                                         "None": t.ctor(CF, "Break", (NONE,))})
        if d.get("def") == RES:
            return switch_discr(v, RES, {"Ok": t.ctor(CF, "Continue", (t.vfield(v, "Ok", 0),)),
                                         "Err": t.ctor(CF, "Break", (err(t.vfield(v, "Err", 0)),))})
        return NotImplemented

    def try_residual(self, c):
        v = c.val(0)
        if v is NONE:
            return NONE
        ta = c.k.get("targs") or []
        return v

    def try_out(self, c):
        d = self.ev.ty(c.dty)
        if d.get("def") == OPT:
            return SOME(c.val(0))
        return OKV(c.val(0))

    def fn_call(self, c):
        f = c.arg(0)
        a = c.val(1) if c.arg(1).op != "struct" else c.arg(1)
        if a.op != "struct":
            raise_uns("call arguments")
        return self.ev.call_value(f, list(a.a[1]), c.mem, c.dty)

    # ---------------------------------------------------------------- options
    def opt_get(self, c):
        if self.ev.xp and (not self.ev.um or c.meth == "unwrap_unchecked"):
            self.ev.fails(c.mem, t.is_variant(c.val(0), OPT, "None"))
        return t.vfield(c.val(0), "Some", 0)

    def res_get(self, c, var, other):
        if self.ev.xp and (not self.ev.um or c.meth.endswith("unchecked")):
            self.ev.fails(c.mem, t.is_variant(c.val(0), RES, other))
        return t.vfield(c.val(0), var, 0)

    def opt_case(self, c, some, none):
        v = c.val(0)
        isv = t.is_variant(v, OPT, "Some")
        a = c.under(isv, lambda m: c.on(m, lambda: some(t.vfield(v, "Some", 0))), c.mem)
        b = c.under(NOT(isv), lambda m: c.on(m, none), c.mem)
        if a is None and b is None:
            return None
        a = UNDEF if a is None else a
        b = UNDEF if b is None else b
        return t.collapse(ite(isv, a, b)) if (a is UNDEF or b is UNDEF) else ite(isv, a, b)

    def res_case(self, c, ok, er):
        v = c.val(0)
        isv = t.is_variant(v, RES, "Ok")
        a = c.under(isv, lambda m: c.on(m, lambda: ok(t.vfield(v, "Ok", 0))), c.mem)
        b = c.under(NOT(isv), lambda m: c.on(m, lambda: er(t.vfield(v, "Err", 0))), c.mem)
        a = UNDEF if a is None else a
        b = UNDEF if b is None else b
        return t.collapse(ite(isv, a, b)) if (a is UNDEF or b is UNDEF) else ite(isv, a, b)

    def b_then(self, c):
        b = c.bool(0)
        a = c.under(b, lambda m: c.on(m, lambda: SOMEX(c.fcall(1, []))), c.mem)
        return ite(b, UNDEF if a is None else a, NONE)

    def opt_filter(self, c):
        v = c.val(0)
        isv = t.is_variant(v, OPT, "Some")
        p = c.under(isv, lambda m: c.on(m, lambda: boolx(c.fcall(1, [t.vfield(v, "Some", 0)]))), c.mem)
        return ite(isv, ite(p, v, NONE), NONE)

    def opt_seq(self, v):
        return switch_discr(v, OPT, {"Some": t.SEQ([t.E(t.vfield(v, "Some", 0))]), "None": EMPTY})

    def opt_as_mut(self, c):
        v = c.val(0)
        r = c.ref(0)
        if r is None:
            return v
        return switch_discr(v, OPT, {"Some": SOME(c.ev.ext(r, ("v", OPT, "Some", 0, 1))), "None": NONE})

    # ---------------------------------------------------------------- sequences
    def v_push(self, c):
        return c.set(0, t.push(c.val(0), c.arg(1)))

    def v_pop(self, c):
        v = c.val(0)
        n = t.length(v)
        e = t.switch_val(n, {0: TRUE}, FALSE)
        last = t.at(v, t.sub(n, INT(1)))
        new = ite(e, v, pop_last(v))
        c.set(0, new)
        return ite(e, NONE, SOME(last))

    def v_pop_front(self, c):
        v = c.val(0)
        n = t.length(v)
        e = t.switch_val(n, {0: TRUE}, FALSE)
        x = t.at(v, INT(0))
        c.set(0, ite(e, v, t.slice_(v, INT(1), n)))
        return ite(e, NONE, SOME(x))

    def v_remove(self, c):
        v, i = c.val(0), c.val(1)
        n = t.length(v)
        x = t.at(v, i)
        if c.meth == "swap_remove":
            c.set(0, mk("swaprm", v, i))
        else:
            c.set(0, t.concat(t.slice_(v, INT(0), i), t.slice_(v, t.add(i, INT(1)), n)))
        return x

    def v_resize(self, c):
        v = c.val(0)
        c.set(0, mk("resize", v, c.val(1), c.val(2)))
        return UNIT

    def v_append(self, c):
        a, b = c.val(0), c.val(1)
        c.set(0, t.concat(a, b))
        c.set(1, EMPTY)
        return UNIT

    def v_drain(self, c):
        v = c.val(0)
        r = c.val(1)
        ta = c.k.get("targs") or []
        b = self.range_of(r, ta[-1] if ta else None, v) or self.bounds(r, v)
        lo, hi = b
        if lo is None:
            return NotImplemented
        c.set(0, t.concat(t.slice_(v, INT(0), lo), t.slice_(v, hi, t.length(v))))
        return iter_(t.slice_(v, lo, hi))

    def stdop(self, c, name, wrap=None):
        """An operation of which only the name and what it is given are known."""
        x = mk("stdop", name, tuple([c.val(0)] + [self.ev.freeze(a, c.mem) for a in c.args[1:]]))
        return wrap(x) if wrap else x

    def nonempty(self, c, f):
        v = c.val(0)
        n = t.length(v)
        return opt(NOT(t.switch_val(n, {0: TRUE}, FALSE)), f(v, n))

    def begins(self, v, w, end):
        """v begins (ends) with w."""
        n, k = t.length(v), t.length(w)
        tmp = fresh()
        i = mk("bv", tmp)
        off = t.sub(n, k) if end else INT(0)
        if t.fixed_parts(w) and k.op == "int":
            r = t.le(k, n)
            for j in range(k.a[0]):
                r = AND(r, t.eq(t.at(v, t.add(off, INT(j))), t.at(w, INT(j))))
            return r
        return AND(t.le(k, n), NOT(t.exists(tmp, k, NOT(t.eq(t.at(v, t.add(off, i)), t.at(w, i))))))

    def str_begins(self, c, end):
        p = self.pattern(c, 1)
        return self.begins(c.val(0), p, end) if p is not None else t.batom(self.stdop(c, c.meth))

    def pattern(self, c, i):
        """The constant text a pattern stands for."""
        p = c.val(i)
        if p.op == "chr" or p.op == "int":
            p = t.SEQ([t.E(p)])
        return p if t.str_const(p) is not None else None

    def strip(self, c, end):
        p = self.pattern(c, 1)
        v = c.val(0)
        if p is None:
            return NotImplemented
        n, k = t.length(v), t.length(p)
        return opt(self.begins(v, p, end), t.slice_(v, INT(0), t.sub(n, k)) if end else t.slice_(v, k, n))

    def str_replace(self, c):
        p = self.pattern(c, 1)
        x = t.str_const(p) if p is not None else None
        if x is None or len(x) != 1 or c.val(0).op == "undef":
            return self.stdop(c, "replace")
        v, w = c.val(0), t.mk_seq_keep(c.val(2))
        tmp = fresh()
        e = t.at(v, mk("bv", tmp))
        return t.rep(tmp, t.length(v), ite(t.eq(e, INT(ord(x))), w, t.SEQ([t.E(e)])))

    def v_split_off(self, c):
        v, k = c.val(0), c.val(1)
        c.set(0, t.slice_(v, INT(0), k))
        return t.slice_(v, k, t.length(v))

    def map_range(self, c):
        return iter_(mk("stdop", "range", (c.val(0), self.ev.freeze(c.arg(1), c.mem))))

    def m_retain(self, c):
        v = c.val(0)
        ev = c.ev
        ev.nheap += 1
        cell = ("H", ev.nheap)

        def call(m, x):
            m[cell] = t.field(x, 1)
            y = ev.call_value(c.arg(1), [t.field(x, 0), mk("ref", cell, ())], m)
            x2 = m.pop(cell, None)
            return y if x2 is t.field(x, 1) else None
        s = mk_entries(v)
        r, _ = self.comp(c, s, call, lambda x, y: alt(boolx(y), t.SEQ([t.E(x)])))
        if r is None:
            return NotImplemented
        return c.set(0, L.mapof(MAP0, r))

    def set_retain(self, c):
        v = c.val(0)
        r, _ = self.comp(c, v, lambda m, x: c.ev.call_value(c.arg(1), [x], m), lambda x, y: alt(boolx(y), t.SEQ([t.E(x)])))
        if r is None:
            return NotImplemented
        return c.set(0, t.SETV([mk("sp", r)]))

    def set_pop(self, c, f):
        v = c.val(0)
        n = t.length(v)
        x = t.at(v, f(n))
        e = t.switch_val(n, {0: TRUE}, FALSE)
        c.set(0, ite(e, v, t.remove(v, x)))
        return opt(NOT(e), x)

    def meets(self, a, b):
        tmp = fresh()
        return t.exists(tmp, t.length(a), t.has(b, t.at(a, mk("bv", tmp))))

    def set_take(self, c):
        v, x = c.val(0), c.val(1)
        c.set(0, t.remove(v, x))
        return opt(t.has(v, x), x)

    def set_part(self, c, inside, other=False):
        a, b = c.val(0), c.val(1)
        if other:
            a, b = b, a
        tmp = fresh()
        e = t.at(a, mk("bv", tmp))
        q = t.has(b, e)
        return iter_(t.rep(tmp, t.length(a), ite(q if inside else NOT(q), t.SEQ([t.E(e)]), EMPTY)))

    def it_rposition(self, c):
        s = self.force(c.seq(0), c)
        n = t.length(s)
        tmp, t2 = fresh(), fresh()

        def test(i):
            return boolx(c.ev.call_value(c.arg(1), [t.at(s, t.sub(t.sub(n, INT(1)), i))], dict(c.mem)))
        return opt(t.exists(tmp, n, test(mk("bv", tmp))), t.sub(t.sub(n, INT(1)), t.first(t2, n, test(mk("bv", t2)))))

    def it_rfind(self, c):
        s = self.force(c.seq(0), c)
        n = t.length(s)
        tmp, t2 = fresh(), fresh()

        def back(i):
            return t.at(s, t.sub(t.sub(n, INT(1)), i))

        def test(i):
            return boolx(c.ev.call_value(c.arg(1), [back(i)], dict(c.mem)))
        return opt(t.exists(tmp, n, test(mk("bv", tmp))), back(t.first(t2, n, test(mk("bv", t2)))))

    def it_ne(self, c):
        return NOT(self.it_eq(c))

    def it_le(self, c):
        return t.batom(mk("stdop", c.meth, (self.force(c.seq(0), c), self.force(c.seq(1), c))))

    it_lt = it_gt = it_ge = it_le

    def it_cmp(self, c):
        return mk("stdop", c.meth, (self.force(c.seq(0), c), self.force(c.seq(1), c)))

    it_partial_cmp = it_cmp

    def it_step_by(self, c):
        s, k = self.force(c.seq(0), c), c.val(1)
        return iter_(s) if k is INT(1) else iter_(mk("stdop", "step_by", (s, k)))

    def it_cycle(self, c):
        return iter_(mk("stdop", "cycle", (self.force(c.seq(0), c),)))

    def it_max_by_key(self, c):
        return mk("stdop", c.meth, (self.force(c.seq(0), c), self.ev.freeze(c.arg(1), c.mem)))

    it_min_by_key = it_max_by = it_min_by = it_max_by_key

    def v_reorder(self, c, name):
        """Only its name and what it is given are known of such an operation, except for plain sorting."""
        if name in ("sort_by", "sort_by_key"):
            m = dict(c.mem)
            a, b = mk("sym", "@sorta"), mk("sym", "@sortb")
            r = self.ev.call_value(c.arg(1), [a, b] if name == "sort_by" else [a], m)
            if all(m.get(k) is x for k, x in c.mem.items()):
                if r is (int_cmp(a, b) if name == "sort_by" else a) or name == "sort_by" and r is mk("op", "cmp", a, b):
                    return c.set(0, mk("sort", c.val(0)))
                if name == "sort_by" and r is int_cmp(b, a):
                    return c.set(0, t.rev(mk("sort", c.val(0))))
        return c.set(0, mk("stdop", name, tuple([c.val(0)] + [self.ev.freeze(a, c.mem) for a in c.args[1:]])))

    def v_retain(self, c):
        v = c.val(0)
        r, _ = self.comp(c, v, lambda m, x: c.ev.call_value(c.arg(1), [x], m), lambda x, y: alt(boolx(y), t.SEQ([t.E(x)])))
        return c.set(0, r)

    def s_get(self, c):
        v, i = c.val(0), c.val(1)
        if i.op == "struct":
            lo, hi = self.bounds(i, v)
            return opt(AND(t.le(lo, hi), t.le(hi, t.length(v))), t.slice_(v, lo, hi))
        return opt(t.lt(i, t.length(v)), t.at(v, i))

    def s_get_unchecked(self, c):
        s = c.val(0)
        self.ev.out_of(c.mem, c.val(1), t.length(s), True)
        return t.at(s, c.val(1))

    def s_get_mut(self, c):
        v, i = c.val(0), c.val(1)
        return opt(t.lt(i, t.length(v)), c.ev.ext(c.ref(0), ("i", i)))

    def s_last_mut(self, c):
        v = c.val(0)
        n = t.length(v)
        return opt(NOT(t.switch_val(n, {0: TRUE}, FALSE)), c.ev.ext(c.ref(0), ("i", t.sub(n, INT(1)))))

    def s_contains(self, c):
        v, x = c.val(0), c.val(1)
        if v.op == "seq" and t.fixed_parts(v):
            r = FALSE
            for p in v.a[0]:
                if p.op == "e":
                    r = OR(r, t.eq(p.a[0], x))
                else:
                    for ch in p.a[0]:
                        r = OR(r, t.eq(INT(ord(ch)), x))
            return r
        tmp = fresh()
        return t.exists(tmp, t.length(v), t.eq(t.at(v, mk("bv", tmp)), x))

    def s_swap(self, c):
        v, i, j = c.val(0), c.val(1), c.val(2)
        return c.set(0, t.setat(t.setat(v, i, t.at(v, j)), j, t.at(v, i)))

    def s_join(self, c):
        v = c.val(0)
        if c.meth == "concat":
            tmp = fresh()
            return t.rep(tmp, t.length(v), t.mk_seq_keep(t.at(v, mk("bv", tmp))))
        sep = c.val(1)
        if v.op == "seq" and all(p.op == "e" for p in v.a[0]):
            out = []
            for i, p in enumerate(v.a[0]):
                if i:
                    out += t.seq_parts(sep)
                out += t.seq_parts(p.a[0])
            return t.mk_seq_keep(t.SEQ(out))
        r = t.simple_rep(v)
        if r and sep.op != "case":
            tmp = fresh()
            i = mk("bv", tmp)
            x = t.mk_seq_keep(t.at(v, i))
            return t.rep(tmp, r[1], t.concat(ite(t.lt(INT(0), i), t.mk_seq_keep(sep), EMPTY), x))
        return mk("join", v, sep)

    def s_iter_mut(self, c):
        r = c.ref(0)
        if r is None:
            return iter_(c.val(0))
        return iter_(mk("seqmut", r))

    def bounds(self, r, v):
        if r.op != "struct":
            return None, None
        nm = r.a[0]
        if nm.endswith("::RangeFull"):
            return INT(0), t.length(v)
        if nm.endswith("::Range"):
            return r.a[1][0], r.a[1][1]
        if nm == ITER and r.a[1][0].op == "range":
            return r.a[1][0].a[0], r.a[1][0].a[1]
        return None, None

    def index(self, c):
        inst = c.k.get("inst")
        if inst and inst in self.ev.c.by_upath:
            return NotImplemented
        v, i = c.val(0), c.val(1)
        ta = c.k.get("targs") or []
        r = self.range_of(i, ta[1] if len(ta) > 1 else None, v)
        ty = ta[0] if ta else None
        if r is not None:
            if ty is not None and self.is_string(ty):
                return mk("strslice", v, *r)
            return t.slice_(v, r[0], r[1])
        d = self.ev.ty(ty)
        while d["k"] == "ref":
            d = self.ev.ty(d["args"][0])
        if d["k"] == "adt" and self.kind(d["def"]) == "map":
            if self.ev.xp:
                self.ev.fails(c.mem, NOT(t.has(v, i)))
            return t.get(v, i)
        self.ev.out_of(c.mem, i, t.length(v))
        return t.at(v, i)

    def range_of(self, i, ty, v):
        if ty is None:
            return None
        h = self.ev.c.head(ty)
        n = t.length(v)
        if h.endswith("range::RangeFull"):
            return INT(0), n
        if h.endswith("range::Range"):
            return t.field(i, 0), t.field(i, 1)
        if h.endswith("range::RangeFrom"):
            return i if i.op != "struct" else i.a[1][0], n
        if h.endswith("range::RangeTo"):
            return INT(0), i if i.op != "struct" else i.a[1][0]
        if h.endswith("range::RangeInclusive"):
            s = i.a[1][0] if i.op == "struct" and i.a[0] == ITER else None
            if s is not None and s.op == "range":
                return s.a
        if h.endswith("range::RangeToInclusive"):
            return INT(0), t.add(i if i.op != "struct" else i.a[1][0], INT(1))
        return None

    def index_mut(self, c):
        inst = c.k.get("inst")
        if inst and inst in self.ev.c.by_upath:
            return NotImplemented
        ta = c.k.get("targs") or []
        d = self.ev.ty(ta[0])
        while d["k"] == "ref":
            d = self.ev.ty(d["args"][0])
        i = c.val(1)
        if d["k"] == "adt" and self.kind(d["def"]) == "map":
            return c.ev.ext(c.ref(0), ("k", i))
        r = self.range_of(i, ta[1] if len(ta) > 1 else None, c.val(0))
        if r is not None:
            return c.ev.ext(c.ref(0), ("sl", r[0], r[1]))
        self.ev.out_of(c.mem, i, t.length(c.val(0)))
        return c.ev.ext(c.ref(0), ("i", i))

    def char_indices(self, c):
        return iter_(mk("charidx", c.val(0)))

    def str_get(self, c):
        v, i = c.val(0), c.val(1)
        ta = c.k.get("targs") or []
        r = self.range_of(i, ta[-1] if ta else None, v)
        if r is None:
            return NotImplemented
        return opt(t.batom(mk("boundary", v, *r)), mk("strslice", v, *r))

    def range_contains(self, c):
        r, x = c.val(0), c.val(1)
        return AND(t.le(t.field(r, 0), x), t.lt(x, t.field(r, 1)))

    def rangei_contains(self, c):
        s = c.seq(0)
        if s.op != "range":
            return NotImplemented
        x = c.val(1)
        return AND(t.le(s.a[0], x), t.lt(x, s.a[1]))

    # ---------------------------------------------------------------- maps and sets
    def m_get_mut(self, c):
        v, k = c.val(0), c.val(1)
        return opt(t.has(v, k), c.ev.ext(c.ref(0), ("k", k)))

    def m_insert(self, c):
        v, k, x = c.val(0), c.val(1), c.arg(2)
        old = opt(t.has(v, k), t.get(v, k))
        c.set(0, t.put(v, k, x))
        return old

    def m_remove(self, c):
        v, k = c.val(0), c.val(1)
        old = opt(t.has(v, k), t.get(v, k))
        c.set(0, t.remove(v, k))
        return old

    def set_insert(self, c):
        v, x = c.val(0), c.val(1)
        h = t.has(v, x)
        c.set(0, t.ins(v, x))
        return NOT(h)

    def set_remove(self, c):
        v, x = c.val(0), c.val(1)
        h = t.has(v, x)
        c.set(0, t.remove(v, x))
        return h

    def subset(self, a, b):
        tmp = fresh()
        return NOT(t.exists(tmp, t.length(a), NOT(t.has(b, t.at(a, mk("bv", tmp))))))

    def iset_insert(self, c):
        v, x = c.val(0), c.val(1)
        h = t.has(v, x)
        c.set(0, ite(h, v, t.push(v, x)))
        return NOT(h)

    def iset_all(self, c, v, s):
        """Every element of s inserted, in order."""
        if s.op == "seq" and len(s.a[0]) <= 3 and all(p.op == "e" for p in s.a[0]):
            for p in s.a[0]:
                v = ite(t.has(v, p.a[0]), v, t.push(v, p.a[0]))
            return v
        c.ev.nheap += 1
        acc = ("A", c.ev.nheap)
        m = dict(c.mem)
        m[acc] = v

        def step(mm, x):
            mm[acc] = ite(t.has(mm[acc], x), mm[acc], t.push(mm[acc], x))
            return [("LATCH", TRUE, mm)]
        outs = self.over(s, m, step, c)
        pc, mm = c.ev.merge([(pc, x) for _, pc, x in outs], None)
        return mm[acc]

    def iset_insert_full(self, c):
        v, x = c.val(0), c.val(1)
        h = t.has(v, x)
        c.set(0, ite(h, v, t.push(v, x)))
        return t.tup(ite(h, mk("ixof", v, x), t.length(v)), NOT(h))

    def m_entry(self, c):
        e = mk("struct", ENTRY, (c.ref(0), c.val(1)))
        h = t.has(c.val(0), c.val(1))
        d = self.ev.ty(c.dty)
        adt = d.get("def")
        if adt not in t.ADTS:
            return mk("unk", "entry", str(adt))
        return ite(h, t.ctor(adt, "Occupied", (e,)), t.ctor(adt, "Vacant", (e,)))

    def entry_parts(self, c):
        e = c.arg(0)
        while True:
            if e.op == "struct" and e.a[0] == ENTRY:
                return e.a[1]
            if e.op == "ref":
                e = c.ev.read_ref(e, c.mem)
            elif e.op == "ctor":
                e = e.a[2][0]
            elif e.op == "case":
                e = next(b for b in [b for _, b in e.a[1]] + [e.a[2]] if b is not None and b is not UNDEF)
            else:
                return t.field(e, 0), t.field(e, 1)

    def e_or(self, c, mkv):
        r, k = self.entry_parts(c)
        m = c.ev.read_ref(r, c.mem)
        h = t.has(m, k)

        def f(mem):
            def g():
                v = mkv()
                if v is None:
                    return None
                mm = c.ev.read_ref(r, c.mem)
                c.ev.write_ref(r, t.put(mm, k, v), c.mem)
                return UNIT
            return c.on(mem, g)
        c.under(NOT(h), f, c.mem)
        return c.ev.ext(r, ("k", k))

    def e_and_modify(self, c):
        r, k = self.entry_parts(c)
        h = t.has(c.ev.read_ref(r, c.mem), k)
        ref = c.ev.ext(r, ("k", k))
        c.under(h, lambda m: c.ev.call_value(c.arg(1), [ref], m), c.mem)
        return c.val(0)

    def e_get(self, c):
        r, k = self.entry_parts(c)
        return t.get(c.ev.read_ref(r, c.mem), k)

    def e_ref(self, c):
        r, k = self.entry_parts(c)
        return c.ev.ext(r, ("k", k))

    def occ_insert(self, c):
        r, k = self.entry_parts(c)
        m = c.ev.read_ref(r, c.mem)
        old = t.get(m, k)
        c.ev.write_ref(r, t.put(m, k, c.arg(1)), c.mem)
        return old

    def occ_remove(self, c):
        r, k = self.entry_parts(c)
        m = c.ev.read_ref(r, c.mem)
        old = t.get(m, k)
        c.ev.write_ref(r, t.remove(m, k), c.mem)
        return old

    def vac_insert(self, c):
        r, k = self.entry_parts(c)
        m = c.ev.read_ref(r, c.mem)
        c.ev.write_ref(r, t.put(m, k, c.arg(1)), c.mem)
        return c.ev.ext(r, ("k", k))

    def extend(self, c):
        v = c.val(0)
        s = c.seq(1)
        ta = c.k.get("targs") or []
        if len(ta) > 2 and self.ev.c.head(ta[2]) == OPT:
            s = self.opt_seq(c.val(1))
        d = self.ev.ty(self.self_ty(c))
        while d["k"] == "ref":
            d = self.ev.ty(d["args"][0])
        k = self.kind(d.get("def") or "")
        s = self.force(s, c)
        if k == "set":
            return c.set(0, t.union(v, s))
        if k == "map":
            return c.set(0, L.mapof(v, s))
        if k == "iset":
            return c.set(0, self.iset_all(c, v, s))
        if k == "string":
            s = self.glued(s, ta[2] if len(ta) > 2 else None)
        return c.set(0, t.concat(v, s))

    # ---------------------------------------------------------------- iterators
    def as_seq(self, v, c):
        """The remaining elements of an iterator value."""
        ev = self.ev
        v = ev.deref(v, c.mem) if v.rf and v.op in ("ref", "case") else v
        if v.op == "struct" and v.a[0] == ITER:
            s, p = v.a[1]
            if p.op == "int" and p.a[0] == 0:
                return s
            return t.slice_(s, p, t.length(s))
        if v.op == "struct" and v.a[0] == RANGE:
            return mk("range", v.a[1][0], v.a[1][1])
        if v.op == "struct" and v.a[0] == LAZY:
            return v
        if v.op == "struct" and v.a[0] in t.ADTS and t.ADTS[v.a[0]]["local"]:
            return self.user_iter(v, v.a[0], c)
        if v.op == "ctor" and v.a[0] == OPT:
            return self.opt_seq(v)
        if v.op == "case":
            return t.lift(lambda x: self.as_seq(x, c), v)
        return v

    def user_iter(self, v, adt, c):
        """Everything the user's iterator yields."""
        u = self.ev.c.user_impls.get(("core::iter::traits::iterator::Iterator", "next", adt))
        if u is None:
            raise_uns("iterator " + adt)
        ev = self.ev
        ev.nheap += 1
        cell, acc = ("H", ev.nheap), ("A", ev.nheap)
        m = dict(c.mem)
        m[cell] = v
        m[acc] = EMPTY
        ref = mk("ref", cell, ())

        def step(mm, x):
            mm[acc] = t.push(mm[acc], x)
            return [("LATCH", TRUE, mm)]
        outs = ev.while_next(m, lambda mm: ev.run_fn(u["upath"], [ref], mm), step)
        pc, mm = ev.merge([(pc, x) for _, pc, x in outs], None)
        for k in c.mem:
            if mm.get(k) is not c.mem[k]:
                c.mem[k] = mm[k]
        return mm[acc]

    def into_iter(self, c):
        ta = c.k.get("targs") or []
        v = c.arg(0)
        ty = ta[0] if ta else None
        f = self.ev.c.by_upath.get(c.k.get("inst") or "")
        if f is not None:
            return NotImplemented
        d = self.ev.ty(ty) if ty is not None else {"k": ""}
        if d["k"] == "ref" and d.get("mut"):
            d2 = self.ev.ty(d["args"][0])
            r = v if v.rf else None
            if r is not None and r.op == "ref":
                x = self.ev.read_ref(r, c.mem)
                if x.op == "struct" and x.a[0] in (ITER, LAZY):
                    return r
                if d2["k"] == "adt" and self.kind(d2["def"]) == "map":
                    return iter_(mk("entriesmut", r))
                return iter_(mk("seqmut", r))
        v = c.val(0)
        if v.op == "struct" and v.a[0] in (ITER, LAZY):
            return v
        if v.op == "struct" and v.a[0] == RANGE:
            return iter_(mk("range", v.a[1][0], v.a[1][1]))
        h = self.ev.c.head(ty) if ty is not None else ""
        if ("core::iter::traits::iterator::Iterator", "next", h) in self.ev.c.user_impls:
            return iter_(self.user_iter(v, h, c))
        if self.kind(h) == "map":
            return iter_(mk_entries(v))
        if h == OPT:
            return iter_(self.opt_seq(v))
        if h == RANGE:
            return iter_(mk("range", t.field(v, 0), t.field(v, 1)))
        return iter_(v)

    def force(self, s, c):
        if s.op == "struct" and s.a[0] == LAZY:
            return self.collect_lazy(s, c)
        return s

    def elem(self, s, i):
        if s.op == "seqmut":
            return mk("ref", s.a[0].a[0], s.a[0].a[1] + (("i", i),))
        if s.op == "entriesmut":
            r = s.a[0]
            return t.tup(mk("mkey", self.cur(r), i), mk("ref", r.a[0], r.a[1] + (("mv", i),)))
        if s.op == "valsmut":
            r = s.a[0]
            return mk("ref", r.a[0], r.a[1] + (("mv", i),))
        if s.op == "slice" and s.a[0].op in ("seqmut", "entriesmut", "valsmut"):
            return self.elem(s.a[0], t.add(s.a[1], i))
        if s.op == "rev" and s.a[0].op in ("seqmut", "entriesmut", "valsmut"):
            return self.elem(s.a[0], t.sub(t.sub(self.len_(s.a[0]), INT(1)), i))
        if s.op == "enum":
            return t.tup(i, self.elem(s.a[0], i))
        if s.op == "zip":
            return t.tup(self.elem(s.a[0], i), self.elem(s.a[1], i))
        return t.at(s, i)

    _mem = None

    def cur(self, r):
        return self.ev.read_ref(r, self._mem)

    def len_(self, s):
        if s.op in ("seqmut", "entriesmut", "valsmut"):
            return t.length(self.cur(s.a[0]))
        if s.op == "enum":
            return self.len_(s.a[0])
        if s.op == "rev":
            return self.len_(s.a[0])
        if s.op == "zip":
            return t.vmin(self.len_(s.a[0]), self.len_(s.a[1]))
        return t.length(s)

    def it_next(self, c):
        r = c.arg(0)
        v = c.val(0)
        self._mem = c.mem
        if v.op == "struct" and v.a[0] == ITER:
            s, p = v.a[1]
            n = self.len_(s)
            ok = t.lt(p, n)
            if r.rf:
                c.ev.write_ref(r, mk("struct", ITER, (s, ite(ok, t.add(p, INT(1)), p))), c.mem)
            return opt(ok, self.elem(s, p))
        if v.op == "struct" and v.a[0] == LAZY:
            kind, inner, f = v.a[1]
            if t.str_const(kind) != "map":
                raise_uns("next on lazy " + str(t.str_const(kind)))
            c.ev.nheap += 1
            cell = ("H", c.ev.nheap)
            c.mem[cell] = inner
            o = self.call({"fn": "Iterator::next", "trait": "core::iter::traits::iterator::Iterator", "method": "next"},
                          [mk("ref", cell, ())], c.mem, None)
            isv = t.is_variant(o, OPT, "Some")
            x = c.under(isv, lambda m: c.ev.call_value(f, [t.vfield(o, "Some", 0)], m), c.mem)
            c.ev.write_ref(r, mk("struct", LAZY, (kind, c.mem.pop(cell), f)), c.mem)
            return opt(isv, x)
        if v.op == "struct" and v.a[0] == RANGE:
            lo, hi = v.a[1]
            ok = t.lt(lo, hi)
            c.ev.write_ref(r, mk("struct", RANGE, (ite(ok, t.add(lo, INT(1)), lo), hi)), c.mem)
            return opt(ok, lo)
        f = self.ev.c.by_upath.get(c.k.get("inst") or "")
        if f is not None:
            return NotImplemented
        u = self.user("core::iter::traits::iterator::Iterator", "next", self.self_ty(c))
        if u is not None:
            return self.ev.run_fn(u["upath"], [r], c.mem)
        return NotImplemented

    def it_next_back(self, c):
        r, v = c.arg(0), c.val(0)
        if v.op == "struct" and v.a[0] == ITER:
            s = self.as_seq(v, c)
            n = t.length(s)
            e = t.switch_val(n, {0: TRUE}, FALSE)
            c.ev.write_ref(r, iter_(ite(e, s, pop_last(s))), c.mem)
            return ite(e, NONE, SOME(t.at(s, t.sub(n, INT(1)))))
        return NotImplemented

    def it_peek(self, c):
        v = c.val(0)
        if v.op == "struct" and v.a[0] == ITER:
            s, p = v.a[1]
            return opt(t.lt(p, t.length(s)), t.at(s, p))
        return NotImplemented

    def probe(self, c, f, mem, args):
        """Call f on a copy of memory; (value, whether memory changed)."""
        m2 = dict(mem)
        v = c.ev.call_value(f, args, m2)
        changed = any(m2.get(k) is not x for k, x in mem.items() if k != ("P",))
        if not changed and m2.get(("P",)) is not mem.get(("P",)):
            changed = False
        return v, changed, m2

    def comp(self, c, s, call, build):
        """The sequence of build(elem, call(elem)) over s, with all effects."""
        ev = c.ev
        self._mem = c.mem
        tmp = fresh()
        i = mk("bv", tmp)
        n = self.len_(s)
        e = self.elem(s, i)
        m2 = dict(c.mem)
        y = call(m2, e)
        changed = [k for k, x in c.mem.items() if m2.get(k) is not x]
        if not changed or changed == [("P",)]:
            if changed:
                c.mem[("P",)] = OR(c.mem[("P",)], t.exists(tmp, n, collapse_p(m2[("P",)], c.mem[("P",)])))
            if y is None:
                return None, None
            return t.rep(tmp, n, body_seq(build(e, y))), None
        # with effects
        ev.nheap += 1
        acc = ("A", ev.nheap)
        m = dict(c.mem)
        m[acc] = EMPTY

        def step(mm, x):
            y = call(mm, x)
            if y is None:
                return []
            mm[acc] = t.concat(mm[acc], build(x, y))
            return [("LATCH", TRUE, mm)]
        outs = self.over(s, m, step, c)
        pc, mm = ev.merge([(pc, x) for _, pc, x in outs], None)
        r = mm.pop(acc)
        for k in c.mem:
            if mm.get(k) is not None:
                c.mem[k] = mm[k]
        return r, None

    def over(self, s, mem, step, c):
        if s.op == "struct" and s.a[0] == LAZY:
            kind, inner, f = s.a[1]
            inner = self.as_seq(inner, c)

            def st(mm, x):
                y = c.ev.call_value(f, [x], mm)
                if y is None:
                    return []
                return step(mm, y)
            return self.over(inner, mem, st, c)
        lib = self
        self._mem = mem
        if s.op in ("seqmut", "entriesmut", "valsmut", "enum", "zip", "slice", "rev"):
            ev = c.ev
            ev.nheap += 1
            pos = ("S", ev.nheap)
            m0 = dict(mem)
            m0[pos] = INT(0)

            def body(m):
                lib._mem = m
                n = lib.len_(s)
                i = m[pos]
                cnd = t.lt(i, n)
                outs = []
                if cnd is not TRUE:
                    outs.append((("END",), NOT(cnd), m))
                m2 = dict(m)
                m2[pos] = t.add(i, INT(1))
                for s2, pc, m3 in step(m2, lib.elem(s, i)):
                    outs.append((s2, AND(cnd, pc), m3))
                return outs
            outs = ev.loop_core(m0, body)
            for _, _, m in outs:
                m.pop(pos, None)
            return outs
        return c.ev.over_seq(s, mem, step)

    def collect_lazy(self, s, c):
        ev = c.ev
        ev.nheap += 1
        acc = ("A", ev.nheap)
        m = dict(c.mem)
        m[acc] = EMPTY

        def step(mm, x):
            mm[acc] = t.push(mm[acc], x)
            return [("LATCH", TRUE, mm)]
        outs = self.over(s, m, step, c)
        pc, mm = ev.merge([(pc, x) for _, pc, x in outs], None)
        r = mm.pop(acc)
        for k in c.mem:
            if mm.get(k) is not None:
                c.mem[k] = mm[k]
        return r

    def it_map(self, c):
        s = c.seq(0)
        f = c.arg(1)
        if s.op == "struct" and s.a[0] == LAZY or s.op in ("seqmut", "entriesmut", "valsmut"):
            return mk("struct", LAZY, (t.STR("map"), iter_(s), f))
        tmp = fresh()
        m2 = dict(c.mem)
        i = mk("bv", tmp)
        y = c.ev.call_value(f, [t.at(s, i)], m2)
        if any(m2.get(k) is not x for k, x in c.mem.items() if k != ("P",)):
            return mk("struct", LAZY, (t.STR("map"), iter_(s), f))
        if m2[("P",)] is not c.mem[("P",)]:
            c.mem[("P",)] = OR(c.mem[("P",)], t.exists(tmp, t.length(s), collapse_p(m2[("P",)], c.mem[("P",)])))
        if y is None:
            y = UNDEF
        return iter_(t.rep(tmp, t.length(s), mk("seq", (t.E(y),))))

    def it_filter(self, c):
        f = c.arg(1)
        r, _ = self.comp(c, self.force(c.seq(0), c), lambda m, x: c.ev.call_value(f, [x], m), lambda x, y: alt(boolx(y), t.SEQ([t.E(x)])))
        return iter_(r)

    def it_filter_map(self, c):
        f = c.arg(1)
        r, _ = self.comp(c, self.force(c.seq(0), c), lambda m, x: c.ev.call_value(f, [x], m), lambda x, y: self.opt_seq(y))
        return iter_(r)

    def it_flat_map(self, c):
        f = c.arg(1)
        ta = c.k.get("targs") or []

        def call(m, x):
            y = c.ev.call_value(f, [x], m)
            if y is None:
                return None
            c2 = Cx(self, c.k, [y], m, None)
            if len(ta) > 1 and self.ev.c.head(ta[1]) == OPT:
                return self.opt_seq(c2.val(0))
            return self.as_seq_full(y, c2)
        r, _ = self.comp(c, self.force(c.seq(0), c), call, lambda x, y: y)
        return iter_(r)

    def as_seq_full(self, y, c):
        r = self.as_seq(y, c)
        return self.force(r, c)

    def it_flatten(self, c):
        s = self.force(c.seq(0), c)
        it = self.item_ty(self.self_ty(c))
        r, _ = self.comp(c, s, lambda m, x: self.as_seq_ty(x, it, Cx(self, c.k, [x], m, None)), lambda x, y: y)
        return iter_(r)

    def item_ty(self, ty):
        """The type an iterator yields, where it shows."""
        if ty is None:
            return None
        d = self.ev.ty(ty)
        while d["k"] == "ref":
            ty = d["args"][0]
            d = self.ev.ty(ty)
        if d["k"] != "adt":
            return None
        p, a = d["def"], d.get("args") or []
        a = [x for x in a if self.ev.ty(x)["k"] not in ("region", "lifetime")]
        if not a:
            return None
        n = p.rsplit("::", 1)[-1]
        if n in ("IntoIter", "Iter", "IterMut", "Drain", "Item"):
            return a[0]
        if n in ("Rev", "Chain", "Filter", "Copied", "Cloned", "Skip", "Take", "Peekable", "Fuse", "Inspect", "TakeWhile", "SkipWhile"):
            return self.item_ty(a[0])
        if n == "Map" and len(a) > 1:
            f = self.ev.ty(a[1])
            u = self.ev.c.by_upath.get(f.get("def")) if f["k"] == "closure" else None
            return u["locals"][0] if u is not None else None
        return None

    def is_text(self, ty):
        """Whether values of this type are text; None where it does not show."""
        if ty is None:
            return None
        d = self.ev.ty(ty)
        while d["k"] == "ref" or (d["k"] == "adt" and "boxed::Box" in d["def"]):
            d = self.ev.ty(d["args"][0])
        if d["k"] == "str" or (d["k"] == "adt" and ("String" in d["def"] or "Cow" in d["def"])):
            return True
        return False if d["k"] == "prim" else None

    def glued(self, s, ty):
        """A sequence of characters or of texts, as one text."""
        y = self.is_text(self.item_ty(ty))
        if y:
            tmp = fresh()
            return t.rep(tmp, t.length(s), t.mk_seq_keep(t.at(s, mk("bv", tmp)))) if t.simple_rep(s) or s.op != "seq" else glued(s, lambda x: True)
        return s if y is False else glued(s, textual)

    def as_seq_ty(self, x, ty, c):
        while ty is not None and self.ev.ty(ty)["k"] == "ref":
            ty = self.ev.ty(ty)["args"][0]
        if ty is not None and c.val(0).op not in ("ctor", "struct"):
            h = self.ev.c.head(ty)
            if h == OPT:
                return self.opt_seq(c.val(0))
            if ("core::iter::traits::iterator::Iterator", "next", h) in self.ev.c.user_impls:
                return self.user_iter(c.val(0), h, c)
        return self.as_seq_full(x, c)

    def it_enumerate(self, c):
        return iter_(mk("enum", c.seq(0)))

    def it_rev(self, c):
        s = c.seq(0)
        if s.op in ("seqmut", "entriesmut", "valsmut"):
            return iter_(mk("rev", s))
        s = self.force(s, c)
        if s.op == "enum":
            pass
        return iter_(rev_seq(s))

    def it_skip(self, c):
        s = self.force(c.seq(0), c)
        k = c.val(1)
        if s.op in ("seqmut",):
            n = self.len_(s) if self.setmem(c) else None
            return iter_(mk("slice", s, k, n))
        if s.op == "seq" and k.op == "int" and t.fixed_parts(s):
            return iter_(drop_first(s, k.a[0]))
        return iter_(t.slice_(s, k, t.length(s)))

    def setmem(self, c):
        self._mem = c.mem
        return True

    def it_take(self, c):
        s = self.force(c.seq(0), c)
        k = c.val(1)
        if s.op == "repeat" and s.a[1].op == "forever":
            return iter_(mk("repeat", s.a[0], k))
        return iter_(t.slice_(s, INT(0), t.vmin(k, t.length(s))))

    def it_chain(self, c):
        a = self.force(c.seq(0), c)
        ta = c.k.get("targs") or []
        b = self.opt_seq(c.val(1)) if len(ta) > 1 and self.ev.c.head(ta[1]) == OPT else self.force(c.seq(1), c)
        if b.op == "map0":
            b = EMPTY
        return iter_(t.concat(a, b))

    def it_copied(self, c):
        return c.val(0) if not c.arg(0).rf else c.arg(0)

    it_cloned = it_copied
    it_by_ref = it_copied
    it_fuse = it_copied

    def it_peekable(self, c):
        return iter_(self.force(c.seq(0), c))

    def it_zip(self, c):
        ta = c.k.get("targs") or []
        open_ = [len(ta) > i and ta[i] is not None and self.ev.c.head(ta[i]).endswith("range::RangeFrom") for i in (0, 1)]
        if open_[1] and not open_[0]:
            a = self.force(c.seq(0), c)
            lo = start_of(c.val(1))
            return iter_(mk("zip", a, mk("range", lo, t.add(lo, t.length(self.cur_len(a))))))
        if open_[0] and not open_[1]:
            b = self.force(c.seq(1), c)
            lo = start_of(c.val(0))
            return iter_(mk("zip", mk("range", lo, t.add(lo, t.length(self.cur_len(b)))), b))
        return iter_(mk("zip", c.seq(0), self.force(c.seq(1), c)))

    def cur_len(self, s):
        return self.cur(s.a[0]) if s.op in ("seqmut", "entriesmut", "valsmut") else s

    def search(self, c, test, found, none):
        """First element satisfying test: found(x, y, i)."""
        s = c.seq(0)
        v = c.val(0)
        ref = c.arg(0) if c.arg(0).rf else None
        ev = c.ev
        ev.nheap += 1
        out = ("A", ev.nheap)
        ix = ("I", ev.nheap)
        m = dict(c.mem)
        m[out] = UNDEF
        m[ix] = INT(0)

        def step(mm, x):
            y = test(mm, x)
            if y is None:
                return []
            hit, val = y
            outs = []
            if hit is not FALSE:
                m2 = dict(mm)
                m2[out] = val(mm[ix])
                outs.append((("HIT",), hit, m2))
            if hit is not TRUE:
                m3 = dict(mm)
                m3[ix] = t.add(mm[ix], INT(1))
                outs.append(("LATCH", NOT(hit), m3))
            return outs
        outs = self.over(s, m, step, c)
        fin = []
        for s2, pc, mm in outs:
            mm = dict(mm)
            mm[out] = found(mm[out]) if s2 == ("HIT",) else none
            if ref is not None and ref.op == "ref" and v.op == "struct" and v.a[0] == ITER:
                k = t.add(v.a[1][1], mm[ix])
                if s2 == ("HIT",):
                    k = t.add(k, INT(1))
                ev.write_ref(ref, mk("struct", ITER, (v.a[1][0], k)), mm)
            fin.append((pc, mm))
        pc, mm = ev.merge(fin, None)
        r = mm.pop(out)
        mm.pop(ix)
        for k in c.mem:
            if mm.get(k) is not None:
                c.mem[k] = mm[k]
        return r

    def it_find(self, c):
        f = c.arg(1)

        def test(m, x):
            y = c.ev.call_value(f, [x], m)
            return None if y is None else (boolx(y), lambda i: x)
        return self.search(c, test, SOME, NONE)

    def it_find_map(self, c):
        f = c.arg(1)

        def test(m, x):
            y = c.ev.call_value(f, [x], m)
            return None if y is None else (t.is_variant(y, OPT, "Some"), lambda i: t.vfield(y, "Some", 0))
        return self.search(c, test, SOME, NONE)

    def it_position(self, c):
        f = c.arg(1)

        def test(m, x):
            y = c.ev.call_value(f, [x], m)
            return None if y is None else (boolx(y), lambda i: i)
        return self.search(c, test, SOME, NONE)

    def it_any(self, c):
        f = c.arg(1)

        def test(m, x):
            y = c.ev.call_value(f, [x], m)
            return None if y is None else (boolx(y), lambda i: TRUE)
        return self.search(c, test, lambda x: TRUE, FALSE)

    def it_all(self, c):
        f = c.arg(1)

        def test(m, x):
            y = c.ev.call_value(f, [x], m)
            return None if y is None else (NOT(boolx(y)), lambda i: FALSE)
        return self.search(c, test, lambda x: FALSE, TRUE)

    def it_nth(self, c):
        s = c.seq(0)
        i = c.val(1)
        r = opt(t.lt(i, t.length(s)), t.at(s, i))
        if c.arg(0).op == "ref":
            c.ev.write_ref(c.arg(0), iter_(t.slice_(s, t.add(i, INT(1)), t.length(s))), c.mem)
        return r

    def it_last(self, c):
        s = self.force(c.seq(0), c)
        n = t.length(s)
        return opt(NOT(t.switch_val(n, {0: TRUE}, FALSE)), t.at(s, t.sub(n, INT(1))))

    def it_count(self, c):
        return t.length(self.force(c.seq(0), c))

    def run_all(self, c, step):
        outs = self.over(c.seq(0), dict(c.mem), step, c)
        pc, mm = c.ev.merge([(pc, x) for _, pc, x in outs], None)
        return mm

    def it_for_each(self, c):
        f = c.arg(1)

        def step(mm, x):
            if c.ev.call_value(f, [x], mm) is None:
                return []
            return [("LATCH", TRUE, mm)]
        mm = self.run_all(c, step)
        for k in c.mem:
            if mm.get(k) is not None:
                c.mem[k] = mm[k]
        return UNIT

    def it_fold(self, c):
        f = c.arg(2)
        c.ev.nheap += 1
        acc = ("A", c.ev.nheap)
        c.mem[acc] = c.arg(1)

        def step(mm, x):
            y = c.ev.call_value(f, [mm[acc], x], mm)
            if y is None:
                return []
            mm[acc] = y
            return [("LATCH", TRUE, mm)]
        mm = self.run_all(c, step)
        for k in c.mem:
            if mm.get(k) is not None:
                c.mem[k] = mm[k]
        return c.mem.pop(acc)

    def it_sum(self, c):
        s = self.force(c.seq(0), c)
        return mk("sum", s)

    def it_max(self, c):
        return mk("maxof", self.force(c.seq(0), c))

    def it_min(self, c):
        return mk("minof", self.force(c.seq(0), c))

    def it_take_while(self, c):
        s = self.force(c.seq(0), c)
        tmp = fresh()
        y = c.ev.call_value(c.arg(1), [t.at(s, mk("bv", tmp))], c.mem)
        return iter_(t.slice_(s, INT(0), t.first(tmp, t.length(s), NOT(boolx(y)))))

    def it_skip_while(self, c):
        s = self.force(c.seq(0), c)
        tmp = fresh()
        y = c.ev.call_value(c.arg(1), [t.at(s, mk("bv", tmp))], c.mem)
        return iter_(t.slice_(s, t.first(tmp, t.length(s), NOT(boolx(y))), t.length(s)))

    def it_inspect(self, c):
        return c.arg(0)

    def it_eq(self, c):
        return t.eq(self.force(c.seq(0), c), self.force(c.seq(1), c))

    def it_collect(self, c):
        return self.conv(self.force(c.seq(0), c), c.dty, c)

    def conv(self, s, ty, c):
        s = self.as_seq(s, c)
        d = self.ev.ty(ty)
        if d["k"] == "adt":
            k = self.kind(d["def"])
            if k == "set":
                return t.SETV([mk("sp", s)])
            if k == "map":
                return L.mapof(MAP0, s)
            if k == "iset":
                return self.iset_all(c, EMPTY, self.force(s, c))
            if k == "string":
                return self.glued(s, self.self_ty(c))
            if d["def"] in (OPT, RES):
                return self.conv_try(s, d, c)
        return s

    def conv_try(self, s, d, c):
        adt = d["def"]
        okn, ern = ("Some", "None") if adt == OPT else ("Ok", "Err")
        inner = d["args"][0]
        tmp = fresh()
        n = t.length(s)
        e = t.at(s, mk("bv", tmp))
        bad = t.exists(tmp, n, t.is_variant(e, adt, ern))
        t2 = fresh()
        e2 = t.at(s, mk("bv", t2))
        good = self.conv(t.rep(t2, n, mk("seq", (t.E(t.vfield(e2, okn, 0)),))), inner, c)
        if adt == OPT:
            return ite(bad, NONE, SOME(good))
        t3 = fresh()
        f = t.first(t3, n, t.is_variant(t.at(s, mk("bv", t3)), adt, ern))
        return ite(bad, err(t.vfield(t.at(s, f), "Err", 0)), OKV(good))

    # ---------------------------------------------------------------- formatting
    def disp(self, v):
        def f(x):
            if x.op == "int":
                return t.STR(str(x.a[0]))
            return mk("dec", x)
        return t.lift(f, v)

    def show(self, v, ty, kind, c):
        """The text of v."""
        ev = self.ev
        d = ev.ty(ty)
        while d["k"] in ("ref",) or (d["k"] == "adt" and "boxed::Box" in d["def"]):
            ty = d["args"][0]
            d = ev.ty(ty)
        v = ev.deref(v, c.mem)
        if kind == "disp":
            if d["k"] == "adt" and "Cow" in d["def"]:
                return uncow(v)
            if d["k"] == "str" or (d["k"] == "adt" and "String" in d["def"]):
                return v
            if d["k"] == "prim":
                if d["s"] == "char":
                    return t.SEQ([t.E(v)])
                if d["s"] == "bool":
                    return ite(boolx(v), t.STR("true"), t.STR("false"))
                return self.disp(v)
            if d["k"] == "adt" and d["def"] == "core::fmt::Arguments":
                return v
        tr = "core::fmt::Display" if kind == "disp" else "core::fmt::Debug"
        u = ev.c.user_impls.get((tr, "fmt", d.get("def") or d["s"]))
        if u is not None and kind in ("disp", "dbg"):
            ev.nheap += 1
            cell = ("H", ev.nheap)
            c.mem[cell] = EMPTY
            r = ev.run_fn(u["upath"], [v, mk("ref", cell, ())], c.mem)
            x = c.mem.pop(cell)
            return x
        if d["k"] == "param" and kind == "disp":
            return v
        if d["k"] == "prim" and kind == "dbg" and d["s"] not in ("char", "bool"):
            return self.disp(v)
        return mk(kind, v)

    def fmt_arg(self, c, kind):
        ta = c.k.get("targs") or []
        return self.show(c.arg(0), ta[-1] if ta else None, kind, c)

    def fmt_new(self, c):
        tpl = c.val(0)
        args = c.val(1)
        if tpl.op != "bytes" and tpl.op != "seq":
            return NotImplemented
        b = self.raw(tpl)
        if b is None:
            return NotImplemented
        parts = []
        i = 0
        nxt = 0
        while i < len(b):
            x = b[i]
            i += 1
            if x == 0:
                break
            if x < 0x80:
                parts += t.seq_parts(t.STR(bytes(b[i:i + x]).decode("utf8", "replace")))
                i += x
            elif x == 0x80:
                n = b[i] | (b[i + 1] << 8)
                i += 2
                parts += t.seq_parts(t.STR(bytes(b[i:i + n]).decode("utf8", "replace")))
                i += n
            elif x >= 0xC0:
                flags = x & 0x3F
                opts = []
                if flags & 1:
                    opts.append(("flags", int.from_bytes(bytes(b[i:i + 4]), "little")))
                    i += 4
                if flags & 2:
                    opts.append(("width", int.from_bytes(bytes(b[i:i + 2]), "little")))
                    i += 2
                if flags & 4:
                    opts.append(("prec", int.from_bytes(bytes(b[i:i + 2]), "little")))
                    i += 2
                if flags & 8:
                    nxt = int.from_bytes(bytes(b[i:i + 2]), "little")
                    i += 2
                a = t.at(args, INT(nxt))
                nxt += 1
                opts = [o for o in opts if not (o[0] == "flags" and o[1] in (0, 0x60000020, 0x20))]
                if opts:
                    a = mk("fmtopt", str(opts), a)
                parts.append(mk("sp", a))
            else:
                return NotImplemented
        return t.SEQ(parts)

    @staticmethod
    def raw(tpl):
        if tpl.op == "bytes":
            x = tpl.a[0]
            if isinstance(x, tuple):
                return list(x)
            if isinstance(x, str):
                return [ord(ch) for ch in x]
            return None
        out = []
        for p in tpl.a[0]:
            if p.op == "e" and p.a[0].op == "int":
                out.append(p.a[0].a[0])
            elif p.op == "lit":
                out += [ord(ch) for ch in p.a[0]]
            else:
                return None
        return out

    def w_str(self, c):
        # into any writer: the text is appended
        f = self.ev.c.by_upath.get(c.k.get("inst") or "")
        if f is not None:
            return NotImplemented
        c.set(0, t.concat(c.val(0), c.val(1)))
        return OKV(UNIT)

    def w_char(self, c):
        c.set(0, t.push(c.val(0), c.val(1)))
        return OKV(UNIT)

    def fmt_fmt(self, tr):
        def f(c):
            u = self.ev.c.by_upath.get(c.k.get("inst") or "")
            if u is not None and not u["derived"]:
                return NotImplemented
            ta = c.k.get("targs") or []
            s = self.show(c.arg(0), ta[0], "disp" if tr == "Display" else "dbg", c)
            c.set(1, t.concat(c.val(1), s))
            return OKV(UNIT)
        return f

    def to_string(self, c):
        ta = c.k.get("targs") or []
        return self.show(c.arg(0), ta[0], "disp", c)

    def relettered(self, c):
        s = t.str_const(c.val(0))
        if s is not None and s.isascii():
            n = c.meth
            return t.STR(s.lower() if "lower" in n else s.upper() if "upper" in n else s.strip() if n == "trim" else s.lstrip() if n == "trim_start" else s.rstrip())
        return mk("op", c.meth, c.val(0))

    def trimmed(self, c):
        p = c.val(1)
        if p.op == "int":
            p = t.STR(chr(p.a[0]))
        if t.str_const(p) is None:
            return NotImplemented
        return mk("op", c.meth, c.val(0), p)

    def between(self, c, *rs):
        v = c.val(0)
        r = FALSE
        for a, b in rs:
            r = OR(r, AND(t.le(INT(ord(a)), v), t.le(v, INT(ord(b)))))
        return r

    # ---------------------------------------------------------------- hashing
    def hash(self, c):
        f = self.ev.c.by_upath.get(c.k.get("inst") or "")
        if f is not None and not f["derived"]:
            return NotImplemented
        u = self.user("core::hash::Hash", "hash", self.self_ty(c))
        if u is not None:
            return self.ev.run_fn(u["upath"], [c.arg(0), c.arg(1)], c.mem)
        return c.set(1, mk("hashed", c.val(1), c.val(0)))

    def hash_write(self, c):
        return c.set(0, mk("hashed", c.val(0), c.val(1)))


def NI(c):
    return NotImplemented


def raise_uns(x):
    from .ev import Unsupported
    raise Unsupported(x)


def collapse_p(new, old):
    return t.assume_false(new, old) if hasattr(t, "assume_false") else new


def boolx(v):
    if v is None:
        return UNDEF
    if v.op in ("case", "bool", "undef"):
        return v
    return t.batom(v)


def SOMEX(v):
    return None if v is None else SOME(v)


def okx(v):
    return None if v is None else OKV(v)


def errx(v):
    return None if v is None else err(v)


def alt(c, s):
    """s where c holds, nothing elsewhere."""
    return ite(c, t.mk_seq_keep(s), EMPTY)


def int_cmp(a, b):
    return ite(t.lt(a, b), ordv("Less"), ite(t.eq(a, b), ordv("Equal"), ordv("Greater")))


def pop_last(v):
    def f(x):
        if x.op == "seq" and x.a[0] and x.a[0][-1].op == "e":
            return t.SEQ(x.a[0][:-1])
        if x.op == "seq" and x.a[0] and x.a[0][-1].op == "lit":
            return t.SEQ(x.a[0][:-1] + (mk("lit", x.a[0][-1].a[0][:-1]),))
        return t.slice_(x, INT(0), t.sub(t.length(x), INT(1)))
    return t.lift(f, v)


def start_of(x):
    return x.a[1][0] if x.op == "struct" else x


def uncow(v):
    """What a Cow shows."""
    return t.lift(lambda x: x.a[2][0] if x.op == "ctor" and len(x.a[2]) == 1 else x, v)


def textual(x):
    if x.op == "case":
        return all(l is UNDEF or textual(l) for l in t._case_leaves(x))
    return x.op in ("seq", "dec", "join", "disp", "dbg")


def glued(s, text):
    if s.op != "seq" and s.op != "case":
        return s

    def leaf(x):
        return t.mk_seq_keep(glued(x, text))
    out = []
    for p in t.seq_parts(s):
        if p.op == "e" and text(p.a[0]):
            out += t.seq_parts(t.mk_seq_keep(p.a[0]))
        elif p.op == "rep":
            tmp = fresh()
            n, stop, body = t.open_(p.a[1:], p.a[0], tmp)
            out.append(t.close("rep", tmp, (n, stop, leaf(body))))
        elif p.op == "alt":
            out.append(mk("alt", t._raw_map(p.a[0], leaf)))
        else:
            out.append(p)
    r = mk("seq", tuple(out))
    return s if r is s or tuple(out) == tuple(t.seq_parts(s)) else t.mk_seq_keep(t.SEQ(out))


def drop_first(s, k):
    ps = list(s.a[0])
    out = []
    for p in ps:
        if k == 0:
            out.append(p)
        elif p.op == "lit":
            n = min(k, len(p.a[0]))
            k -= n
            if p.a[0][n:]:
                out.append(mk("lit", p.a[0][n:]))
        else:
            k -= 1
    return t.SEQ(out)


def rev_seq(s):
    return t.rev(s)


def mk_keys(m):
    if m.op == "map0":
        return EMPTY
    return t.lift(lambda x: mk("keys", x) if x.op != "map0" else EMPTY, m)


def mk_vals(m):
    return t.lift(lambda x: mk("vals", x) if x.op != "map0" else EMPTY, m)


def mk_entries(m):
    return t.lift(lambda x: mk("entries", x) if x.op != "map0" else EMPTY, m)


class Cx:
    """One call."""
    def __init__(self, lib, k, args, mem, dty):
        self.lib, self.k, self.args, self.mem, self.dty = lib, k, args, mem, dty
        self.ev = lib.ev
        self.meth = k.get("method") or k["fn"].rsplit("::", 1)[-1]

    def arg(self, i):
        return self.args[i]

    def val(self, i):
        v = self.args[i]
        if v.rf:
            if v.op == "ref" or v.op == "case":
                return self.ev.deref(v, self.mem)
        return v

    def bool(self, i):
        return boolx(self.val(i))

    def ref(self, i):
        v = self.args[i]
        return v if v.rf and v.op in ("ref", "case") else None

    def set(self, i, x):
        r = self.args[i]
        if not (r.rf and r.op in ("ref", "case")):
            raise_uns("write through a value in " + self.k["fn"])
        self.ev.write_ref(r, x, self.mem)
        return UNIT

    def swap(self, i, x):
        old = self.val(i)
        self.set(i, x)
        return old

    def seq(self, i):
        return self.lib.as_seq(self.args[i], self)

    def fcall(self, i, args):
        return self.ev.call_value(self.args[i], args, self.mem)

    def under(self, cond, f, mem=None):
        return self.ev.under(cond, f, self.mem if mem is None else mem)

    def on(self, mem, f):
        old = self.mem
        self.mem = mem
        try:
            return f()
        finally:
            self.mem = old
