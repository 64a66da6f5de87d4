"""Models of library code (core, alloc, nom's Offset, asn1-rs, num-bigint, bitvec) the analysed crate
calls. Everything not listed here is analysed from its own MIR."""
import re
from dom import *
from values import *
import interp as I
from interp import Unmodelled, Infeasible

TABLE = []
PRINTABLE = ISet.vals([ord(c) for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 '()+,-./:=?"])
VISIBLE = ISet.rng(0x20, 0x7f)
ASCII = ISet.rng(0, 127)
NUMERIC = ISet.vals([ord(c) for c in "0123456789 "])
CHARSETS = {"NumericString": NUMERIC, "PrintableString": PRINTABLE, "VisibleString": VISIBLE, "Ia5String": ASCII,
            "TeletexString": VISIBLE, "VideotexString": VISIBLE, "GeneralString": ASCII, "GraphicString": ASCII,
            "ObjectDescriptor": ASCII}


def nat(*pats, krate=None):
    def d(fn):
        for p in pats:
            TABLE.append((re.compile(p), krate, fn))
        return fn
    return d


class Natives:
    def __init__(self):
        self.cache = {}

    def lookup(self, eng, f):
        fid = f["id"]
        if fid in self.cache:
            return self.cache[fid]
        r = None
        if f["krate"] != "der_parser":
            for rx, kr, fn in TABLE:
                if kr is not None and f["krate"] != kr:
                    continue
                if rx.search(f["path"]):
                    r = fn
                    break
            if r is not None:
                fn0 = r

                def r(eng, f, args, st, rty, caller, site, fn0=fn0):
                    c = Ctx(eng, f, args, st, rty, caller, site)
                    out = fn0(c)
                    if out is None:
                        return None
                    if isinstance(out, V):
                        return [(c.st, out)]
                    return out
        self.cache[fid] = r
        return r


class Ctx:
    def __init__(self, eng, f, args, st, rty, caller, site):
        self.e, self.f, self.args, self.st, self._rty, self.caller, self.site = eng, f, args, st, rty, caller, site
        self.p = eng.p

    @property
    def rty(self):
        if self.f["body"]:
            return self.f["body"]["locals"][0]
        return self._rty

    def rd(self, v, st=None):
        """dereference pointers to a value"""
        st = st or self.st
        while isinstance(v, RefV):
            v = self.e.read(st, v.cell, v.path)
        return v

    def rd1(self, v, st=None):
        st = st or self.st
        if isinstance(v, RefV):
            return self.e.read(st, v.cell, v.path)
        return v

    def wr(self, ref, v, st=None):
        st = st or self.st
        self.e.write(st, ref.cell, ref.path, v)

    def fork(self, cond, st=None):
        return fork_on(self.e, st or self.st, cond)

    def some(self, v, t=None):
        t = self.rty if t is None else t
        return AggV(t, self.p.variant(t, "Some"), (v,))

    def none(self, t=None):
        t = self.rty if t is None else t
        return AggV(t, self.p.variant(t, "None"), ())

    def ok(self, v, t=None):
        t = self.rty if t is None else t
        return AggV(t, 0, (v,))

    def err(self, v, t=None):
        t = self.rty if t is None else t
        return AggV(t, 1, (v,))

    def vty(self, t, var, i=0):
        return self.p.types[t]["variants"][var]["fields"][i][1]

    def panic(self, kind, msg, st=None, cond=None):
        fr = self.caller
        self.e.alarm(st or self.st, fr, kind, msg, self.site[0] if self.site else 0, self.site[1] if self.site else "", cond)
        return []

    def need(self, cond, kind, msg, st=None):
        return self.e.obligation(st or self.st, self.caller, cond, kind, msg, self.site[0] if self.site else 0, self.site[1] if self.site else "")

    def temp(self, v, st=None):
        st = st or self.st
        st.nheap += 1
        cell = ("T", st.nheap)
        st.put(cell, v)
        return RefV(cell, ())

    def call(self, fn, args, st, rty=None):
        return self.e.call_value(fn, args, st, rty, self.caller, self.site)

    def lin(self, v, st=None):
        return self.e.as_lin(st or self.st, v)

    def ident(self, tag):
        return (self.f["path"], 0)


def fork_on(e, st, cond):
    """[(state, truth)]"""
    d = st.store.decide(cond)
    if d is not None:
        return [(st, d)]
    out = []
    s2 = st.fork()
    for c, s, t in ((cond, st, True), (simp_not(cond), s2, False)):
        w = []
        e.split_assume(s, c, w)
        for y in w:
            if y.store.ineqs and y.store.infeasible():
                continue
            out.append((y, t))
    return out


# ================================================================== slices
SL = r"(core|std|alloc)::slice::<impl \[T\]>::"


def as_slice(c, v, st=None):
    v = c.rd(v, st) if isinstance(v, RefV) and not isinstance(v.cell, SliceV) else v
    if isinstance(v, RefV):
        v = c.rd(v, st)
    if isinstance(v, SliceV):
        return v
    raise Unmodelled("slice expected, got %r" % (v,))


def sub(s, a, b):
    """s[a..b]"""
    return SliceV(s.base, s.off + a, b - a, s.ety)


def elref(s, i):
    return RefV(s, (("e", i),))


@nat(SL + r"len$", r"core::str::<impl str>::len$")
def _(c):
    return IntV(as_slice(c, c.args[0]).len)


@nat(SL + r"is_empty$", r"core::str::<impl str>::is_empty$")
def _(c):
    return BoolV(I.cmp_cond("Eq", c.st.store.norm(as_slice(c, c.args[0]).len), ZERO))


@nat(SL + r"(first|last)(_mut)?$")
def _(c):
    s = as_slice(c, c.args[0])
    out = []
    last = "::last" in c.f["path"]
    for st, t in c.fork(("ge", s.len - 1)):
        out.append((st, c.some(elref(s, s.len - 1 if last else ZERO)) if t else c.none()))
    return out


@nat(SL + r"split_(first|last)$")
def _(c):
    s = as_slice(c, c.args[0])
    out = []
    last = "split_last" in c.f["path"]
    tt = c.vty(c.rty, 1)
    for st, t in c.fork(("ge", s.len - 1)):
        if t:
            v = (elref(s, s.len - 1), sub(s, ZERO, s.len - 1)) if last else (elref(s, ZERO), sub(s, ONE, s.len))
            out.append((st, c.some(AggV(tt, 0, v))))
        else:
            out.append((st, c.none()))
    return out


@nat(SL + r"split_at(_mut)?$", SL + r"split_at(_mut)?_unchecked$")
def _(c):
    s = as_slice(c, c.args[0])
    n = c.lin(c.args[1])
    if not c.need(("ge", s.len - n), "split_at", "mid <= len"):
        return []
    return AggV(c.rty, 0, (sub(s, ZERO, n), sub(s, n, s.len)))


@nat(SL + r"split_at(_mut)?_checked$")
def _(c):
    s = as_slice(c, c.args[0])
    n = c.lin(c.args[1])
    out = []
    for st, t in c.fork(("ge", s.len - n)):
        out.append((st, c.some(AggV(c.vty(c.rty, 1), 0, (sub(s, ZERO, n), sub(s, n, s.len)))) if t else c.none()))
    return out


@nat(SL + r"as_(mut_)?ptr$")
def _(c):
    return as_slice(c, c.args[0])


@nat(SL + r"iter(_mut)?$", r"std::slice::Iter(Mut)?::<'a, T>::new$", r"slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$",
     r"^<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$")
def _(c):
    v = c.args[0]
    if isinstance(v, RefV):
        x = c.rd1(v)
        if isinstance(x, VecV):
            if "mut" in c.f["path"]:
                s = SliceV(("mem", v.cell, v.path), ZERO, x.length(), x.ety)
            else:
                s = vec_slice(x)
        else:
            s = as_slice(c, v)
    else:
        s = as_slice(c, v)
    return AggV(c.rty, 0, (s,))


@nat(SL + r"chunks_exact$", SL + r"windows$", SL + r"chunks$")
def _(c):
    s = as_slice(c, c.args[0])
    n = c.lin(c.args[1])
    if not c.need(("ge", n - 1), "chunk size", "chunk size is non-zero"):
        return []
    k = "windows" if c.f["path"].endswith("windows") else ("chunks" if c.f["path"].endswith("chunks") else "exact")
    return AggV(c.rty, 0, (s, IntV(n), OpaqueV((k,))))


@nat(r"<std::slice::(ChunksExact|Windows|Chunks)<'a, T> as std::iter::Iterator>::next$")
def _(c):
    it = c.rd1(c.args[0])
    s, n, k = it.f[0], it.f[1].l, it.f[2].key[0]
    out = []
    if k == "chunks":
        for st, t in c.fork(("ge", s.len - 1)):
            if not t:
                out.append((st, c.none()))
                continue
            for st2, u in fork_on(c.e, st, ("ge", s.len - n)):
                m = n if u else s.len
                c.wr(c.args[0], AggV(it.ty, 0, (sub(s, m, s.len),) + it.f[1:]), st2)
                out.append((st2, c.some(sub(s, ZERO, m))))
        return out
    for st, t in c.fork(("ge", s.len - n)):
        if t:
            step = ONE if k == "windows" else n
            c.wr(c.args[0], AggV(it.ty, 0, (sub(s, step, s.len),) + it.f[1:]), st)
            out.append((st, c.some(sub(s, ZERO, n))))
        else:
            out.append((st, c.none()))
    return out


@nat(r"<std::slice::(ChunksExact|Windows|Chunks)<'a, T> as std::iter::Iterator>::size_hint$")
def _(c):
    return opaque_sizehint(c)


def opaque_sizehint(c):
    t = c.p.types[c.rty]
    c.e.loopctr += 1
    return AggV(c.rty, 0, (IntV(L(atom(("i", "sizehint", c.e.loopctr), ISet.rng(0, LENMAX)))), c.none(t["elems"][1])))


# ---- slice::Iter
IT = r"<std::slice::Iter(Mut)?<('a|'_), T> as "


def it_get(c, ref, st=None):
    it = c.rd1(ref, st)
    if not isinstance(it, AggV) or not isinstance(it.f[0], SliceV):
        raise Unmodelled("slice iterator %r" % (it,))
    return it, it.f[0]


@nat(IT + r"std::iter::Iterator>::next$", IT + r"std::iter::DoubleEndedIterator>::next_back$")
def _(c):
    back = "next_back" in c.f["path"]
    it, s = it_get(c, c.args[0])
    out = []
    for st, t in c.fork(("ge", s.len - 1)):
        if t:
            if back:
                c.wr(c.args[0], AggV(it.ty, 0, (sub(s, ZERO, s.len - 1),)), st)
                out.append((st, c.some(elref(s, s.len - 1))))
            else:
                c.wr(c.args[0], AggV(it.ty, 0, (sub(s, ONE, s.len),)), st)
                out.append((st, c.some(elref(s, ZERO))))
        else:
            out.append((st, c.none()))
    return out


@nat(IT + r"std::iter::Iterator>::nth$")
def _(c):
    it, s = it_get(c, c.args[0])
    n = c.lin(c.args[1])
    out = []
    for st, t in c.fork(("ge", s.len - n - 1)):
        if t:
            c.wr(c.args[0], AggV(it.ty, 0, (sub(s, n + 1, s.len),)), st)
            out.append((st, c.some(elref(s, n))))
        else:
            c.wr(c.args[0], AggV(it.ty, 0, (sub(s, s.len, s.len),)), st)
            out.append((st, c.none()))
    return out


@nat(IT + r"std::iter::Iterator>::size_hint$")
def _(c):
    it, s = it_get(c, c.args[0])
    t = c.p.types[c.rty]["elems"][1]
    return AggV(c.rty, 0, (IntV(s.len), c.some(IntV(s.len), t)))


@nat(IT + r"std::iter::ExactSizeIterator>::len$", IT + r"std::iter::Iterator>::count$")
def _(c):
    v = c.args[0]
    it = c.rd1(v)
    return IntV(it.f[0].len)


@nat(r"std::slice::Iter::<'a, T>::(as_slice|make_slice)$")
def _(c):
    return it_get(c, c.args[0])[1]


@nat(IT + r"std::clone::Clone>::clone$")
def _(c):
    return c.rd1(c.args[0])


@nat(IT + r"std::iter::Iterator>::last$")
def _(c):
    s = c.rd1(c.args[0]).f[0]
    out = []
    for st, t in c.fork(("ge", s.len - 1)):
        out.append((st, c.some(elref(s, s.len - 1)) if t else c.none()))
    return out


def loop_iter(c, ref, st, body, done, rev=False):
    """iterate the slice iterator stored at ref; body(state, element ref) -> [(state, None | result)]"""
    e = c.e

    def step(s):
        outs = []
        it, sl = it_get(c, ref, s)
        for s1, t in fork_on(e, s, ("ge", sl.len - 1)):
            if not t:
                for s2, v in done(s1):
                    outs.append(("exit", v, s2))
                continue
            c.wr(ref, AggV(it.ty, 0, (sub(sl, ONE, sl.len) if not rev else sub(sl, ZERO, sl.len - 1),)), s1)
            el = elref(sl, ZERO if not rev else sl.len - 1)
            for s2, v in body(s1, el):
                outs.append(("back", s2) if v is None else ("exit", v, s2))
        return outs
    return [(o[2], o[1]) for o in e.run_loop(st, step, c.ident("it"))]


def cond_results(c, rs):
    """split boolean call results"""
    out = []
    for s, v in rs:
        if isinstance(v, BoolV):
            out += fork_on(c.e, s, v.c)
        else:
            raise Unmodelled("predicate result %r" % (v,))
    return out


@nat(IT + r"std::iter::Iterator>::(all|any)$")
def _(c):
    al = c.f["path"].endswith("all")
    cl = c.temp(c.args[1]) if not isinstance(c.args[1], (FnV, RefV)) else c.args[1]

    def body(s, el):
        rs = cond_results(c, c.call(cl, [el], s))
        return [(s2, None if t == al else (FALSE if al else TRUE)) for s2, t in rs]
    return loop_iter(c, c.args[0], c.st, body, lambda s: [(s, TRUE if al else FALSE)])


@nat(IT + r"std::iter::Iterator>::(position|find|rposition)$")
def _(c):
    kind = c.f["path"].rsplit("::", 1)[1]
    cl = c.temp(c.args[1]) if not isinstance(c.args[1], (FnV, RefV)) else c.args[1]
    _, s0 = it_get(c, c.args[0])
    rev = kind == "rposition"

    def body(s, el):
        idx = el.cell.off + el.path[0][1] - s0.off
        if kind == "find":
            a = c.temp(el, s)
        else:
            a = el
        rs = cond_results(c, c.call(cl, [a], s))
        return [(s2, (c.some(el) if kind == "find" else c.some(IntV(idx))) if t else None) for s2, t in rs]
    return loop_iter(c, c.args[0], c.st, body, lambda s: [(s, c.none())], rev)


@nat(IT + r"std::iter::Iterator>::(fold|for_each)$")
def _(c):
    fe = c.f["path"].endswith("for_each")
    ref = c.temp(c.args[0])
    cl = c.args[1] if fe else c.args[2]
    if not isinstance(cl, (FnV, RefV)):
        cl = c.temp(cl)
    acc = None if fe else c.temp(c.args[1])

    def body(s, el):
        if fe:
            return [(s2, None) for s2, _ in c.call(cl, [el], s)]
        out = []
        for s2, v in c.call(cl, [c.rd1(acc, s), el], s):
            c.wr(acc, v, s2)
            out.append((s2, None))
        return out
    return loop_iter(c, ref, c.st, body, lambda s: [(s, UNIT if fe else c.rd1(acc, s))])


@nat(SL + r"contains$")
def _(c):
    s = as_slice(c, c.args[0])
    n = c.st.store.norm(s.len)
    x = c.args[1]
    if not n.isc() or n.c > 16:
        ty = c.p.types.get(s.ety, {})
        if ty.get("k") == "adt" and ty["adt"] == "enum" and len(ty["variants"]) == 1 and not ty["variants"][0]["fields"]:
            return BoolV(I.cmp_cond("Ge", n, ONE))
        c.e.loopctr += 1
        return BoolV(("eq", L(atom(("unk", "contains", c.e.loopctr), BOOL)) - 1))
    out = []
    cur = [c.st]
    for i in range(n.c):
        nxt = []
        for st in cur:
            a = c.e.slice_elem(st, s, K(i))
            for st2, r in val_eq(c, st, a, c.rd(x, st)):
                if r:
                    out.append((st2, TRUE))
                else:
                    nxt.append(st2)
        cur = nxt
    return out + [(st, FALSE) for st in cur]


def val_eq(c, st, a, b):
    """structural equality of plain values -> [(state, bool)]"""
    if isinstance(a, (IntV, BoolV)) and isinstance(b, (IntV, BoolV)):
        r = c.e.compare(st, "Eq", a, b)
        return fork_on(c.e, st, r.c)
    if isinstance(a, AggV) and isinstance(b, AggV):
        if a.var != b.var:
            return [(st, False)]
        out = []
        cur = [st]
        for x, y in zip(a.f, b.f):
            nxt = []
            for s in cur:
                for s2, r in val_eq(c, s, x, y):
                    if r:
                        nxt.append(s2)
                    else:
                        out.append((s2, False))
            cur = nxt
        return out + [(s, True) for s in cur]
    if isinstance(a, SymV) or isinstance(b, SymV):
        if a == b:
            return [(st, True)]
        da, db = c.e.discr(st, a), c.e.discr(st, b)
        ty = c.p.types[a.ty if isinstance(a, SymV) else b.ty]
        if all(not v["fields"] for v in ty["variants"]):
            return fork_on(c.e, st, I.cmp_cond("Eq", da.l, db.l))
    raise Unmodelled("equality of %r and %r" % (a, b))


@nat(SL + r"get(_mut)?$", r"as std::slice::SliceIndex<\[T\]>>::get(_mut)?$")
def _(c):
    if "SliceIndex" in c.f["path"]:
        idx, s = c.args[0], as_slice(c, c.args[1])
    else:
        s, idx = as_slice(c, c.args[0]), c.args[1]
    rng = idx_range(c, idx, s)
    out = []
    if isinstance(rng, Lin):
        for st, t in c.fork(("ge", s.len - rng - 1)):
            out.append((st, c.some(elref(s, rng)) if t else c.none()))
        return out
    a, b = rng
    for st, t in c.fork(I.mk_and(("ge", b - a), ("ge", s.len - b))):
        out.append((st, c.some(sub(s, a, b)) if t else c.none()))
    return out


def idx_range(c, idx, s):
    if isinstance(idx, IntV):
        return idx.l
    if isinstance(idx, AggV):
        nm = c.p.types[idx.ty]["path"].split("::")[-1] if idx.ty in c.p.types and c.p.types[idx.ty]["k"] == "adt" else ""
        if nm == "Range":
            return c.lin(idx.f[0]), c.lin(idx.f[1])
        if nm == "RangeFrom":
            return c.lin(idx.f[0]), s.len
        if nm == "RangeTo":
            return ZERO, c.lin(idx.f[0])
        if nm == "RangeFull":
            return ZERO, s.len
        if nm == "RangeInclusive":
            return c.lin(idx.f[0]), c.lin(idx.f[1]) + 1
        if nm == "RangeToInclusive":
            return ZERO, c.lin(idx.f[0]) + 1
    raise Unmodelled("index by %r" % (idx,))


@nat(r"as std::slice::SliceIndex<(\[T\]|str)>>::(index|index_mut|get_unchecked|get_unchecked_mut)$",
     r"core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$")
def _(c):
    if "SliceIndex" in c.f["path"]:
        idx, s = c.args[0], as_slice(c, c.args[1])
    else:
        s, idx = as_slice(c, c.args[0]), c.args[1]
    if "SliceIndex<str>" in c.f["path"]:
        return None
    rng = idx_range(c, idx, s)
    if isinstance(rng, Lin):
        if not c.need(("ge", s.len - rng - 1), "index", "index within slice bounds"):
            return []
        return elref(s, rng)
    a, b = rng
    if not c.need(("ge", b - a), "slice", "slice start <= end"):
        return []
    if not c.need(("ge", s.len - b), "slice", "slice end <= len"):
        return []
    return sub(s, a, b)


@nat(r"std::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$")
def _(c):
    r, idx = c.args
    arr = c.rd1(r)
    if not isinstance(arr, AggV):
        return None
    s = SliceV(("mem", r.cell, r.path), ZERO, K(len(arr.f)), arr_ety(c, arr))
    rng = idx_range(c, idx, s)
    if isinstance(rng, Lin):
        if not c.need(("ge", s.len - rng - 1), "index", "index within slice bounds"):
            return []
        return RefV(r.cell, r.path + (("e", rng),))
    a, b = rng
    if not c.need(("ge", b - a), "slice", "slice start <= end"):
        return []
    if not c.need(("ge", s.len - b), "slice", "slice end <= len"):
        return []
    return sub(s, a, b)


def arr_ety(c, arr):
    t = c.p.types.get(arr.ty)
    if t and t["k"] == "array":
        return t["elem"]
    return "u8"


@nat(r"std::array::<impl std::convert::AsRef<\[T\]> for \[T; N\]>::as_ref$", r"core::array::<impl \[T; N\]>::as_slice$")
def _(c):
    r = c.args[0]
    arr = c.rd1(r)
    if isinstance(r.cell, tuple) and r.cell[0] == "K":
        return c.e.array_slice(c.st, r.cell, r.path, arr, c.p.types[c.p.types[c.rty]["elem"]]["elem"])
    return SliceV(("mem", r.cell, r.path), ZERO, K(len(arr.f)), arr_ety(c, arr))


@nat(SL + r"copy_from_slice$", r"core::slice::copy_from_slice_impl$", SL + r"clone_from_slice$")
def _(c):
    d, s = as_slice(c, c.args[0]), as_slice(c, c.args[1])
    if not c.need(("eq", d.len - s.len), "copy_from_slice", "source and destination lengths are equal"):
        return []
    n = c.st.store.norm(s.len)
    if not n.isc():
        n2 = c.st.store.norm(d.len)
        i = c.e.const_index(c.st, n2, 0, 64)
        n = K(i)
    for i in range(n.c):
        v = c.e.slice_elem(c.st, s, K(i))
        c.e.write(c.st, d, (("e", K(i)),), v)
    return UNIT


@nat(SL + r"fill$")
def _(c):
    d = as_slice(c, c.args[0])
    n = c.e.const_index(c.st, d.len, 0, 64)
    for i in range(n):
        c.e.write(c.st, d, (("e", K(i)),), c.args[1])
    return UNIT


@nat(SL + r"(starts_with|ends_with)$")
def _(c):
    s, t = as_slice(c, c.args[0]), as_slice(c, c.args[1])
    n = c.st.store.norm(t.len)
    if not n.isc() or n.c > 16:
        raise Unmodelled("starts_with")
    ends = c.f["path"].endswith("ends_with")
    out = []
    for st, ok in c.fork(("ge", s.len - n)):
        if not ok:
            out.append((st, FALSE))
            continue
        base = s.len - n if ends else ZERO
        cur = [st]
        for i in range(n.c):
            nxt = []
            for x in cur:
                for y, r in val_eq(c, x, c.e.slice_elem(x, s, base + i), c.e.slice_elem(x, t, K(i))):
                    (nxt.append(y) if r else out.append((y, FALSE)))
            cur = nxt
        out += [(x, TRUE) for x in cur]
    return out


@nat(SL + r"to_vec$", r"<impl std::borrow::ToOwned for \[T\]>::to_owned$", r"to_vec_in::ConvertVec>::to_vec$", SL + r"into_vec$")
def _(c):
    s = c.args[0]
    if isinstance(s, VecV):
        return s
    s = as_slice(c, s)
    return slice_vec(c, c.st, s)


def slice_vec(c, st, s):
    return VecV(slice_segs(c, st, s), s.ety)


def slice_segs(c, st, s):
    """segments of a slice's current contents"""
    n = st.store.norm(s.len)
    if n.isc() and n.c == 0:
        return ()
    if s.base[0] == "cat" and s.off == ZERO:
        tot = VecV(s.base[1], s.ety).length()
        if st.store.entails_eq(tot - s.len):
            return s.base[1]
    if n.isc() and n.c <= 64 and (s.base[0] in ("const", "vals", "mem", "cat") or n.c <= 16):
        return tuple(("el", c.e.slice_elem(st, s, K(i))) for i in range(n.c))
    if s.base[0] == "mem":
        v = c.e.read(st, s.base[1], s.base[2])
        if isinstance(v, VecV) and s.off == ZERO and st.store.entails_eq(v.length() - s.len):
            return v.segs
        if isinstance(v, AggV):
            # prefix/suffix of a small array with symbolic length: case split
            k = c.e.const_index(st, s.len, 0, len(v.f))
            return tuple(("el", c.e.slice_elem(st, s, K(i))) for i in range(k))
        raise Unmodelled("symbolic part of mutable memory")
    return (("sub", s),)


@nat(r"core::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::eq$", r"core::str::traits::<impl std::cmp::PartialEq for str>::eq$",
     r"std::vec::partial_eq::<impl std::cmp::PartialEq<.*>::eq$", r"std::array::equality::<impl std::cmp::PartialEq<.*>::eq$")
def _(c):
    a, b = [slice_of_any(c, x) for x in c.args]
    return slice_eq(c, c.st, a, b)


def slice_of_any(c, x):
    if isinstance(x, SliceV):
        return x
    v = c.rd(x)
    if isinstance(v, SliceV):
        return v
    if isinstance(v, VecV):
        return vec_slice(v)
    if isinstance(v, AggV) and c.p.types.get(v.ty, {}).get("k") == "array" or isinstance(v, AggV) and v.ty == -2:
        return SliceV(("vals", v.f), ZERO, K(len(v.f)), arr_ety(c, v))
    if isinstance(v, AggV) and c.p.is_adt(v.ty, "String"):
        return vec_slice(v.f[0])
    raise Unmodelled("slice comparison of %r" % (v,))


def slice_eq(c, st, a, b):
    if a == b:
        return [(st, TRUE)]
    out = []
    for s, t in fork_on(c.e, st, ("eq", a.len - b.len)):
        if not t:
            out.append((s, FALSE))
            continue
        n = s.store.norm(a.len)
        if not n.isc():
            n = s.store.norm(b.len)
        if n.isc() and n.c <= 16:
            cur = [s]
            for i in range(n.c):
                nxt = []
                for x in cur:
                    for y, r in val_eq(c, x, c.e.slice_elem(x, a, K(i)), c.e.slice_elem(x, b, K(i))):
                        (nxt.append(y) if r else out.append((y, FALSE)))
                cur = nxt
            out += [(x, TRUE) for x in cur]
        else:
            k = sorted([repr(I.flat(a)), repr(I.flat(b))])
            flip = repr(I.flat(a)) > repr(I.flat(b))
            x, y = (b, a) if flip else (a, b)
            pa = atom(("b", "seq", x.base, s.store.norm(x.off), y.base, s.store.norm(y.off), s.store.norm(x.len)), BOOL)
            for u, r in fork_on(c.e, s, ("eq", L(pa) - 1)):
                out.append((u, TRUE if r else FALSE))
    return out


@nat(r"<\[T\] as std::convert::AsRef<\[T\]>>::as_ref$", r"core::str::<impl std::convert::AsRef<\[u8\]> for str>::as_ref$",
     r"core::str::<impl str>::as_bytes$", r"<str as std::convert::AsRef<.*>>::as_ref$")
def _(c):
    return as_slice(c, c.args[0])


@nat(r"slice::(raw::)?from_ref$")
def _(c):
    v = c.rd(c.args[0])
    return SliceV(("vals", (v,)), ZERO, ONE, c.p.types[c.p.types[c.rty]["elem"]]["elem"])


# ================================================================== Vec / Box / String
def vec_slice(v):
    if not v.segs:
        return SliceV(("const", ()), ZERO, ZERO, v.ety if v.ety is not None else "u8")
    if len(v.segs) == 1 and v.segs[0][0] == "sub":
        return v.segs[0][1]
    return SliceV(("cat", v.segs), ZERO, v.length(), v.ety)


def vec_of(c, ref, st=None):
    v = c.rd(ref, st)
    if isinstance(v, VecV):
        return v
    raise Unmodelled("Vec expected, got %r" % (v,))


def vec_ety(c, t):
    ty = c.p.types.get(t)
    if ty and ty["k"] == "adt" and ty["path"].endswith("vec::Vec"):
        return ty["args"][0]
    return None


@nat(r"std::vec::Vec::<T(, A)?>::(new|with_capacity|new_in|with_capacity_in)$", r"<std::vec::Vec<T> as std::default::Default>::default$")
def _(c):
    return VecV((), vec_ety(c, c.rty))


@nat(r"std::vec::Vec::<T, A>::(push|push_mut)$")
def _(c):
    v = vec_of(c, c.args[0])
    c.wr(c.args[0], VecV(v.segs + (("el", c.args[1]),), v.ety))
    if c.f["path"].endswith("push_mut"):
        return RefV(c.args[0].cell, c.args[0].path + (("e", v.length()),))
    return UNIT


@nat(r"std::vec::Vec::<T, A>::(len)$", r"std::string::String::len$")
def _(c):
    v = c.rd(c.args[0])
    if isinstance(v, AggV):
        v = v.f[0]
    return IntV(v.length())


@nat(r"std::vec::Vec::<T, A>::is_empty$")
def _(c):
    return BoolV(I.cmp_cond("Eq", c.st.store.norm(vec_of(c, c.args[0]).length()), ZERO))


@nat(r"<std::vec::Vec<T, A> as std::ops::Deref>::deref$", r"<std::vec::Vec<T, A> as std::convert::AsRef<\[T\]>>::as_ref$",
     r"std::vec::Vec::<T, A>::as_slice$", r"<impl std::borrow::Borrow<\[T\]> for std::vec::Vec<T, A>>::borrow$")
def _(c):
    return vec_slice(vec_of(c, c.args[0]))


@nat(r"<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut$", r"std::vec::Vec::<T, A>::as_mut_slice$")
def _(c):
    r = c.args[0]
    v = vec_of(c, r)
    return SliceV(("mem", r.cell, r.path), ZERO, v.length(), v.ety)


@nat(r"<std::vec::Vec<T, A> as std::ops::Index<I>>::index$", r"<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut$")
def _(c):
    v = vec_of(c, c.args[0])
    if c.f["path"].endswith("_mut"):
        r = c.args[0]
        s = SliceV(("mem", r.cell, r.path), ZERO, v.length(), v.ety)
    else:
        s = vec_slice(v)
    rng = idx_range(c, c.args[1], s)
    if isinstance(rng, Lin):
        if not c.need(("ge", s.len - rng - 1), "index", "index within slice bounds"):
            return []
        return elref(s, rng)
    a, b = rng
    if not c.need(("ge", b - a), "slice", "slice start <= end"):
        return []
    if not c.need(("ge", s.len - b), "slice", "slice end <= len"):
        return []
    return sub(s, a, b)


@nat(r"std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$")
def _(c):
    return UNIT


@nat(r"std::vec::Vec::<T, A>::clear$")
def _(c):
    v = vec_of(c, c.args[0])
    c.wr(c.args[0], VecV((), v.ety))
    return UNIT


@nat(r"std::vec::Vec::<T, A>::truncate$")
def _(c):
    v = vec_of(c, c.args[0])
    n = c.lin(c.args[1])
    out = []
    for st, t in c.fork(("ge", v.length() - n)):
        if t:
            if len(v.segs) == 1 and v.segs[0][0] == "sub":
                c.wr(c.args[0], VecV((("sub", sub(v.segs[0][1], ZERO, n)),), v.ety), st)
            else:
                raise Unmodelled("truncate")
        out.append((st, UNIT))
    return out


@nat(r"std::vec::Vec::<T, A>::pop$")
def _(c):
    v = vec_of(c, c.args[0])
    out = []
    for st, t in c.fork(("ge", v.length() - 1)):
        if not t:
            out.append((st, c.none()))
            continue
        segs = list(v.segs)
        while segs and st.store.decide(("eq", seg_len(segs[-1]))) is True:
            segs.pop()
        if not segs:
            continue
        last = segs[-1]
        if last[0] == "el":
            c.wr(c.args[0], VecV(segs[:-1], v.ety), st)
            out.append((st, c.some(last[1])))
        elif last[0] == "sub" and st.store.entails_ge(last[1].len - 1):
            s = last[1]
            c.wr(c.args[0], VecV(segs[:-1] + [("sub", sub(s, ZERO, s.len - 1))], v.ety), st)
            out.append((st, c.some(c.e.slice_elem(st, s, s.len - 1))))
        else:
            raise Unmodelled("pop")
    return out


def cut(c, st, segs, n, what):
    """the segments before and after position n"""
    pos, i = ZERO, 0
    while True:
        d = st.store.norm(n - pos)
        if d.isc() and d.c == 0 or st.store.entails_eq(d):
            return tuple(segs[:i]), tuple(segs[i:])
        if i == len(segs):
            raise Unmodelled(what + " at an unknown position")
        g = segs[i]
        l = seg_len(g)
        if g[0] == "sub" and st.store.entails_ge(l - d) and st.store.entails_ge(d):
            return tuple(segs[:i]) + (("sub", sub(g[1], ZERO, d)),), (("sub", sub(g[1], d, l)),) + tuple(segs[i + 1:])
        if not st.store.entails_ge(d - l):
            raise Split([("ge", d - l), ("ge", l - d - 1)]) if st.store.decide(("ge", d - l)) is None else Unmodelled(what + " inside a segment")
        pos, i = pos + l, i + 1


@nat(r"std::vec::Vec::<T, A>::(insert|insert_mut)$")
def _(c):
    v, n = vec_of(c, c.args[0]), c.lin(c.args[1])
    if not c.need(("ge", v.length() - n), "index", "insertion index within the length"):
        return []
    a, b = cut(c, c.st, v.segs, n, "insert")
    c.wr(c.args[0], VecV(a + (("el", c.args[2]),) + b, v.ety))
    if c.f["path"].endswith("_mut"):
        return RefV(c.args[0].cell, c.args[0].path + (("e", n),))
    return UNIT


@nat(r"std::vec::Vec::<T, A>::remove$")
def _(c):
    v, n = vec_of(c, c.args[0]), c.lin(c.args[1])
    if not c.need(("ge", v.length() - n - 1), "index", "removal index within the length"):
        return []
    a, b = cut(c, c.st, v.segs, n, "remove")
    x, d = cut(c, c.st, b, K(1), "remove")
    if len(x) == 1 and x[0][0] == "el":
        r = x[0][1]
    elif len(x) == 1 and x[0][0] == "sub":
        r = c.e.slice_elem(c.st, x[0][1], ZERO)
    else:
        raise Unmodelled("remove")
    c.wr(c.args[0], VecV(a + d, v.ety))
    return r


@nat(r"std::vec::Vec::<T, A>::(extend_from_slice|append_elements)$", r"SpecExtend<&'a T, std::slice::Iter<'a, T>>>::spec_extend$")
def _(c):
    v = vec_of(c, c.args[0])
    a = c.args[1]
    if isinstance(a, AggV):
        a = a.f[0]
    s = as_slice(c, a)
    c.wr(c.args[0], VecV(v.segs + slice_segs(c, c.st, s), v.ety))
    return UNIT


@nat(r"std::vec::Vec::<T, A>::append$")
def _(c):
    v, w = vec_of(c, c.args[0]), vec_of(c, c.args[1])
    c.wr(c.args[0], VecV(v.segs + w.segs, v.ety))
    c.wr(c.args[1], VecV((), w.ety))
    return UNIT


@nat(r"std::vec::Vec::<T, A>::(retain|retain_mut)$")
def _(c):
    """the closure is applied to every element once, kept elements stay in order"""
    v = vec_of(c, c.args[0])
    cl = c.args[1] if isinstance(c.args[1], (RefV, FnV)) else c.temp(c.args[1])
    acc = c.temp(VecV((), v.ety))
    if len(v.segs) == 1 and v.segs[0][0] == "sub":
        it = c.temp(AggV(-9, 0, (v.segs[0][1],)))
    elif not v.segs:
        return UNIT
    else:
        it = c.temp(AggV(-9, 0, (vec_slice(v),)))
    dst = c.args[0]
    key = ("retain", c.f["id"]) + I.flat(v)

    def body(s, el):
        out = []
        x = c.rd(el, s)
        for s2, t in cond_results(c, c.call(cl, [el], s)):
            if t:
                a = c.rd1(acc, s2)
                c.wr(acc, VecV(a.segs + (("el", x),), a.ety), s2)
            out.append((s2, None))
        return out

    def done(s):
        c.wr(dst, c.rd1(acc, s), s)
        return [(s, UNIT)]
    return loop_iter(c, it, c.st, body, done)


@nat(r"<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$")
def _(c):
    return AggV(c.rty, 0, (c.args[0],))


@nat(r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::next$")
def _(c):
    it = c.rd1(c.args[0])
    v = it.f[0]
    out = []
    for st, t in c.fork(("ge", v.length() - 1)):
        if not t:
            out.append((st, c.none()))
            continue
        h, rest = vec_front(c, st, v)
        c.wr(c.args[0], AggV(it.ty, 0, (rest,)), st)
        out.append((st, c.some(h)))
    return out


def vec_front(c, st, v):
    segs = list(v.segs)
    while segs and st.store.decide(("eq", seg_len(segs[0]))) is True:
        segs.pop(0)
    if not segs:
        raise Infeasible()
    s = segs[0]
    n = seg_len(s)
    d = st.store.decide(("ge", n - 1))
    if d is None:
        raise Split([("ge", n - 1), ("ge", -n)])
    if s[0] == "el":
        return s[1], VecV(segs[1:], v.ety)
    if s[0] == "sub":
        return c.e.slice_elem(st, s[1], ZERO), VecV([("sub", sub(s[1], ONE, s[1].len))] + segs[1:], v.ety)
    return c.e.seg_get(st, s, ZERO, v.ety), VecV([("sub", SliceV(("cat", (s,)), ONE, n - 1, v.ety))] + segs[1:], v.ety)


@nat(r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint$")
def _(c):
    it = c.rd1(c.args[0])
    n = it.f[0].length()
    return AggV(c.rty, 0, (IntV(n), c.some(IntV(n), c.p.types[c.rty]["elems"][1])))


@nat(r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::(fold|for_each)$")
def _(c):
    fe = c.f["path"].endswith("for_each")
    ref = c.temp(c.args[0])
    cl = c.args[1] if fe else c.args[2]
    if not isinstance(cl, (FnV, RefV)):
        cl = c.temp(cl)
    acc = None if fe else c.temp(c.args[1])

    def step(s):
        outs = []
        it = c.rd1(ref, s)
        v = it.f[0]
        for s1, t in fork_on(c.e, s, ("ge", v.length() - 1)):
            if not t:
                outs.append(("exit", UNIT if fe else c.rd1(acc, s1), s1))
                continue
            h, rest = vec_front(c, s1, v)
            c.wr(ref, AggV(it.ty, 0, (rest,)), s1)
            args = [h] if fe else [c.rd1(acc, s1), h]
            for s2, r in c.call(cl, args, s1):
                if not fe:
                    c.wr(acc, r, s2)
                outs.append(("back", s2))
        return outs
    return [(o[2], o[1]) for o in c.e.run_loop(c.st, step, c.ident("fold"))]


def find_callee(c, suffix):
    """fn id of a callee of this function's body whose path ends with suffix"""
    for b in c.f["body"]["blocks"]:
        t = b["t"]
        if t[0] == "call" and t[1][0] == "k" and t[1][2][0] in ("fn", "zst"):
            fid = t[1][2][1] if t[1][2][0] == "fn" else c.p.types[t[1][1]].get("fn")
            if fid is not None and re.search(suffix, c.p.fns[fid]["path"]):
                return fid
    return None


def map_summary(c, it):
    """exact closed form of collecting  slice.iter().map(f)  /  slice.chunks_exact(n).map(f)  when f has a single
    outcome on a generic element: one 'gen' segment"""
    e = c.e
    ty = c.p.types.get(it.ty, {}) if isinstance(it, AggV) else {}
    if ty.get("k") != "adt" or not ty["path"].endswith("::Map") or len(it.f) != 2:
        return None
    inner, fn = it.f
    ity = c.p.types.get(inner.ty, {}) if isinstance(inner, AggV) else {}
    if ity.get("k") != "adt":
        return None
    h = atom(("hole",), ISet.rng(0, LENMAX))
    st = c.st.fork()
    if ity["path"].endswith("::ChunksExact") and inner.f[1].l.isc():
        s, n = inner.f[0], inner.f[1].l.c
        if s.base[0] in ("mem", "vals", "cat"):
            return None
        cnt = e.div(c.st, c.st.store.norm(s.len), K(n), c.p.usize if hasattr(c.p, "usize") else usize_ty(c))
        cnt = c.st.store.norm(cnt.l)
        el = SliceV(s.base, s.off + L(h).scale(n), K(n), s.ety)
        ok = st.store.assume_ge(s.len - L(h).scale(n) - n)
    else:
        return None
    if not ok or c.st.store.norm(s.len).isc():
        return None
    na, ni = len(e.alarms), len(e.incomplete)
    before = st.store.copy()
    cl = fn if isinstance(fn, FnV) else c.temp(fn, st)
    try:
        rs = e.call_value(cl, [el], st, None, c.caller, c.site)
    except (Split, Unmodelled, Infeasible):
        return None
    finally:
        bad = len(e.alarms) > na or len(e.incomplete) > ni
        del e.alarms[na:]
        del e.incomplete[ni:]
    if bad or len(rs) != 1:
        return None
    s2, v = rs[0]
    if s2.store.vs != before.vs or s2.store.subst != before.subst or s2.heap != st.heap and any(
            k[0] != "T" for k in s2.heap if s2.heap[k] != c.st.heap.get(k)):
        return None
    if not isinstance(v, (IntV, BoolV, AggV)):
        return None
    return (("gen", v, h, cnt),)


def usize_ty(c):
    for t, ty in c.p.types.items():
        if ty["k"] == "int" and ty["s"] == "usize":
            return t


def drain_into(c, iter_ref, vec_ref, nextfid, done):
    e = c.e
    opt_t = e.p.fns[nextfid]["body"]["locals"][0] if e.p.fns[nextfid]["body"] else None

    def step(s):
        outs = []
        for s1, v in e.exec_fn(nextfid, [iter_ref], s, opt_t, c.caller, c.site):
            for s2, var in enum_cases(e, s1, v):
                if var == 0:
                    for s3, r in done(s2):
                        outs.append(("exit", r, s3))
                else:
                    x = e.proj(s2, e.proj(s2, v, ("v", 1)), ("f", 0, None))
                    cur = c.rd1(vec_ref, s2)
                    c.wr(vec_ref, VecV(cur.segs + (("el", x),), cur.ety), s2)
                    outs.append(("back", s2))
        return outs
    return [(o[2], o[1]) for o in e.run_loop(c.st, step, (c.f["path"], c.f["id"]))]


def enum_cases(e, st, v):
    if isinstance(v, AggV):
        return [(st, v.var)]
    if isinstance(v, SymV):
        n = st.store.norm(L(v.datom()))
        if n.isc():
            return [(st, n.c)]
        out = []
        for k in st.store.dom_of(n):
            s = st.fork()
            if s.store.assume_eq(n - k) and not s.store.infeasible():
                out.append((s, k))
        return out
    raise Unmodelled("enum expected, got %r" % (v,))


@nat(r"SpecFromIterNested<T, I>>::from_iter$")
def _(c):
    g = map_summary(c, c.args[0])
    if g is not None:
        return VecV(g, vec_ety(c, c.rty))
    nf = find_callee(c, r"::next$")
    if nf is None:
        se = find_callee(c, r"::spec_extend$")
        if se is None:
            return None
        vec = c.temp(VecV((), vec_ety(c, c.rty)))
        return [(s, c.rd1(vec, s)) for s, _ in c.e.exec_fn(se, [vec, c.args[0]], c.st, None, c.caller, c.site)]
    it = c.temp(c.args[0])
    vec = c.temp(VecV((), vec_ety(c, c.rty)))
    return drain_into(c, it, vec, nf, lambda s: [(s, c.rd1(vec, s))])


@nat(r"std::vec::Vec::<T, A>::extend_desugared$")
def _(c):
    nf = find_callee(c, r"::next$")
    if nf is None:
        return None
    it = c.temp(c.args[1])
    return drain_into(c, it, c.args[0], nf, lambda s: [(s, UNIT)])


@nat(r"std::vec::Vec::<T, A>::extend_trusted$")
def _(c):
    fe = find_callee(c, r"::for_each$")
    clt = None
    for b in c.f["body"]["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure":
                clt = s[2][2]
    if fe is None or clt is None:
        return None
    cl = AggV(clt, 0, (c.args[0],))
    return [(s, UNIT) for s, _ in c.e.exec_fn(fe, [c.args[1], cl], c.st, None, c.caller, c.site)]


@nat(r"std::vec::Vec::<T, A>::extend_trusted::\{closure#0\}$")
def _(c):
    v = c.args[0]
    while isinstance(v, RefV):
        x = c.rd1(v)
        if isinstance(x, VecV):
            break
        v = x
    if isinstance(v, AggV):
        v = v.f[0]
    x = c.args[1]
    if isinstance(x, AggV) and x.ty != -1 and False:
        x = x.f[0]
    cur = vec_of(c, v)
    c.wr(v, VecV(cur.segs + (("el", x),), cur.ety))
    return UNIT


@nat(r"std::iter::Iterator::size_hint$", r"as std::iter::Iterator>::size_hint$")
def _(c):
    return opaque_sizehint(c)


# ---- Box
@nat(r"std::boxed::Box::<T>::new$")
def _(c):
    return c.temp(c.args[0])


@nat(r"<std::boxed::Box<T, A> as std::convert::As(Ref|Mut)<T>>::as_(ref|mut)$", r"<std::boxed::Box<T(, A)?> as std::ops::Deref(Mut)?>::deref(_mut)?$",
     r"<impl std::borrow::Borrow(Mut)?<T> for std::boxed::Box<T, A>>::borrow(_mut)?$")
def _(c):
    b = c.rd1(c.args[0])
    cell, path = c.e.deref(c.st, b)
    return cell if isinstance(cell, SliceV) and not path else RefV(cell, path)


@nat(r"<std::boxed::Box<T, A> as std::cmp::PartialEq>::eq$")
def _(c):
    return None


@nat(r"std::boxed::box_new_uninit$", r"std::boxed::Box::<T>::new_uninit$")
def _(c):
    return c.temp(UNINIT)


@nat(r"std::boxed::box_assume_init_into_vec_unsafe$")
def _(c):
    cell, path = c.e.deref(c.st, c.args[0])
    v = c.e.read(c.st, cell, path)
    while isinstance(v, AggV) and v.ty == -9 and len(v.f) >= 1:
        v = v.f[-1]
    if isinstance(v, AggV):
        return VecV([("el", x) for x in v.f], vec_ety(c, c.rty))
    raise Unmodelled("vec! of %r" % (v,))


# ---- Clone
@nat(r"<std::vec::Vec<T, A> as std::clone::Clone>::clone$", r"<std::borrow::Cow<'_, B> as std::clone::Clone>::clone$",
     r"<std::boxed::Box<T, A> as std::clone::Clone>::clone$", r"std::clone::impls::<impl std::clone::Clone for .*>::clone$",
     r"<std::string::String as std::clone::Clone>::clone$", r"<der_parser::(Oid|ber::\w+|asn1_rs::\w+)(<.*>)? as std::clone::Clone>::clone$")
def _(c):
    if c.f["krate"] == "der_parser":
        return None
    v = c.rd1(c.args[0])
    if v is UNINIT:
        raise Unmodelled("clone of uninit")
    return v


@nat(r"<T as std::borrow::ToOwned>::to_owned$")
def _(c):
    return None


@nat(r"<std::borrow::Cow<'_, B> as std::ops::Deref>::deref$", r"<std::borrow::Cow<'_, T> as std::convert::AsRef<T>>::as_ref$")
def _(c):
    v = c.rd1(c.args[0])
    out = []
    for st, var in enum_cases(c.e, c.st, v):
        x = c.e.proj(st, c.e.proj(st, v, ("v", var)), ("f", 0, None))
        if var == 1:
            if isinstance(x, AggV):
                x = x.f[0]
            x = vec_slice(x) if isinstance(x, VecV) else x
        out.append((st, x))
    return out


@nat(r"<std::borrow::Cow<'a, B> as std::cmp::PartialEq<std::borrow::Cow<'b, C>>>::eq$")
def _(c):
    out = []
    va, vb = c.rd1(c.args[0]), c.rd1(c.args[1])
    for st, x in cow_slice(c, c.st, va):
        for st2, y in cow_slice(c, st, vb):
            out += slice_eq(c, st2, x, y)
    return out


def cow_slice(c, st, v):
    out = []
    for s, var in enum_cases(c.e, st, v):
        x = c.e.proj(s, c.e.proj(s, v, ("v", var)), ("f", 0, None))
        if isinstance(x, AggV):
            x = x.f[0]
        out.append((s, vec_slice(x) if isinstance(x, VecV) else x))
    return out


@nat(r"<impl std::convert::From<&'a \[T\]> for std::borrow::Cow<'a, \[T\]>>::from$")
def _(c):
    return AggV(c.rty, 0, (as_slice(c, c.args[0]),))


# ---- strings
@nat(r"<std::string::String as std::ops::Deref>::deref$", r"<std::string::String as std::convert::AsRef<.*>>::as_ref$",
     r"std::string::String::(as_str|as_bytes)$", r"<impl std::borrow::Borrow<str> for std::string::String>::borrow$")
def _(c):
    v = c.rd(c.args[0])
    if isinstance(v, AggV) and isinstance(v.f[0], VecV):
        return vec_slice(v.f[0])
    return c.e.mk_sym(c.rty, ("strof",) + I.flat(v))


@nat(r"std::str::from_utf8$", r"core::str::converts::from_utf8$", r"std::string::String::from_utf8$")
def _(c):
    a = c.args[0]
    own = "String" in c.f["path"]
    s = vec_slice(a) if isinstance(a, VecV) else as_slice(c, a)
    okv = AggV(c.vty(c.rty, 0), 0, (a,)) if own else SliceV(s.base, s.off, s.len, "u8")
    if all_in(c.st.store, s, ASCII):
        return c.ok(okv)
    n = c.st.store.norm
    pa = atom(("b", "utf8", s.base, n(s.off), n(s.len)), BOOL)
    out = []
    for st, t in c.fork(("eq", L(pa) - 1)):
        if t:
            out.append((st, c.ok(okv)))
        else:
            if st.store.assume_ge(s.len - 1):
                out.append((st, c.err(c.e.mk_sym(c.vty(c.rty, 1), ("utf8err", s.base, n(s.off), n(s.len))))))
    return out


def all_in(store, s, vs):
    """every byte of the slice is known to be in vs"""
    lo, hi = store.norm(s.off), store.norm(s.off + s.len)
    if store.entails_ge(lo - hi):
        return True
    for (b, l2, h2, v2) in store.allin:
        if b == s.base and v2.subset(vs) and store.entails_ge(lo - l2) and store.entails_ge(h2 - hi):
            return True
    d = store.norm(hi - lo)
    if d.isc() and d.c <= 64:
        if s.base[0] == "const":
            return lo.isc() and all(vs.has(x) for x in s.base[1][lo.c:lo.c + d.c])
        if s.base[0] in ("S",) or s.base[0] not in ("mem", "cat", "vals"):
            return all(store.dom_of(L(atom(("byte", s.base, store.norm(lo + j)), BYTE))).subset(vs) for j in range(d.c))
    return False


@nat(r"<std::string::String as std::iter::FromIterator<.*>>::from_iter$")
def _(c):
    c.e.loopctr += 1
    return c.e.mk_sym(c.rty, ("unk", "string", c.e.loopctr))


@nat(r"std::string::String::from_utf16$")
def _(c):
    s = as_slice(c, c.args[0])
    n = c.st.store.norm
    if n(s.len) == ZERO:
        return c.ok(c.e.mk_sym(c.vty(c.rty, 0), ("utf16str", "empty")))
    key = u16_key(c, s)
    pa = atom(("b", "utf16") + key, BOOL)
    out = []
    for st, t in c.fork(("eq", L(pa) - 1)):
        if t:
            out.append((st, c.ok(c.e.mk_sym(c.vty(c.rty, 0), ("utf16str",) + key))))
        else:
            if st.store.assume_ge(s.len - 1):
                out.append((st, c.err(c.e.mk_sym(c.vty(c.rty, 1), ("utf16err",) + key))))
    return out


def u16_key(c, s):
    """identify big-endian u16 units read from a byte slice, if that is what they are"""
    n = c.st.store.norm(s.len)
    if s.base[0] == "cat" and len(s.base[1]) == 1 and s.base[1][0][0] == "gen":
        _, t, h, cnt = s.base[1][0]
        if isinstance(t, IntV) and len(t.l.t) == 2:
            d = {k: a for a, k in t.l.t}
            if 256 in d and 1 in d and d[256].key[0] == "byte" and d[1].key[0] == "byte" and d[256].key[1] == d[1].key[1]:
                o = d[256].key[2]
                i0 = I.map_lin(o, lambda a: ZERO if a is h else None)
                if d[1].key[2] == o + 1 and o == i0 + Lin(0, ((h, 2),)):
                    return ("be16", d[1].key[1], c.st.store.norm(i0), c.st.store.norm(cnt))
    if s.base[0] == "cat" and all(x[0] == "el" for x in s.base[1]):
        first = None
        ok = True
        for i, x in enumerate(s.base[1]):
            l = c.st.store.norm(x[1].l) if isinstance(x[1], IntV) else None
            d = {k: a for a, k in l.t} if l is not None and len(l.t) == 2 and l.c == 0 else {}
            if not (256 in d and 1 in d and d[256].key[0] == "byte" and d[1].key[0] == "byte" and d[1].key[1] == d[256].key[1]):
                ok = False
                break
            o = d[256].key[2]
            if first is None:
                first = (d[1].key[1], o)
            if d[1].key[1] != first[0] or o != first[1] + 2 * i or d[1].key[2] != o + 1:
                ok = False
                break
        if ok and first:
            return ("be16", first[0], c.st.store.norm(first[1]), K(len(s.base[1])))
    if n.isc() and n.c == 0:
        return ("be16", ("const", ()), ZERO, ZERO)
    if s.base[0] == "cat" and len(s.base[1]) == 1 and s.base[1][0][0] == "gen" and isinstance(s.base[1][0][1], IntV):
        return ("ugen", L(s.base[1][0][2]), s.base[1][0][1].l, c.st.store.norm(s.base[1][0][3]))
    if s.base[0] == "cat" and s.base[1] and all(x[0] == "el" and isinstance(x[1], IntV) for x in s.base[1]):
        return ("uels",) + tuple(c.st.store.norm(x[1].l) for x in s.base[1])
    return ("u16",) + I.flat(s)


@nat(r"std::string::ToString>::to_string$", r"SpecToString>::spec_to_string$", r"std::fmt::format$", r"<impl std::borrow::ToOwned for str>::to_owned$",
     r"<impl std::convert::From<&str> for std::string::String>::from$", r"<std::string::String as std::convert::From<&.*str>>::from$",
     r"std::slice::<impl \[T\]>::(join|concat)$")
def _(c):
    k = ("string", c.f["path"].rsplit("::", 1)[-1])
    for a in c.args:
        k += I.flat(a, c.st, c.e)
    if "to_owned" in c.f["path"] or "From<&" in c.f["path"]:
        a = c.args[0]
        if isinstance(a, SliceV):
            return AggV(c.rty, 0, (slice_vec(c, c.st, a),))
    if c.f["path"].endswith("to_string"):
        c.e.fmt_note(c, c.args[0])
    return c.e.mk_sym(c.rty, k)


@nat(r"^<.* as std::fmt::(Debug|Display|LowerHex|UpperHex)>::fmt$", r"export::fmt::num::", krate="core")
def _(c):
    return fmt_result(c)


@nat(r"^<std::string::String as std::fmt::.*fmt$", r"^<std::vec::Vec<.*> as std::fmt::.*fmt$", krate="alloc")
def _(c):
    return fmt_result(c)


@nat(r" as std::fmt::(Debug|Display)>::fmt$", krate="asn1_rs")
def _(c):
    return fmt_result(c)


@nat(r" as std::fmt::(Debug|Display)>::fmt$", krate="rusticata_macros")
def _(c):
    return fmt_result(c)


def fmt_result(c):
    c.e.loopctr += 1
    return SymV(("fmtres",), c.rty, c.p.symdom(c.rty))


@nat(r"fmt::rt::Argument::<'_>::(new_\w+|from_usize)$")
def _(c):
    # formatting an argument runs its Debug/Display implementation later: recursion through it is noted
    k = ("fmtarg",)
    fid = None
    b = c.f["body"]
    if b:
        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] == "=":
                    fid = fid or find_fn_const(c.p, s[2])
    if fid is not None and c.p.fns[fid]["krate"] == "der_parser":
        c.e.fmt_call(c, fid, c.args[0])
    return OpaqueV(k)


def find_fn_const(p, r):
    if isinstance(r, list):
        if len(r) == 3 and r[0] == "k" and isinstance(r[2], list) and r[2] and r[2][0] in ("fn", "fnptr"):
            return r[2][1]
        if len(r) == 3 and r[0] == "k" and isinstance(r[2], list) and r[2] and r[2][0] == "zst" and isinstance(r[1], int) and p.types[r[1]]["k"] == "fndef":
            return p.types[r[1]]["fn"]
        for x in r:
            y = find_fn_const(p, x)
            if y is not None:
                return y
    return None


@nat(r"std::fmt::Arguments::<'a>::(new|from_str|new_const|new_v1|new_v1_formatted|as_statically_known_str)$")
def _(c):
    return OpaqueV(("fmtargs",))


@nat(r"std::fmt::Formatter::<'a>::(write_fmt|write_str|pad|debug_\w+_finish)$", r"std::fmt::Debug\w+::<.*>::finish\w*$",
     r"std::fmt::Write::write_\w+$", r"std::fmt::write$")
def _(c):
    return fmt_result(c) if c.p.types[c.rty]["k"] == "adt" else OpaqueV(("fmt",))


@nat(r"std::fmt::Formatter::<'a>::debug_\w+$", r"std::fmt::Debug\w+::<.*>::\w+$")
def _(c):
    if c.args and isinstance(c.args[0], RefV) and "Debug" in c.f["path"]:
        return c.args[0]
    return OpaqueV(("fmt",))


@nat(r"std::fmt::Formatter::<'a>::(alternate|sign_\w+)$")
def _(c):
    c.e.loopctr += 1
    return BoolV(("eq", L(atom(("b", "fmtflag", c.e.loopctr), BOOL)) - 1))


# ================================================================== io::Write, cookie-factory
@nat(r"<impl std::io::Write for std::vec::Vec<u8, A>>::write$")
def _(c):
    v = vec_of(c, c.args[0])
    s = as_slice(c, c.args[1])
    c.wr(c.args[0], VecV(v.segs + slice_segs(c, c.st, s), v.ety))
    return c.ok(IntV(s.len))


@nat(r"<impl std::io::Write for std::vec::Vec<u8, A>>::write_all$")
def _(c):
    v = vec_of(c, c.args[0])
    s = as_slice(c, c.args[1])
    c.wr(c.args[0], VecV(v.segs + slice_segs(c, c.st, s), v.ety))
    return c.ok(UNIT)


# ================================================================== integers
def ity(c):
    return c.rty


def self_int_ty(c):
    m = re.search(r"<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>", c.f["path"])
    n = m.group(1)
    bits = {"usize": 64, "isize": 64}.get(n) or int(n[1:])
    signed = n[0] == "i"
    for t, ty in c.p.types.items():
        if ty["k"] == "int" and ty["bits"] == bits and ty["signed"] == signed:
            return t
    raise Unmodelled("no type " + n)


@nat(r"core::num::<impl \w+>::from_be_bytes$")
def _(c):
    arr = c.args[0]
    t = c.rty
    l = ZERO
    n = len(arr.f)
    for i, x in enumerate(arr.f):
        l = l + c.lin(x).scale(256 ** (n - 1 - i))
    return c.e.wrap(c.st, c.st.store.norm(l), t)


@nat(r"core::num::<impl \w+>::from_le_bytes$")
def _(c):
    arr = c.args[0]
    l = ZERO
    for i, x in enumerate(arr.f):
        l = l + c.lin(x).scale(256 ** i)
    return c.e.wrap(c.st, c.st.store.norm(l), c.rty)


@nat(r"core::num::<impl \w+>::to_(be|le|ne)_bytes$")
def _(c):
    l = c.lin(c.args[0])
    n = c.p.types[c.rty]["len"]
    bs = [c.e.byte_of(c.st, l, i, n) for i in range(n)]
    if "to_be" in c.f["path"]:
        bs = bs[::-1]
    return AggV(c.rty, 0, bs)


@nat(r"core::num::<impl \w+>::checked_(add|sub|mul)$")
def _(c):
    t = self_int_ty(c)
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.f["path"].rsplit("_", 1)[1]]
    r = c.e.checked(c.st, op, c.args[0], c.args[1], t)
    out = []
    for st, o in c.fork(r.f[1].c):
        out.append((st, c.none() if o else c.some(r.f[0])))
    return out


@nat(r"core::num::<impl \w+>::(overflowing)_(add|sub|mul)$")
def _(c):
    t = self_int_ty(c)
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.f["path"].rsplit("_", 1)[1]]
    r = c.e.checked(c.st, op, c.args[0], c.args[1], t)
    return AggV(c.rty, 0, (c.e.wrap(c.st, r.f[0].l, t), r.f[1]))


@nat(r"core::num::<impl \w+>::saturating_(add|sub)$", r"std::intrinsics::saturating_(add|sub)$")
def _(c):
    t = c._rty if c._rty is not None else c.rty
    op = "Add" if c.f["path"].endswith("add") else "Sub"
    r = c.e.checked(c.st, op, c.args[0], c.args[1], t)
    lo, hi = c.p.int_range(t)
    out = []
    for st, o in c.fork(r.f[1].c):
        if not o:
            out.append((st, r.f[0]))
        else:
            for st2, neg in fork_on(c.e, st, ("ge", K(lo) - r.f[0].l)):
                out.append((st2, IntV(lo if neg else hi)))
    return out


@nat(r"core::num::<impl \w+>::(wrapping|unchecked)_(add|sub|mul|neg|shl|shr)$")
def _(c):
    t = self_int_ty(c)
    op = c.f["path"].rsplit("_", 1)[1]
    if op == "neg":
        return c.e.unop(c.st, "Neg", c.args[0], t)
    o = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "Shr"}[op]
    if o in ("Shl", "Shr"):
        y = c.st.store.norm(c.lin(c.args[1]))
        if not y.isc():
            raise Unmodelled("wrapping shift")
        return c.e.binop(c.st, o, c.args[0], IntV(y.c % c.p.types[t]["bits"]), t)
    return c.e.binop(c.st, o, c.args[0], c.args[1], t)


@nat(r"core::num::<impl \w+>::checked_(shl|shr)$")
def _(c):
    t = self_int_ty(c)
    bits = c.p.types[t]["bits"]
    y = c.lin(c.args[1])
    out = []
    for st, ok in c.fork(("ge", K(bits - 1) - y)):
        if not ok:
            out.append((st, c.none()))
        else:
            def go(s):
                return [(s, c.some(c.e.binop(s, "Shl" if c.f["path"].endswith("shl") else "Shr", c.args[0], c.args[1], t)))]
            out += c.e.with_splits(st, go)
    return out


@nat(r"core::num::<impl \w+>::(leading_zeros|trailing_zeros|count_ones|count_zeros|leading_ones|trailing_ones|is_power_of_two|pow|isqrt|ilog2|rotate_left|rotate_right|reverse_bits|swap_bytes|abs|unsigned_abs|div_ceil)$",
     r"std::intrinsics::(ctlz|cttz|ctpop|bitreverse|rotate_left|rotate_right)$")
def _(c):
    nm = c.f["path"].rsplit("::", 1)[1]
    x = c.st.store.norm(c.lin(c.args[0]))
    if nm in ("ctlz", "cttz", "ctpop", "bitreverse", "rotate_left", "rotate_right"):
        t = None
        bits = None
        nm = {"ctlz": "leading_zeros", "cttz": "trailing_zeros", "ctpop": "count_ones"}.get(nm)
        if nm is None or nm != "count_ones":
            raise Unmodelled("intrinsic on unknown width")
        bits = 64
    else:
        t = self_int_ty(c)
        bits = c.p.types[t]["bits"]
    if nm == "pow":
        y = c.st.store.norm(c.lin(c.args[1]))
        if x.isc() and y.isc():
            v = x.c ** y.c
            lo, hi = c.p.int_range(t)
            if not lo <= v <= hi:
                return c.panic("overflow", "pow overflows")
            return IntV(v)
        raise Unmodelled("pow")
    if nm == "div_ceil":
        y = c.st.store.norm(c.lin(c.args[1]))
        if y.isc() and y.c > 0:
            return c.e.div(c.st, x + (y.c - 1), y, t)
        raise Unmodelled("div_ceil")

    def f(v):
        u = v & ((1 << bits) - 1)
        if nm == "leading_zeros":
            return bits - u.bit_length()
        if nm == "leading_ones":
            return bits - (u ^ ((1 << bits) - 1)).bit_length()
        if nm == "trailing_zeros":
            return bits if u == 0 else (u & -u).bit_length() - 1
        if nm == "trailing_ones":
            w = u ^ ((1 << bits) - 1)
            return bits if w == 0 else (w & -w).bit_length() - 1
        if nm == "count_ones":
            return bin(u).count("1")
        if nm == "count_zeros":
            return bits - bin(u).count("1")
        if nm == "is_power_of_two":
            return int(bin(u).count("1") == 1)
        if nm == "reverse_bits":
            return int(bin(u)[2:].zfill(bits)[::-1], 2)
        raise Unmodelled(nm)
    isb = nm == "is_power_of_two"

    def mk(v):
        return (TRUE if v else FALSE) if isb else IntV(v)
    if x.isc():
        return mk(f(x.c))
    if nm == "leading_zeros":
        # partition by bit length
        lo, hi = c.st.store.bounds(x)
        if lo >= 0:
            out = []
            for bl in range(lo.bit_length(), hi.bit_length() + 1):
                s = c.st.fork()
                a, b = (0, 0) if bl == 0 else (1 << (bl - 1), (1 << bl) - 1)
                if s.store.assume_ge(x - a) and s.store.assume_ge(K(b) - x) and not s.store.infeasible():
                    out.append((s, IntV(bits - bl)))
            return out
    d = c.st.store.dom_of(x)
    if d.count() > 300:
        raise Unmodelled(nm)
    groups = {}
    for v in d:
        groups.setdefault(f(v), []).append(v)
    out = []
    for r, vs in groups.items():
        s = c.st.fork()
        if s.store.assume_in(x, ISet.vals(vs)):
            out.append((s, mk(r)))
    return out


@nat(r"std::intrinsics::bswap$")
def _(c):
    raise Unmodelled("bswap")


@nat(r"core::num::<impl u8>::is_ascii$")
def _(c):
    return BoolV(I.cmp_cond("Le", c.lin(c.rd(c.args[0])), K(127)))


@nat(r"core::num::<impl u8>::is_ascii_digit$")
def _(c):
    return BoolV(("in", c.lin(c.rd(c.args[0])), ISet.rng(48, 57)))


@nat(r"core::num::<impl u8>::is_ascii_(\w+)$")
def _(c):
    import string
    nm = c.f["path"].rsplit("is_ascii_", 1)[1]
    S = {"alphabetic": string.ascii_letters, "alphanumeric": string.ascii_letters + string.digits, "uppercase": string.ascii_uppercase,
         "lowercase": string.ascii_lowercase, "hexdigit": string.hexdigits, "punctuation": string.punctuation,
         "graphic": "".join(map(chr, range(0x21, 0x7f))), "whitespace": " \t\n\x0c\r", "control": "".join(map(chr, list(range(0x20)) + [0x7f]))}
    if nm not in S:
        return None
    return BoolV(("in", c.lin(c.rd(c.args[0])), ISet.vals([ord(x) for x in S[nm]])))


@nat(r"std::cmp::impls::<impl std::cmp::Ord for \w+>::(max|min)$", r"std::cmp::(max|min)$", r"std::cmp::Ord::(max|min)$")
def _(c):
    a, b = c.args
    if not isinstance(a, IntV):
        return None
    mx = c.f["path"].endswith("max")
    out = []
    for st, t in c.fork(("ge", a.l - b.l)):
        out.append((st, (a if t else b) if mx else (b if t else a)))
    return out


@nat(r"std::cmp::impls::<impl std::cmp::Ord for \w+>::cmp$", r"std::cmp::impls::<impl std::cmp::PartialOrd for \w+>::partial_cmp$")
def _(c):
    a, b = c.lin(c.rd(c.args[0])), c.lin(c.rd(c.args[1]))
    part = c.f["path"].endswith("partial_cmp")
    t = c.vty(c.rty, 1) if part else c.rty
    out = []
    for cond, nm in ((("ge", b - a - 1), "Less"), (("eq", a - b), "Equal"), (("ge", a - b - 1), "Greater")):
        s = c.st.fork()
        if s.store.assume(cond) and not s.store.infeasible():
            v = AggV(t, c.p.variant(t, nm), ())
            out.append((s, c.some(v) if part else v))
    return out


# ================================================================== pointers, hints, drops
@nat(r"::precondition_check$", r"std::hint::assert_unchecked$", r"std::intrinsics::(assert_\w+|cold_path|likely|unlikely|assume)$",
     r"std::ptr::drop_(in_place|glue)$", r"std::mem::drop$", r"std::mem::forget$")
def _(c):
    if c.f["path"].endswith("likely"):
        return c.args[0]
    return UNIT


@nat(r"std::hint::(must_use|black_box)$")
def _(c):
    return c.args[0]


@nat(r"<\[u8\] as der_parser::nom::Offset>::offset$", r"<&.*\[u8\] as .*nom::Offset>::offset$")
def _(c):
    a, b = as_slice(c, c.args[0]), as_slice(c, c.args[1])
    if a.base != b.base:
        raise Unmodelled("offset between different buffers")
    return c.e.wrap(c.st, c.st.store.norm(b.off - a.off), c.rty)


@nat(r"std::intrinsics::ptr_offset_from(_unsigned)?$", r"std::ptr::const_ptr::<impl \*const T>::offset_from(_unsigned)?$")
def _(c):
    a, b = c.args
    if isinstance(a, SliceV) and isinstance(b, SliceV) and a.base == b.base:
        return IntV(a.off - b.off)
    raise Unmodelled("pointer difference")


@nat(r"std::mem::(replace|take|swap)$")
def _(c):
    nm = c.f["path"].rsplit("::", 1)[1]
    if nm == "replace":
        v = c.rd1(c.args[0])
        c.wr(c.args[0], c.args[1])
        return v
    if nm == "swap":
        a, b = c.rd1(c.args[0]), c.rd1(c.args[1])
        c.wr(c.args[0], b)
        c.wr(c.args[1], a)
        return UNIT
    v = c.rd1(c.args[0])
    if isinstance(v, VecV):
        c.wr(c.args[0], VecV((), v.ety))
        return v
    return None


@nat(r"std::any::type_name$")
def _(c):
    return SliceV(("S", "typename", c.f["id"]), ZERO, L(atom(("len", "typename", c.f["id"]), ISet.rng(0, 4096))), "u8")


# ================================================================== panics
@nat(r"core::panicking::", r"std::rt::(panic_fmt|begin_panic|panic_display)", r"std::(option|result)::(unwrap_failed|expect_failed)$",
     r"core::slice::index::slice_\w+_fail", r"core::slice::copy_from_slice_impl::len_mismatch_fail", r"std::panicking::", r"::(\w+_)?default_msg$",
     r"core::str::slice_error_fail", r"core::option::", r"std::cell::panic_already")
def _(c):
    if "core::option::" in c.f["path"] and not c.f["path"].endswith("_failed"):
        return None
    nm = c.f["path"].rsplit("::", 1)[-1]
    msg = ""
    for a in c.args:
        if isinstance(a, SliceV) and a.base[0] == "const":
            msg = bytes(a.base[1]).decode("utf8", "replace")
    return c.panic("panic", nm + (": " + msg if msg else ""))


@nat(r"alloc::raw_vec::", r"std::alloc::handle_alloc_error$", r"alloc::raw_vec::capacity_overflow")
def _(c):
    return [] if c._rty is not None and c.p.types[c._rty]["k"] == "never" else UNIT


# ================================================================== asn1-rs
def header_fields(e, st, hty, base, off):
    """abstract header parsed at base[off..]; fields are functions of the position only"""
    ty = e.p.types[hty]
    fs = ty["variants"][0]["fields"]
    out = []
    for nm, ft in fs:
        if nm == "raw_tag":
            cow = e.p.types[ft]["variants"][1]["fields"][0][1]
            r = L(atom(("len", "rawtag", base, off), ISet.rng(1, LENMAX)))
            out.append(AggV(ft, 1, (AggV(cow, 0, (SliceV(base, off, r, "u8"),)),)))
        else:
            out.append(e.mk_sym(ft, ("hdr", base, off, nm)))
    return AggV(hty, 0, out)


def hdr_key(st, s):
    base = I.map_any(s.base, lambda a: None)
    return base, st.store.norm(s.off)


def hdr_len(base, off):
    return L(atom(("len", "hdr", base, off), ISet.rng(2, LENMAX)))


@nat(r"<der_parser::ber::Header<'a> as der_parser::asn1_rs::From(Ber|Der)<'a>>::from_(ber|der)$")
def _(c):
    der = "from_der" in c.f["path"]
    s = as_slice(c, c.args[0])
    base, off = hdr_key(c.st, s)
    out = []
    tt = c.vty(c.rty, 0)
    hty = c.p.types[tt]["elems"][1]
    ety = c.vty(c.rty, 1)
    good = atom(("b", "hdr", base, off, "good"), BOOL)
    dgood = atom(("b", "hdr", base, off, "dgood"), BOOL)
    h = hdr_len(base, off)
    hv = header_fields(c.e, c.st, hty, base, off)
    fields = dict(zip([n for n, _ in c.p.types[hty]["variants"][0]["fields"]], hv.f))
    # success
    st = c.st.fork()
    ok = st.store.assume_eq(L(good) - 1)
    lt = fields["length"]
    if der:
        ok = ok and st.store.assume_eq(L(dgood) - 1) and st.store.assume_eq(L(lt.datom()) - c.p.variant(lt.ty, "Definite"))
    ok = ok and st.store.assume_ge(s.len - h)
    ok = ok and st.store.assume_ge(h - L(atom(("len", "rawtag", base, off), ISet.rng(1, LENMAX))) - 1)
    if ok and not st.store.infeasible():
        if not der:
            # an indefinite length requires the constructed bit
            n = st.store.norm(L(lt.datom()))
            ind = c.p.variant(lt.ty, "Indefinite")
            con = fields["constructed"].c
            if not n.isc():
                a = st.fork()
                if a.store.assume_eq(n - ind) and a.store.assume(con) and not a.store.infeasible():
                    out.append((a, c.ok(AggV(tt, 0, (sub(s, h, s.len), hv)))))
                if st.store.assume_ne(n - ind) and not st.store.infeasible():
                    out.append((st, c.ok(AggV(tt, 0, (sub(s, h, s.len), hv)))))
            else:
                if n.c != ind or st.store.assume(con):
                    out.append((st, c.ok(AggV(tt, 0, (sub(s, h, s.len), hv)))))
        else:
            out.append((st, c.ok(AggV(tt, 0, (sub(s, h, s.len), hv)))))
    # failures
    g = dgood if der else good
    st = c.st.fork()
    if st.store.assume_eq(L(g)):
        v = c.e.mk_sym(ety, ("hdrerr", "der" if der else "ber", base, off, st.store.norm(s.len)))
        dep_error(c, st, v)
        out.append((st, c.err(v)))
    st = c.st.fork()
    if st.store.assume_eq(L(g) - 1) and st.store.assume_eq(L(good) - 1) and st.store.assume_ge(h - s.len - 1) and not st.store.infeasible():
        v = c.e.mk_sym(ety, ("hdrinc", base, off, st.store.norm(s.len)))
        dep_error(c, st, v)
        out.append((st, c.err(v)))
    return out


@nat(r"<der_parser::asn1_rs::(Ber|Der)Parser as der_parser::asn1_rs::ber::parser::GetObjectContent>::get_object_content$")
def _(c):
    der = "DerParser" in c.f["path"]
    s = as_slice(c, c.args[0])
    hdr = c.rd(c.args[1])
    names = [n for n, _ in c.p.types[hdr.ty]["variants"][0]["fields"]]
    lv = hdr.f[names.index("length")]
    out = []
    tt = c.vty(c.rty, 0)
    ety = c.vty(c.rty, 1)
    for st, var in enum_cases(c.e, c.st, lv):
        if c.p.types[lv.ty]["variants"][var]["name"] == "Definite":
            l = c.e.proj(st, c.e.proj(st, lv, ("v", var)), ("f", 0, None)).l
            for s2, t in fork_on(c.e, st, ("ge", s.len - l)):
                if t:
                    out.append((s2, c.ok(AggV(tt, 0, (sub(s, l, s.len), sub(s, ZERO, l))))))
                else:
                    out.append((s2, c.err(incomplete(c, ety, s2, l - s.len))))
        elif der:
            out.append((st, c.err(c.e.mk_sym(ety, ("derindef", s.base, st.store.norm(s.off))))))
        else:
            base, off = s.base, st.store.norm(s.off)
            d = st.store.norm(c.lin(c.args[2]))
            ok = atom(("b", "indef", base, off, d, "ok"), BOOL)
            n = L(atom(("len", "indef", base, off), ISet.rng(0, LENMAX)))
            for s2, t in fork_on(c.e, st, ("eq", L(ok) - 1)):
                if t:
                    if s2.store.assume_ge(s.len - n - 2) and not s2.store.infeasible():
                        out.append((s2, c.ok(AggV(tt, 0, (sub(s, n + 2, s.len), sub(s, ZERO, n))))))
                else:
                    v = c.e.mk_sym(ety, ("indeferr", base, off, d))
                    dep_error(c, s2, v)
                    out.append((s2, c.err(v)))
    return out


def incomplete(c, ety, st, need):
    """nom::Err::Incomplete(Needed::Size(need))"""
    v = c.p.variant(ety, "Incomplete")
    nt = c.vty(ety, v)
    sz = c.p.variant(nt, "Size")
    nz = c.vty(nt, sz)
    return AggV(ety, v, (AggV(nt, sz, (nonzero(c, nz, need),)),))


def nonzero(c, nz, l):
    return AggV(nz, 0, (IntV(l),))


@nat(r"std::num::NonZero::<T>::new$")
def _(c):
    l = c.lin(c.args[0])
    out = []
    for st, t in c.fork(("ne", l)):
        out.append((st, c.some(nonzero(c, c.vty(c.rty, 1), l)) if t else c.none()))
    return out


@nat(r"std::num::NonZero::<T>::get$")
def _(c):
    v = c.args[0]
    while isinstance(v, AggV):
        v = v.f[0]
    return v


@nat(r" as der_parser::asn1_rs::TestValidCharset>::test_valid_charset$")
def _(c):
    m = re.search(r"<der_parser::asn1_rs::(\w+)<", c.f["path"])
    nm = m.group(1)
    if nm not in CHARSETS:
        return None
    s = as_slice(c, c.args[0])
    vs = CHARSETS[nm]
    if all_in(c.st.store, s, vs):
        return c.ok(UNIT)
    n = c.st.store.norm
    pa = atom(("b", "charset", vs.iv, s.base, n(s.off), n(s.len)), BOOL)
    out = []
    for st, t in c.fork(("eq", L(pa) - 1)):
        if t:
            if st.store.add_allin(s.base, s.off, s.off + s.len, vs):
                out.append((st, c.ok(UNIT)))
        else:
            if st.store.assume_ge(s.len - 1):
                out.append((st, c.err(AggV(c.vty(c.rty, 1), c.p.variant(c.vty(c.rty, 1), "StringInvalidCharset"), ()))))
    return out


def dep_error(c, st, v):
    """errors made by asn1-rs itself: it never constructs UnknownTag (checked by grep of the dependency, DESIGN.md)"""
    if isinstance(v, SymV) and v.dom is not None:
        ty = c.p.types[v.ty]
        if ty["k"] == "adt" and ty["path"].endswith("::Error") and any(x["name"] == "UnknownTag" for x in ty["variants"]):
            return st.store.assume(("ne", L(v.datom()) - c.p.variant(v.ty, "UnknownTag")))
        if ty["k"] == "adt" and ty["path"].endswith("::Err"):
            for k in v.dom:
                for x in c.e.sym_variant(v, k).f:
                    dep_error(c, st, x)
    return True


@nat(r"^<T as der_parser::asn1_rs::From(Ber|Der)<'a, E>>::from_(ber|der)$")
def _(c):
    """integer conversions of asn1-rs: opaque, the remainder is a suffix of the input"""
    s = as_slice(c, c.args[0])
    tt = c.vty(c.rty, 0)
    ety = c.vty(c.rty, 1)
    base, off = s.base, c.st.store.norm(s.off)
    vt = c.p.types[tt]["elems"][1]
    key = ("asn1int", "der" if "from_der" in c.f["path"] else "ber", c.p.types[vt]["s"], base, off, c.st.store.norm(s.len))
    ok = atom(("b",) + key + ("ok",), BOOL)
    k = L(atom(("len",) + key, ISet.rng(2, LENMAX)))
    out = []
    for st, t in c.fork(("eq", L(ok) - 1)):
        if t:
            if st.store.assume_ge(s.len - k) and not st.store.infeasible():
                out.append((st, c.ok(AggV(tt, 0, (sub(s, k, s.len), c.e.mk_sym(vt, key))))))
        else:
            out.append((st, c.err(c.e.mk_sym(ety, key))))
    return out


@nat(r"der_parser::asn1_rs::Any::<'a>::(utctime|generalizedtime)$")
def _(c):
    any_ = c.args[0]
    any_ = c.rd(any_)
    names = [n for n, _ in c.p.types[any_.ty]["variants"][0]["fields"]]
    d = any_.f[names.index("data")]
    n = c.st.store.norm
    kind = "utctime" if "utctime" in c.f["path"] else "generalizedtime"
    hdr = any_.f[names.index("header")]
    key = (kind, d.base, n(d.off), n(d.len)) + I.flat(I.norm_val(c.st.store, AggV(-1, 0, [hdr.f[i] for i in range(3)])))
    r = SymV(key, c.rty, c.p.symdom(c.rty))
    out = []
    for st, var in enum_cases(c.e, c.st, r):
        v = c.e.sym_variant(r, var)
        if var == 1:
            dep_error(c, st, v.f[0])
        out.append((st, v))
    return out


@nat(r"asn1_rs::ber::parser::bytes_to_u64$")
def _(c):
    """big-endian value; exact up to 8 octets (longer inputs: the leading octets must be zero, left to the loop analysis)"""
    s = as_slice(c, c.args[0])
    n = c.st.store.norm(s.len)
    if not n.isc():
        lo, hi = c.st.store.bounds(n)
        if lo > 8:
            ok = c.st.fork()
            ok.taint = ok.taint or "value of more than 8 octets"
            return [(c.st, c.err(AggV(c.vty(c.rty, 1), c.p.variant(c.vty(c.rty, 1), "IntegerTooLarge"), ()))),
                    (ok, c.ok(c.e.mk_sym(c.vty(c.rty, 0), ("beint", s.base, c.st.store.norm(s.off), n))))]
        cs = [("eq", n - k) for k in range(9) if lo <= k <= hi]
        if hi > 8:
            cs.append(("ge", n - 9))
        raise Split(cs)
    if n.c > 8:
        raise Unmodelled("constant octet string of more than 8 octets")
    tot = ZERO
    for i in range(n.c):
        b = c.e.slice_elem(c.st, s, K(i))
        if not isinstance(b, IntV):
            return None
        tot = tot + b.l.scale(256 ** (n.c - 1 - i))
    return c.ok(IntV(tot))


@nat(r"asn1_rs::debug::trace(_generic)?$")
def _(c):
    # trace(msg, f, input) / trace_generic(msg, name, f, input) only call f
    return None


# ================================================================== bigint / bitvec
@nat(r"num_bigint::Big(Int|Uint)::from_\w+$", krate="num_bigint")
def _(c):
    k = ("big", c.f["path"].rsplit("::", 2)[-2] + "::" + c.f["path"].rsplit("::", 1)[-1])
    for a in c.args:
        k += I.flat(I.norm_val(c.st.store, a), c.st, c.e)
    return OpaqueV(k)


@nat(r"bitvec::slice::BitSlice::<T, O>::(try_from_slice)$", krate="bitvec")
def _(c):
    k = ("bits",) + I.flat(I.norm_val(c.st.store, c.args[0]), c.st, c.e)
    return SymV(k, c.rty, c.p.symdom(c.rty)) if c.p.types[c.rty]["k"] == "adt" else OpaqueV(k)


# ================================================================== enum constructors used as functions
@nat(r"^(der_parser::asn1_rs::Err::Error|std::ops::ControlFlow::\w+|std::option::Option::Some|std::result::Result::(Ok|Err))$", r"::[A-Z]\w*$")
def _(c):
    if c.f["body"]:
        return None
    t = c._rty
    if t is None:
        raise Unmodelled("constructor result type")
    nm = c.f["path"].rsplit("::", 1)[1]
    v = c.p.variant(t, nm)
    if v is None:
        return None
    return AggV(t, v, c.args)
