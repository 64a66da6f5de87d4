"""Values already in hand: accessors, integer and bit-string reading, construction, cloning, indexing."""
from base import *

STR = ["NumericString", "VisibleString", "PrintableString", "GeneralString", "ObjectDescriptor", "GraphicString", "T61String",
       "VideotexString", "UTF8String", "IA5String"]
BYTES = ["Integer", "OctetString", "BmpString", "UniversalString"]
KINDS = sorted(set(TAGNO) | {"Optional", "Tagged", "Unknown"})


def content_of(ck, v, obj):
    v = ck.deref(v)
    if obj:
        v = ck.f(v, "content")
    return ck.var(v)


def unbox(ck, v):
    """the object a Box/reference points to"""
    return ck.deref(v)


# ------------------------------------------------------------------ typed accessors
def simple(kinds, pick=lambda ck, f: f[0]):
    return {k: pick for k in kinds}


def opt_ref(ck, f):
    return f[0]


ACC = {
    "bool": simple(["Boolean"]),
    "oid": simple(["OID", "RelativeOID"]),
    "oid_val": simple(["OID", "RelativeOID"]),
    "optional": simple(["Optional"]),
    "tagged": simple(["Tagged"], lambda ck, f: AggV(-1, 0, list(f))),
    "bitstring_ref": simple(["BitString"], lambda ck, f: f[1]),
    "bitstring": simple(["BitString"], lambda ck, f: f[1]),
    "sequence": simple(["Sequence"]),
    "set": simple(["Set"]),
    "slice": dict(simple(STR + BYTES), BitString=lambda ck, f: ck.f(f[1], "data"), Unknown=lambda ck, f: ck.f(f[0], "data")),
    "str": simple(STR),
}


def accessor(ck, nm, obj):
    spec = ACC[nm]
    kind, f = content_of(ck, ck.args[0], obj)
    ok, p = ck.result()
    if kind in spec:
        if not ck.must("acc", ok, "as_%s fails for content kind %s" % (nm, kind)):
            return
        want = spec[kind](ck, f)
        if nm == "optional":
            got, exp = ck.opt(p), ck.opt(want)
            if (got is None) != (exp is None):
                ck.bad("acc", "as_optional reports %s for a %s value" % ("absent" if got is None else "present", "present" if exp is not None else "absent"))
            elif got is not None:
                same_ref(ck, got, exp, "optional object")
            return
        if nm == "tagged":
            t = ck.tup(p)
            for i, what in enumerate(("class", "tag")):
                ck.is_same("acc", t[i], f[i], "tagged " + what)
            same_ref(ck, t[2], f[2], "tagged object")
            return
        ck.is_same("acc", p, want, "as_%s of %s" % (nm, kind))
        return
    ck.must("acc", not ok, "as_%s succeeds for content kind %s" % (nm, kind))


def same_ref(ck, a, b, what, aspect="acc"):
    """the same object: same place, or equal values"""
    if isinstance(a, RefV) and isinstance(b, RefV) and a == b:
        return True
    ka, kb = ck.e.obj_key(ck.st, a), ck.e.obj_key(ck.st, b)
    if ka is not None and ka == kb:
        return True
    return ck.is_same(aspect, a, b, what)


# ------------------------------------------------------------------ integers
W = {"i32": (4, True), "i64": (8, True), "u32": (4, False), "u64": (8, False)}


def elems(ck, s, n):
    out = []
    for i in range(n):
        v = ck.e.slice_elem(ck.st, s, K(i))
        if not isinstance(v, IntV):
            raise Undecided("element %r" % (v,))
        out.append(v.l)
    return out


def be(bs):
    t = K(0)
    for b in bs:
        t = t.scale(256) + b
    return t


def int_acc(ck, ty, obj):
    kind, f = content_of(ck, ck.args[0], obj)
    w, signed = W[ty]
    ok, p = ck.result()
    if kind == "BitString" and not signed:
        return
    if kind == "Enum" and not signed:
        v = f[0].l
        fits = ck.ge(K((1 << (8 * w)) - 1), v)
        if fits:
            if ck.must("int", ok, "as_%s fails for an ENUMERATED value that fits" % ty):
                value_is(ck, "int", p, v, "as_%s of ENUMERATED" % ty)
        else:
            ck.must("int", not ok, "as_%s succeeds for an ENUMERATED value that does not fit" % ty)
            if not ok:
                kind_is(ck, "int", p, "IntegerTooLarge", "as_%s of a too large ENUMERATED" % ty)
        return
    if kind != "Integer":
        ck.must("int", not ok, "as_%s succeeds for content kind %s" % (ty, kind))
        return
    exact(ck, "int", ck.deref(f[0]), w, signed, ok, p, "as_%s" % ty, ck.errkind2)


def kind_is(ck, aspect, e, want, what):
    k = ck.errkind2(e)
    if k is not None and k != want:
        ck.bad(aspect, "%s reports %s, expected %s" % (what, k, want))


def value_is(ck, aspect, v, want, what):
    v = ck.deref(v)
    if not isinstance(v, IntV):
        raise Undecided("%s: %r" % (what, v))
    if not ck.eq(v.l, want):
        ck.bad(aspect, "%s returns %r, expected %r" % (what, ck.s.norm(v.l), ck.s.norm(want)))


LIMIT = 24


def exact(ck, aspect, s, w, signed, ok, p, what, errkind):
    """p: Ok payload or error of reading the two's-complement octets s as a w-octet integer"""
    n = s.len
    if ck.eq(n, 0):
        if ok:
            value_is(ck, aspect, p, K(0), what + " of an empty INTEGER")
        return
    first = elems(ck, s, 1)[0]
    neg = ck.ge(first, 128)
    if neg and not signed:
        if not ck.must(aspect, not ok, "%s returns a value for a negative INTEGER" % what):
            return
        k = errkind(p)
        ck.must(aspect, k in (None, "IntegerNegative"), "%s of a negative INTEGER reports %s" % (what, k))
        return
    wide = ck.st.taint and not neg and prefix_zero(ck, s) is not None
    if not wide and not ck.ge(n, w + 1):
        k = concrete(ck, n, 1, w)
        if not ck.must(aspect, ok, "%s fails for %d octets" % (what, k)):
            return
        bs = elems(ck, s, k)
        value_is(ck, aspect, p, be(bs) - (256 ** k if neg else 0), "%s of %d octets" % (what, k))
        return
    lo, hi = bnd(ck, n)
    if not wide and (ck.s.norm(n).isc() or hi <= LIMIT or (ok and not ck.st.taint)):
        k = concrete(ck, n, w + 1, LIMIT)
        bs = elems(ck, s, k)
        if neg:
            if ok:
                value_is(ck, aspect, p, be(bs) - 256 ** k, "%s of %d octets" % (what, k))
            return
        fits = True
        for b in bs[:k - w]:
            if not ck.eq(b, 0):
                fits = False
                break
        if fits and signed and ck.ge(bs[k - w], 128):
            fits = False
        if fits:
            if ck.must(aspect, ok, "%s fails for a value that fits, in %d octets" % (what, k)):
                value_is(ck, aspect, p, be(bs[k - w:]), "%s of %d octets" % (what, k))
            return
        if ck.must(aspect, not ok, "%s returns a value for one that does not fit, in %d octets" % (what, k)):
            kk = errkind(p)
            ck.must(aspect, kk in (None, "IntegerTooLarge"), "%s of a too large INTEGER reports %s" % (what, kk))
        return
    # arbitrary length: the value is that of the octets after a zero prefix
    if neg:
        if ok:
            raise Undecided("%s of a negative INTEGER of arbitrary length" % what)
        return
    zero = prefix_zero(ck, s)
    if ok:
        if zero is None:
            raise Undecided("%s: no zero prefix known" % what)
        # zero = known zero prefix length; the rest must be at most w octets
        k = concrete(ck, n - zero, 0, w)
        bs = [ck.e.slice_elem(ck.st, s, zero + i).l for i in range(k)]
        if k == w and signed and not ck.ge(127, bs[0]):
            ck.bad(aspect, "%s returns a value that does not fit" % what)
        value_is(ck, aspect, p, be(bs), "%s with a prefix of zero octets" % what)
        return
    kk = errkind(p)
    if kk not in (None, "IntegerTooLarge"):
        raise Undecided("%s reports %s" % (what, kk))
    for a, d in list(ck.s.vs.items()):
        if a.key[0] == "byte" and a.key[1] == s.base and not d.has(0):
            idx = a.key[2] - s.off
            left = n - idx
            if ck.s.entails_ge(left - w - 1) or (signed and d.lo >= 128 and ck.s.entails_ge(left - w)):
                return
    raise Undecided("%s rejects a value of arbitrary length" % what)


def prefix_zero(ck, s):
    best = None
    for (b, lo, hi, v) in ck.s.allin:
        if b == s.base and v == ISet.vals([0]) and ck.s.entails_ge(s.off - lo):
            z = ck.s.norm(hi - s.off)
            if best is None or ck.s.entails_ge(z - best):
                best = z
    return best


def bnd(ck, l):
    return ck.s.bounds(ck.s.norm(l))


def concrete(ck, n, lo, hi):
    m = ck.s.norm(n)
    if m.isc():
        return m.c
    a, b = bnd(ck, m)
    a, b = max(a, lo), min(b, hi)
    if bnd(ck, m)[1] > hi:
        if ck.ge(m, hi + 1):
            raise Undecided("length above %d" % hi)
    if a > b:
        raise Infeasible()
    raise Split([("eq", m - v) for v in range(a, b + 1)])


def big(ck, nm):
    kind, f = content_of(ck, ck.args[0], True)
    ok, p = ck.result()
    if kind != "Integer":
        ck.must("int", not ok, "as_%s succeeds for content kind %s" % (nm, kind))
        return
    s = ck.deref(f[0])
    neg = False
    if not ck.eq(s.len, 0):
        neg = ck.ge(elems(ck, s, 1)[0], 128)
    if nm == "biguint" and neg:
        if ck.must("int", not ok, "as_biguint returns a value for a negative INTEGER"):
            kind_is(ck, "int", p, "IntegerNegative", "as_biguint")
        return
    if not ck.must("int", ok, "as_%s fails for an INTEGER" % nm):
        return
    if not (isinstance(p, OpaqueV) and p.key and p.key[0] == "big"):
        raise Undecided("big integer %r" % (p,))
    fn = p.key[1]
    want = "BigInt::from_signed_bytes_be" if nm == "bigint" else "BigUint::from_bytes_be"
    if fn != want:
        if fn.startswith("Big") and fn.split("::")[-1] in ("from_bytes_be", "from_bytes_le", "from_signed_bytes_be", "from_signed_bytes_le"):
            ck.bad("int", "as_%s converts with %s" % (nm, fn))
        else:
            raise Undecided("big integer conversion %s" % fn)
    g = p.key[2:]
    if g[0] != "slice" or len(g) != 4:
        raise Undecided("big integer of %r" % (g,))
    ck.is_same("int", SliceV(g[1], lin(g[2]), lin(g[3]), s.ety), s, "octets converted")


# ------------------------------------------------------------------ bit strings
def bits_acc(ck, ty, obj):
    kind, f = content_of(ck, ck.args[0], obj)
    if kind != "BitString":
        return
    w, _ = W[ty]
    pad, data = f[0].l, ck.deref(ck.f(f[1], "data"))
    ok, p = ck.result()
    bits = data.len.scale(8) - pad
    if not ck.ge(bits, 0):
        ck.must("bits", not ok, "as_%s succeeds although the unused-bit count exceeds the data" % ty)
        return
    if ck.ge(bits, 65):
        if not ok:
            return
        k = concrete(ck, bits, 65, 100)
    else:
        k = concrete(ck, bits, 0, 64)
    nb = (k + 7) // 8
    r = 8 * nb - k
    bs = elems(ck, data, nb)
    if nb:
        last = bs[-1]
        if r:
            q = ck.e.div(ck.st, last, K(1 << r), usize_t(ck))
            last = q.l
        t = K(0)
        for b in bs[:-1]:
            t = t.scale(256) + b
        val = t.scale(256 >> r if r else 256) + last
    else:
        val = K(0)
    if k <= 8 * w:
        fits = True
    else:
        fits = ck.ge(K((1 << (8 * w)) - 1), val)
    if fits:
        if not ok and k > 64:
            return
        if ck.must("bits", ok, "as_%s fails for %d used bits" % (ty, k)):
            value_is(ck, "bits", p, val, "as_%s of %d used bits" % (ty, k))
    else:
        ck.must("bits", not ok, "as_%s returns a value for %d used bits that do not fit" % (ty, k))


def usize_t(ck):
    for t, ty in ck.p.types.items():
        if ty["k"] == "int" and not ty.get("signed") and ty.get("bits", 64) == 64:
            return t
    raise Undecided("usize type")


def is_set(ck):
    s = ck.deref(ck.f(ck.deref(ck.args[0]), "data"))
    n = ck.args[1].l
    q = ck.e.div(ck.st, n, K(8), usize_t(ck)).l
    r = n - q.scale(8)
    got = ck.b(ck.val)
    if ck.ge(q, s.len):
        ck.must("bit", not got, "a bit beyond the data is reported as set")
        return
    k = concrete(ck, r, 0, 7)
    v = ck.e.slice_elem(ck.st, s, q)
    want = ck.isin(v.l, ISet.vals([x for x in range(256) if x >> (7 - k) & 1]))
    ck.must("bit", got == want, "bit %d of octet %r is %s but reported as %s" % (k, q, want, got))


def as_ref(ck):
    ck.is_same("acc", ck.val, ck.f(ck.deref(ck.args[0]), "data"), "data of the bit string")


# ------------------------------------------------------------------ header queries
def hdr(ck):
    return ck.deref(ck.f(ck.deref(ck.args[0]), "header"))


def hq(field):
    def r(ck):
        ck.is_same("acc", ck.val, ck.f(hdr(ck), field), field)
    return r


def isclass(name):
    def r(ck):
        n, _ = ck.var(ck.f(hdr(ck), "class"))
        ck.must("acc", ck.b(ck.val) == (n == name), "class %s: wrong answer to the %s query" % (n, name))
    return r


def isconstr(want):
    def r(ck):
        c = ck.b(ck.f(hdr(ck), "constructed"))
        ck.must("acc", ck.b(ck.val) == (c == want), "constructed=%s: wrong answer" % c)
    return r


def asserts(what, cond, err):
    def r(ck):
        c = cond(ck)
        ok, p = ck.result()
        ck.must("acc", ok == c, "assert_%s %s although the header %s" % (what, "succeeds" if ok else "fails", "matches" if c else "differs"))
        if not ok and not c:
            k = ck.errkind2(p)
            ck.must("acc", k in (None, err), "assert_%s reports %s" % (what, k))
    return r


def class_eq(ck):
    a, _ = ck.var(ck.f(hdr(ck), "class"))
    b, _ = ck.var(ck.args[1])
    return a == b


def tag_eq(ck):
    return ck.eq(ck.f(hdr(ck), "tag").f[0].l, ck.deref(ck.args[1]).f[0].l)


def constr(ck):
    return ck.b(ck.f(hdr(ck), "constructed"))


# ------------------------------------------------------------------ construction
def built(ck, o, content, kind):
    h = ck.deref(ck.f(o, "header"))
    ck.is_same("new", ck.f(o, "content"), content, "content")
    if kind in TAGNO:
        n, _ = ck.var(ck.f(h, "class"))
        ck.must("new", n == "Universal", "object built from %s content has class %s" % (kind, n))
        ck.must("new", ck.eq(ck.f(h, "tag").f[0].l, TAGNO[kind]), "object built from %s content has tag %r, expected %d" % (kind, ck.f(h, "tag").f[0].l, TAGNO[kind]))
        c = ck.b(ck.f(h, "constructed"))
        ck.must("new", c == (kind in ("Sequence", "Set")), "object built from %s content has constructed=%s" % (kind, c))
        ck.must("new", ck.opt(ck.f(h, "raw_tag")) is None, "object built from %s content has a raw tag" % kind)


def from_content(ck):
    kind, _ = ck.var(ck.args[0])
    built(ck, ck.deref(ck.val), ck.args[0], kind)


def from_value(kind):
    def r(ck):
        o = ck.deref(ck.val)
        k, f = ck.var(ck.f(o, "content"))
        if not ck.must("new", k == kind, "content kind is %s, expected %s" % (k, kind)):
            return
        ck.is_same("new", f[0], ck.args[0], "value")
        built(ck, o, ck.f(o, "content"), kind)
    return r


def from_parts(ck):
    o = ck.deref(ck.val)
    ck.is_same("new", ck.f(o, "header"), ck.args[0], "header")
    ck.is_same("new", ck.f(o, "content"), ck.args[1], "content")


def raw_tag(ck):
    o, i = ck.deref(ck.val), ck.deref(ck.args[0])
    ck.is_same("new", ck.f(o, "content"), ck.f(i, "content"), "content")
    h, g = ck.deref(ck.f(o, "header")), ck.deref(ck.f(i, "header"))
    for n in ("class", "tag", "constructed", "length"):
        ck.is_same("new", ck.f(h, n), ck.f(g, n), n)
    a, b = ck.opt(ck.f(h, "raw_tag")), ck.opt(ck.args[1])
    if (a is None) != (b is None):
        ck.bad("new", "raw tag is %s although %s was given" % ("absent" if a is None else "present", "one" if b is not None else "none"))
    elif a is not None:
        ck.is_same("new", cow(ck, a), b, "raw tag")


def cow(ck, v):
    n, f = ck.var(v)
    return f[0]


def clone(ck):
    ck.is_same("new", ck.val, ck.args[0], "clone")


def index(ck):
    """normal return only: the element at the position"""
    kind, f = content_of(ck, ck.args[0], True)
    if not ck.must("iter", kind in ("Sequence", "Set"), "indexing a %s returns an object" % kind):
        return
    v = ck.deref(f[0])
    n = v.length() if isinstance(v, VecV) else v.len
    if not ck.must("iter", ck.ge(n - 1, ck.args[1].l), "indexing beyond the children returns an object"):
        return
    want = child(ck, v, ck.args[1].l)
    same_ref(ck, ck.val, want, "indexed child", "iter")


def child(ck, v, i):
    if isinstance(v, SliceV):
        return ck.e.slice_elem(ck.st, v, i)
    return ck.e.elem(ck.st, v, i)


# ------------------------------------------------------------------ traversal
METHOD = {"T61String": "teletexstring", "VideotexString": "videotextstring", "RelativeOID": "relative_oid"}


def visit(ck, mut, depth):
    obj = ck.args[1]
    suf = "_mut" if mut else ""
    d0 = depth(ck)
    ev = list(ck.st.ghost("ev", VecV((), None)).segs)
    kind, f = ck.var(initial(ck, ck.f(initial(ck, obj), "content")))
    name = "visit_ber_" + METHOD.get(kind, kind.lower()) + suf
    evs = []
    for g in ev:
        if g[0] == "el":
            evs.append((g[1], None, None))
        elif g[0] == "gen":
            evs.append((g[1], g[2], g[3]))
        else:
            raise Undecided("events %r" % (g,))

    def want(i, m, args):
        if i >= len(evs):
            ck.bad("visit", "%s is never called for %s" % (m, kind))
            return False
        e, hole, _ = evs[i]
        got = e.f[0].key
        if hole is not None or got != (m,):
            ck.bad("visit", "for %s the callback %s is followed by %s, expected %s" % (kind, i, got[0], m))
            return False
        a = e.f[1:]
        for x, y, w in zip(a[:-1], args, range(9)):
            what = "argument %d of %s" % (w, m)
            if mut and isinstance(x, RefV) and not isinstance(x.cell, SliceV) and x.cell[0] not in ("H",):
                ck.bad("visit", what + " is a copy, not the stored value")
            same_ref(ck, x, y, what, "visit")
        ck.must("visit", ck.eq(a[-1].l, d0), "%s gets depth %r, expected %r" % (m, a[-1].l, d0))
        return True

    if not want(0, "visit_ber" + suf, [obj]):
        return
    if not want(1, name, f):
        return
    rest = evs[2:]
    n = K(0)
    kids = None
    if kind in ("Sequence", "Set"):
        kids = ck.deref(f[0])
        n = kids.length() if isinstance(kids, VecV) else kids.len
    pos = K(0)
    for e, hole, cnt in rest:
        if e.f[0].key[0] != "rec":
            ck.bad("visit", "extra callback %s for %s" % (e.f[0].key[0], kind))
            return
        if kids is None:
            ck.bad("visit", "a child of %s is traversed" % kind)
            return
        a, b = e.f[1].f, e.f[2].f
        if not (len(a) == 2 and len(b) == 2 and isinstance(a[1], IntV)):
            raise Undecided("nested traversal %r" % (e,))
        if not (ck.e.obj_key(ck.st, b[0]) == ck.e.obj_key(ck.st, obj) and ck.eq(b[1].l, d0)):
            raise Undecided("nested traversal inside another object")
        i = pos if hole is None else L(hole) + pos
        if hole is not None:
            ck.s.assume_ge(cnt - L(hole) - 1)
        if not ck.must("visit", ck.ge(n - 1, i), "more nested traversals than children"):
            return
        same_ref(ck, a[0], child(ck, kids, i), "object of nested traversal %r" % (pos,), "visit")
        ck.must("visit", ck.eq(a[1].l, d0 + 1), "nested traversal at depth %r, expected %r" % (a[1].l, d0 + 1))
        pos = pos + (1 if hole is None else cnt)
    ck.must("visit", ck.eq(pos, n), "%r children traversed of %r" % (pos, n))
    if mut:
        ck.is_same("visit", ck.deref(obj), initial(ck, obj), "object after the traversal")


def initial(ck, v):
    if isinstance(v, RefV):
        return ck.e.read(I.State(), v.cell, v.path)
    return v


# ------------------------------------------------------------------ iterators
def kids(ck, byval):
    """(list of children or None)"""
    o = initial(ck, ck.args[0])
    kind, f = ck.var(ck.f(o, "content"))
    return ck.deref(f[0]) if kind in ("Sequence", "Set") else None


def total(ck, byval):
    v = kids(ck, byval)
    if v is None:
        return K(1 if byval else 0)
    return v.length() if isinstance(v, VecV) else v.len


def before_end(ck, p, byval):
    return ck.ge(total(ck, byval), p)


def step(ck, p, byval):
    n = total(ck, byval)
    got = ck.opt(ck.val)
    if not ck.ge(n - 1, p):
        ck.must("iter", got is None, "position %r: an item is produced after the last one" % (p,))
        return
    if not ck.must("iter", got is not None, "position %r: the iteration ends before the last item" % (p,)):
        return
    v = kids(ck, byval)
    want = initial(ck, ck.args[0]) if v is None else child(ck, v, p)
    if byval:
        ck.is_same("iter", got, want, "item %r" % (p,))
    else:
        same_ref(ck, got, want, "item %r" % (p,), "iter")


def int_leaves(v, path=()):
    if isinstance(v, IntV):
        yield path, v
    elif isinstance(v, AggV):
        for i, x in enumerate(v.f):
            for y in int_leaves(x, path + (i,)):
                yield y


def set_leaf(v, path, x):
    if not path:
        return x
    f = list(v.f)
    f[path[0]] = set_leaf(f[path[0]], path[1:], x)
    return AggV(v.ty, v.var, f)


def counter(hist):
    """path of the integer component that equals the number of steps taken"""
    cand = None
    for k, states in enumerate(hist):
        for st, it in states:
            ps = {p for p, v in int_leaves(it) if st.store.norm(v.l).isc() and st.store.norm(v.l).c == k}
            cand = ps if cand is None else cand & ps
    if not cand:
        return None
    return sorted(cand)[0]
