"""Encoders: identifier octets, length octets (aspects ehdr, elen) and content octets (aspect econtent).

The output of an encoder is a sequence of segments: single octets, slices copied verbatim, and encodings written by a nested
activation of an encoder ("enc" segments: induction on the object, see Engine.write_call)."""
from base import *
from dom import Split
from interp import NAT
from spec import store_atoms
import hooks
import value

COPY = ["Integer", "OctetString", "BmpString", "UniversalString"] + value.STR


def fits(ck, x, j):
    """is x below 256^j"""
    x = ck.s.norm(x)
    hi = ck.s.bounds(x)[1]
    return hi is not None and hi < 256 ** j or ck.s.entails_ge(K(256 ** j - 1) - x)


def whole(ck, x):
    """sum of the byte digits of x that can be non-zero"""
    t = K(0)
    for j in range(8):
        if not fits(ck, x, j):
            t = t + ck.s.norm(L(atom(("op", "digit", x, j), BYTE))).scale(256 ** j)
    return t


def feasible(ck):
    """byte digits of a quantity add up to it"""
    xs = sorted({a.key[2] for a in store_atoms(ck.s) if a.key and a.key[:2] == ("op", "digit") and isinstance(a.key[2], Lin)}, key=str)
    for _ in range(len(xs) + 1):
        for x in xs:
            lo = hi = 0
            for j in range(8):
                b = ck.s.bounds(ck.s.norm(L(atom(("op", "digit", x, j), BYTE))))
                lo += b[0] << (8 * j)
                if not fits(ck, x, j):
                    hi += b[1] << (8 * j)
            if not ck.s.assume_in(ck.s.norm(x), ISet.rng(lo, hi)):
                raise Infeasible()


def rewrite(ck, l):
    """eliminate remainder atoms (x mod n = x - n*(x div n)) and the lowest byte digit (x minus its other digits)"""
    l = ck.s.norm(l)
    for _ in range(60):
        for a, k in l.t:
            q = a.key
            if q[0] == "op" and q[1] == "mod" and isinstance(q[2], Lin) and isinstance(q[3], int):
                by = q[2] - L(atom(("op", "div", q[2], q[3]), NAT)).scale(q[3])
                break
            if q[0] == "op" and q[1] == "digit" and isinstance(q[2], Lin) and q[3] == 0:
                by = q[2] - (whole(ck, q[2]) - L(a))
                break
        else:
            return l
        l = ck.s.norm(l - Lin(0, ((a, k),)) + by.scale(k))
    return l


def equal(ck, x, y):
    d = rewrite(ck, x - y)
    if d.isc():
        return d.c == 0
    return ck.eq(x, y)


def output(ck):
    ok, p = ck.result()
    if not ok:
        ck.bad("econtent", "encoding fails")
        return None
    if not isinstance(p, VecV):
        raise Undecided("output %r" % (p,))
    segs = list(norm_segs(ck.s, p.segs))
    feasible(ck)
    return segs


def seglen(g):
    if g[0] == "el":
        return K(1)
    if g[0] == "sub":
        return g[1].len
    if g[0] == "genc":
        return g[4]
    if g[0] in ("enc", "opq"):
        return g[2]
    raise Undecided("output segment %r" % (g[0],))


class Out:
    """reads an output from its start"""

    def __init__(self, ck, segs, aspect):
        self.ck, self.segs, self.aspect = ck, list(segs), aspect

    def octet(self, what):
        """next single octet"""
        if not self.segs:
            self.ck.bad(self.aspect, "output ends before %s" % what)
            return None
        g = self.segs[0]
        if g[0] == "el":
            self.segs.pop(0)
            return g[1].l
        if g[0] == "sub":
            s = g[1]
            if self.ck.eq(s.len, 0):
                self.segs.pop(0)
                return self.octet(what)
            v = self.ck.e.slice_elem(self.ck.st, s, K(0))
            self.segs[0] = ("sub", slc(s, 1, s.len))
            if isinstance(v, IntV):
                return v.l
        raise Undecided("%s is %r" % (what, g[0]))

    def rest(self):
        n = K(0)
        for g in self.segs:
            n = n + seglen(g)
        return n


def digits(ck, out, x, base, count, what, aspect, cont):
    """the next `count` octets are the digits of x, most significant first"""
    t = K(0)
    for i in range(count):
        o = out.octet(what)
        if o is None:
            return False
        if cont:
            last = i == count - 1
            lo, hi = (0, 127) if last else (128, 255)
            if not ck.isin(o, ISet.rng(lo, hi)):
                ck.bad(aspect, "%s: continuation bit of octet %d of %d is %s" % (what, i + 1, count, "set" if last else "clear"))
                return False
            o = o - lo
        t = t.scale(base) + o
    if not equal(ck, t, x):
        ck.bad(aspect, "%s: the octets written do not represent the value" % what)
        return False
    return True


def identifier(ck, out, cls, constructed, tag):
    o = out.octet("identifier octet")
    if o is None:
        return False
    cv = ck.deref(cls)
    if isinstance(cv, AggV):
        cn = K(cv.var)
    elif isinstance(cv, SymV):
        cn = L(cv.datom())
    else:
        raise Undecided("class %r" % (cv,))
    c = 32 if ck.b(constructed) else 0
    low = ck.ge(K(30), tag)
    want = cn.scale(64) + c + (tag if low else K(31))
    if not ck.eq(o, want):
        # which of the parts differs?
        ck.bad("ehdr", "identifier octet does not carry the class, constructed flag and %s" % ("tag number" if low else "the high-tag-number marker"))
        return False
    if low:
        return True
    k = 1
    while not ck.ge(K(128 ** k - 1), tag):
        k += 1
        if k > 5:
            raise Infeasible()
    return digits(ck, out, tag, 128, k, "tag number", "ehdr", True)


def length(ck, out, n, what="length", aspect="elen"):
    """definite length octets for the number n"""
    o = out.octet(what + " octet")
    if o is None:
        return False
    if ck.ge(K(127), n):
        if not ck.eq(o, n):
            ck.bad(aspect, "%s octet is not the number of content octets (short form)" % what)
            return False
        return True
    k = 1
    while not ck.ge(K(256 ** k - 1), n):
        k += 1
        if k > 8:
            raise Infeasible()
    if not ck.eq(o, K(0x80 + k)):
        ck.bad(aspect, "first %s octet does not announce the minimal long form" % what)
        return False
    return digits(ck, out, n, 256, k, what, aspect, False)


def header_value(ck, h):
    h = ck.deref(h)
    t = ck.deref(ck.f(h, "tag"))
    return ck.f(h, "class"), ck.f(h, "constructed"), t.f[0].l, ck.f(h, "length")


def own_length(ck, out, ln):
    n, f = ck.var(ln)
    if n == "Indefinite":
        o = out.octet("length octet")
        if o is not None and not ck.eq(o, K(0x80)):
            ck.bad("elen", "indefinite length is not written as 80")
        return o is not None
    return length(ck, out, f[0].l)


def enc_header(ck):
    segs = output(ck)
    if segs is None:
        return
    out = Out(ck, segs, "ehdr")
    cls, con, tag, ln = header_value(ck, ck.args[0])
    if identifier(ck, out, cls, con, tag) and own_length(ck, out, ln):
        if not ck.eq(out.rest(), 0):
            ck.bad("ehdr", "octets after the header")


# ------------------------------------------------------------------ content
def okey(ck, v):
    k = ck.e.obj_key(ck.st, v)
    if k is None:
        raise Undecided("object %r" % (v,))
    return k


def drop_field(k):
    return k[:-2] if len(k) >= 2 and k[-2] == "f" else k


def enc_seg(ck, g, want_key, want_full, what, entry_obj, entry_con):
    """an octet run written by a nested encoder: of the expected child, in the expected form (full element / content only)"""
    if g[0] != "enc":
        raise Undecided("%s is written as %r" % (what, g[0]))
    ent = ck.e.ledger.get(g[1])
    if not ent:
        raise Undecided("unknown nested encoder")
    return nested(ck, ent["full"], ent["inside"], ent["what"], want_key, want_full, what, entry_obj, entry_con)


def nested(ck, isfull, inside, whats, want_key, want_full, what, entry_obj, entry_con):
    ins = [k for k in inside if k is not None]
    ws = [k for k in whats if k is not None]
    if not (ins or isfull) or not ws:
        raise Undecided("nested encoder of %r inside %r" % (whats, inside))
    i, w = ins[0] if ins else None, ws[0]
    if isfull:
        full = True
    elif i == entry_con and i != entry_obj:
        full = False
    elif i == entry_obj:
        full = True
    else:
        raise Undecided("nested encoder active for %r" % (i,))
    if full != want_full:
        # the nested activation has the other role (element / content octets only)
        ck.bad("econtent", "%s: %s is written where %s is expected" % (what, "a full element" if full else "content only", "a full element" if want_full else "content only"))
        return False
    if w != want_key:
        if w[0] == "el" and want_key[0] == "el" and w[1] == want_key[1] and w[3:] == want_key[3:]:
            if ck.eq(w[2], want_key[2]):
                return True
        ck.bad("econtent", "%s: another object is encoded in its place" % what)
        return False
    return True


def content(ck, kind, f, segs, entry_obj, entry_con):
    """the segments are the content octets of this value"""
    out = Out(ck, segs, "econtent")

    def octets(ls, what):
        for l in ls:
            o = out.octet(what)
            if o is None:
                return
            if not ck.eq(o, l):
                ck.bad("econtent", "%s: octet written is wrong" % what)
                return
        done(what)

    def done(what):
        if not ck.eq(out.rest(), 0):
            ck.bad("econtent", "%s: further octets are written" % what)

    def verbatim(v, what):
        v = ck.deref(v)
        if isinstance(v, SymV) or isinstance(v, AggV):
            v = ck.deref(value.cow(ck, v))
        if isinstance(v, VecV):
            want = v
        elif isinstance(v, SliceV):
            want = VecV((("sub", v),), v.ety)
        else:
            raise Undecided("%s %r" % (what, v))
        ck.is_same("econtent", VecV(tuple(out.segs), want.ety), want, what)
    if kind in ("EndOfContent", "Null"):
        done(kind)
    elif kind == "Boolean":
        octets([K(255) if ck.b(f[0]) else K(0)], "BOOLEAN")
    elif kind in COPY:
        verbatim(f[0], kind)
    elif kind == "BitString":
        o = out.octet("unused bits")
        if o is None:
            return
        if not ck.eq(o, f[0].l):
            ck.bad("econtent", "unused-bit octet is not the stored count")
            return
        verbatim(ck.f(f[1], "data"), "BIT STRING data")
    elif kind == "Enum":
        x = f[0].l
        k = 1
        while not ck.ge(K((1 << (8 * k - 1)) - 1), x):
            k += 1
            if k > 9:
                raise Infeasible()
        if not ck.eq(out.rest(), k):
            ck.bad("econtent", "ENUMERATED is not written in its %d shortest octets" % k)
            return
        digits(ck, out, x, 256, k, "ENUMERATED value", "econtent", False)
    elif kind in ("OID", "RelativeOID"):
        verbatim(ck.f(f[0], "asn1"), kind)
    elif kind in ("UTCTime", "GeneralizedTime"):
        return
    elif kind == "Unknown":
        verbatim(ck.f(f[0], "data"), "raw content")
    elif kind == "Optional":
        inner = ck.opt(f[0])
        if inner is None:
            done("absent value")
            return
        if len(out.segs) != 1:
            raise Undecided("optional value in %d parts" % len(out.segs))
        enc_seg(ck, out.segs[0], okey(ck, inner) + ("f", 1), False, "optional value", entry_obj, entry_con)
    elif kind == "Tagged":
        if len(out.segs) != 1:
            raise Undecided("tagged value in %d parts" % len(out.segs))
        enc_seg(ck, out.segs[0], okey(ck, f[2]), True, "tagged value", entry_obj, entry_con)
    elif kind in ("Sequence", "Set"):
        children(ck, f[0], out, entry_obj, entry_con)
    else:
        raise Undecided(kind)


def children(ck, v, out, entry_obj, entry_con):
    v = ck.deref(v)
    if isinstance(v, VecV):
        subs = norm_segs(ck.s, v.segs)
        if not subs:
            v = None
        elif len(subs) == 1 and subs[0][0] == "sub":
            v = subs[0][1]
        else:
            raise Undecided("children %r" % (v,))
    n = v.len if v is not None else K(0)
    i = K(0)
    for j, g in enumerate(out.segs):
        if g[0] != "genc" and ck.eq(n, i):
            ck.bad("econtent", "more elements are written than the object has children")
            return
        if g[0] == "genc":
            # one nested encoding per element, from position i on
            _, t, h, cnt, _ = g
            _, fid, isfull, inside, whats = t.key
            h2 = L(h)
            ck.s.assume_ge(h2)
            if not ck.ge(n, i + cnt):
                ck.bad("econtent", "more elements are written than the object has children")
                return
            if not nested(ck, isfull, inside, whats, ("el", v.base, ck.s.norm(v.off + i + h2)), True, "child", entry_obj, entry_con):
                return
            i = i + cnt
            continue
        w = ("el", v.base, ck.s.norm(v.off + i))
        if not enc_seg(ck, g, w, True, "child %d" % j, entry_obj, entry_con):
            return
        i = i + 1
    if not ck.eq(n, i):
        ck.bad("econtent", "only %d children are written" % len(out.segs))


def keys(ck, obj=None, con=None):
    o = ck.e.obj_key(ck.st, obj) if obj is not None else None
    c = ck.e.obj_key(ck.st, con) if con is not None else (o + ("f", 1) if o is not None else None)
    return o, c


def enc_object(ck):
    obj = ck.args[-1]
    ov = ck.deref(obj)
    cls, con, tag, _ = header_value(ck, ck.f(ov, "header"))
    element(ck, cls, con, tag, obj)


def element(ck, cls, con, tag, obj):
    """header with the given fields, then the content of the object"""
    segs = output(ck)
    if segs is None:
        return
    kind, f = value.content_of(ck, obj, True)
    if kind == "Optional" and ck.opt(f[0]) is None:
        ck.must("econtent", not segs or ck.eq(Out(ck, segs, "econtent").rest(), 0), "octets are written for an absent optional object")
        return
    body(ck, cls, con, tag, kind, f, segs, obj)


def body(ck, cls, con, tag, kind, f, segs, obj):
    out = Out(ck, segs, "ehdr")
    if not identifier(ck, out, cls, con, tag):
        return
    # the length octets are self-delimiting: their value must be the number of octets that follow them
    if not counted(ck, out):
        return
    o, c = keys(ck, obj)
    content(ck, kind, f, out.segs, o, c)


def counted(ck, out):
    o = out.octet("length octet")
    if o is None:
        return False
    if ck.ge(K(127), o):
        if not ck.eq(o, out.rest()):
            ck.bad("elen", "length octet differs from the number of content octets written")
            return False
        return True
    o = ck.s.norm(o)
    if not o.isc():
        d = ck.s.dom_of(o)
        if d.count() > 16:
            raise Undecided("long form of unknown size")
        raise Split([("eq", o - x) for x in d])
    k = o.c - 128
    if k == 0 or k > 8:
        ck.bad("elen", "first length octet %d is not a definite form" % o.c)
        return False
    t = K(0)
    for i in range(k):
        x = out.octet("length octet")
        if x is None:
            return False
        t = t.scale(256) + x
    n = out.rest()
    if not equal(ck, t, n):
        ck.bad("elen", "length octets (long form) differ from the number of content octets written")
        return False
    if ck.ge(K(127), n):
        ck.bad("elen", "long form is used for fewer than 128 octets")
        return False
    if ck.ge(K(256 ** (k - 1) - 1), n):
        ck.bad("elen", "long form is not minimal")
        return False
    return True


def enc_raw(ck):
    """header verbatim (its own length), then the content"""
    segs = output(ck)
    if segs is None:
        return
    out = Out(ck, segs, "ehdr")
    cls, con, tag, ln = header_value(ck, ck.args[0])
    if not identifier(ck, out, cls, con, tag) or not own_length(ck, out, ln):
        return
    kind, f = ck.var(ck.deref(ck.args[1]))
    k = ck.e.obj_key(ck.st, ck.args[1])
    content(ck, kind, f, out.segs, None, k)


def enc_implicit(ck):
    obj = ck.args[2]
    ov = ck.deref(obj)
    _, con, _, _ = header_value(ck, ck.f(ov, "header"))
    segs = output(ck)
    if segs is None:
        return
    kind, f = value.content_of(ck, obj, True)
    body(ck, ck.args[1], con, ck.deref(ck.args[0]).f[0].l, kind, f, segs, obj)


def enc_explicit(ck):
    obj = ck.args[2]
    ov = ck.deref(obj)
    cls, con, tag, _ = header_value(ck, ck.f(ov, "header"))
    segs = output(ck)
    if segs is None:
        return
    out = Out(ck, segs, "ehdr")
    if not identifier(ck, out, ck.args[1], TRUE, ck.deref(ck.args[0]).f[0].l) or not counted(ck, out):
        return
    kind, f = value.content_of(ck, obj, True)
    if kind == "Optional" and ck.opt(f[0]) is None:
        ck.must("econtent", ck.eq(out.rest(), 0), "octets are written for an absent optional object")
        return
    body(ck, cls, con, tag, kind, f, out.segs, obj)


# ------------------------------------------------------------------ jobs: one per content kind
ENTRIES = {"enc_object": enc_object, "to_vec": enc_object, "enc_object_raw": enc_raw, "enc_tagged_explicit": enc_explicit, "enc_tagged_implicit": enc_implicit}

MODULAR = ("enc_object_raw", "enc_tagged_implicit")
NESTING = ("Sequence", "Set", "Tagged", "Optional")


def full_encoders(p):
    """functions that, in an analysis of the object encoder, are applied again to a nested object while active for the whole one:
    they write full elements (the object encoder's own check proves it), and are summarised where they are not yet active"""
    e = I.Engine(p, hooks.Hooks())
    e.run_entry("entry_enc_object", pre=pre("Tagged", True), prefix="q")
    return {x["fid"] for x in e.ledger.values() if ("qa0",) in x.get("inside", ())}


def pre(kind, small, modular=False):
    """restrict the object (last argument) to one content kind; small: tag numbers up to 30"""
    def f(e, st, args):
        if modular:
            e.enc_full = full_encoders(e.p)
        o = args[-1]
        v = e.read(st, o.cell, o.path)
        if isinstance(v, AggV):
            t = e.p.types[v.ty]
            names = [n for n, _ in t["variants"][0]["fields"]]
            if small:
                limit_tag(e, st, v.f[names.index("header")])
            v = v.f[names.index("content")]
        names = [x["name"] for x in e.p.types[v.ty]["variants"]]
        if kind not in names or not st.store.assume_eq(L(v.datom()) - names.index(kind)):
            return False
        if small:
            for a in args[:-1]:
                if isinstance(a, RefV):
                    limit_tag(e, st, e.read(st, a.cell, a.path))
                elif isinstance(a, AggV) and len(a.f) == 1 and isinstance(a.f[0], IntV):
                    st.store.assume_ge(K(30) - a.f[0].l)
    return f


def limit_tag(e, st, h):
    names = [n for n, _ in e.p.types[h.ty]["variants"][0]["fields"]]
    st.store.assume_ge(K(30) - h.f[names.index("tag")].f[0].l)
