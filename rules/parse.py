"""Reference semantics of element parsing (BER and DER), compared with the analysed outcomes."""
from base import *


# ------------------------------------------------------------------ indefinite length: what the skipper consumed
def skip_extent(ck, s, rem, depth=None):
    """rem is the remainder after an indefinite-length content starting at s: returns the number of bytes consumed,
    after checking that it is what a (separately verified) skipper reported for exactly this position"""
    diff = ck.s.norm(rem.off - s.off)
    if rem.base != s.base:
        raise Undecided("remainder of another buffer")
    cand = []
    for a, k in diff.t:
        if k == 1:
            cand.append(a)
    for a in cand:
        if a.key[:2] == ("len", "indef"):
            if a.key[2] == s.base and ck.s.decide(("eq", lin(a.key[3]) - s.off)) is True:
                if ck.d(("eq", diff - L(a) - 2)):
                    return diff
                raise Mismatch("%r bytes consumed after the header, expected content %r + 2" % (diff, a))
        if a.key[0] == "i" and a.key[-1] == "consumed":
            r = find_ledger(ck, a.key[1:-1])
            if r is None:
                continue
            sl = ck.e.first_slice(r["args"])
            if sl is not None and sl.base == s.base and ck.s.decide(("eq", sl.off - s.off)) is True:
                if ck.d(("eq", diff - L(a))):
                    skip_call(ck, r, depth)
                    return diff
                raise Mismatch("%r bytes consumed after the header, the skipped content has %r" % (diff, a))
    for a in list(ck.s.subst) + list(ck.s.vs):
        if a.key[0] == "i" and a.key[-1] == "consumed" and ck.s.decide(("eq", diff - L(a))) is True:
            r = find_ledger(ck, a.key[1:-1])
            sl = ck.e.first_slice(r["args"]) if r else None
            if sl is not None and sl.base == s.base and ck.s.decide(("eq", sl.off - s.off)) is True:
                skip_call(ck, r, depth)
                return diff
    a = atom(("len", "indef", s.base, ck.s.norm(s.off)), ISet.rng(0, LENMAX))
    if ck.s.decide(("eq", diff - L(a) - 2)) is True:
        return diff
    raise Undecided("extent of an indefinite-length value: %r" % (diff,))


def skip_call(ck, r, depth):
    """the skipper gets an indefinite length and what is left of the budget; what it does is verified separately"""
    info = role_of(ck, r)[1]
    if info["hdr"] is None or info["slice"] is None or info["depth"] is None:
        return
    if ck.p.fns[r["fid"]]["krate"] != "asn1_rs":          # the dependency is trusted
        ck.o.setdefault("roles", set()).add((r["fid"], "skip", False, ()))
    if ck.var(info["length"])[0] != "Indefinite":
        raise Mismatch("the content of an indefinite-length element is skipped as if its length were definite")
    if depth is None:
        return
    d = lin(depth)
    if not ck.ge(d, info["depth"]):
        ck.bad("depth", "indefinite-length content is skipped with a budget of %r of which only %r is left" % (info["depth"], d))
    elif not ck.ge(info["depth"], d):
        ck.bad("reject", "indefinite-length content is skipped with a budget of %r although %r is left" % (info["depth"], d))


def skipper(ck, info):
    """the function that skips the content of an element, one step: definite lengths skip that many bytes; an indefinite length
    skips element after element, each with its own header and one level less, up to and including the end-of-content marker"""
    act = ck.result()
    s, d = info["slice"], lin(info["depth"])
    h = Given(ck, info["hdr"])
    if ck.eq(d, 0):
        if act[0]:
            ck.bad("depth", "content is skipped although the depth budget is exhausted")
        return

    def expect(rem, eoc, why):
        if not act[0]:
            ck.bad("reject", "%s is rejected (%s)" % (why, ck.errkind(act[1])))
            return
        r, fl = ck.iok(act[1])
        if not isinstance(fl, BoolV):
            raise Undecided("the skipper reports %r" % (fl,))
        ck.is_same("rem", r, rem, "remaining input after " + why)
        if ck.b(fl) != eoc:
            ck.bad("rem", "%s is %staken for the end of the contents" % (why, "not " if eoc else ""))
    n, f = ck.var(h.length)
    if n == "Definite":
        l = f[0].l
        if ck.eq(l, 0) and ck.eq(h.tag, 0) and ck.universal(h.cls):
            return expect(s, True, "an end-of-content marker")
        if not ck.ge(s.len, l):
            if act[0]:
                ck.bad("trunc", "content longer than the input is skipped")
            return
        return expect(slc(s, l, s.len), False, "definite-length content")
    if not ck.b(h.constructed):
        if act[0]:
            ck.bad("constr", "a primitive element with indefinite length is skipped")
        return
    pos = ZERO
    for k in range(200):
        at = slc(s, pos, s.len)
        e = Hdr(ck, at)
        if not e.ok(False):
            if act[0]:
                ck.bad("rem", "skipping an indefinite-length element succeeds although a nested header is invalid")
            return
        r = step_call(ck, e.rest())
        if r is None:
            if not act[0]:
                if ck.errkind(act[1]) is None:
                    raise Undecided("error of an unknown call")
                ck.bad("reject", "skipping an indefinite-length element fails (%s) at a valid nested header" % ck.errkind(act[1]))
                return
            raise Undecided("nested element at %r is not skipped by a summarised call" % (pos,))
        key, ent = r
        i2 = role_of(ck, ent)[1]
        if i2["hdr"] is None or i2["depth"] is None:
            raise Undecided("nested skip without a header")
        ck.is_same("rem", i2["hdr"], e.val, "header of the nested element that is skipped")
        d2 = lin(i2["depth"])
        if not ck.ge(d - 1, d2):
            ck.bad("depth", "a nested element is skipped with a budget of %r, only %r is left" % (d2, d - 1))
        elif not ck.ge(d2, d - 1):
            ck.bad("reject", "a nested element is skipped with a budget of %r although %r is left" % (d2, d - 1))
        rty = ck.p.fns[ent["fid"]]["body"]["locals"][0]
        v, g = ck.var(SymV(key, rty, ck.p.symdom(rty)))
        if v != "Ok":
            if act[0]:
                ck.bad("rem", "skipping an indefinite-length element succeeds although a nested element is invalid")
            return
        used = L(atom(("i",) + key + ("consumed",), ISet.rng(0, LENMAX)))
        pos = pos + e.h + used
        fl = ck.tup(g[0])[1]
        if not isinstance(fl, BoolV):
            raise Undecided("the skipper reports %r" % (fl,))
        if ck.b(fl):
            return expect(slc(s, pos, s.len), False, "indefinite-length content")
    raise Undecided("unbounded number of nested elements")


def step_call(ck, at):
    found = None
    for k, r in ck.e.ledger.items():
        sl = ck.e.first_slice(r["args"])
        if sl is not None and sl.base == at.base and ck.s.decide(("eq", sl.off - at.off)) is True:
            rty = ck.p.fns[r["fid"]]["body"]["locals"][0]
            if ck.s.norm(L(SymV(k, rty, ck.p.symdom(rty)).datom())).isc():      # made on this path
                return k, r
            found = k
    if found is not None:
        raise Undecided("nested call recorded on another path only")
    return None


def find_ledger(ck, key):
    key = tuple(key)
    r = ck.e.ledger.get(key)
    if r is not None:
        return r
    nk = nkey(ck, key)
    for k, r in ck.e.ledger.items():
        if len(k) == len(key) and nkey(ck, k) == nk:
            return r
    return None


def nkey(ck, k):
    return tuple(ck.s.norm(x) if isinstance(x, Lin) else nkey(ck, x) if isinstance(x, tuple) else x for x in k)


def result_of(ck, v):
    """(ledger entry, suffix) if v is (a part of) the result of a summarised recursive call"""
    k = first_key(v)
    if k is None:
        return None
    k = tuple(k)
    for n in range(len(k), 1, -1):
        r = ck.e.ledger.get(k[:n])
        if r is not None:
            return r, k[n:]
    if k and k[0] == "rec":
        nk = nkey(ck, k)
        for q, r in ck.e.ledger.items():
            m = nkey(ck, q)
            if nk[:len(m)] == m:
                return r, k[len(q):]
    return None


# ------------------------------------------------------------------ outcomes
class Err_:
    """the parse must fail; aspect names what accepting would break; kinds: the allowed error kinds (None: any)"""

    def __init__(self, aspect, why, kinds=None, kaspect=None):
        self.aspect, self.why, self.kinds, self.kaspect = aspect, why, kinds, kaspect


class Ok_:
    def __init__(self, content, rem, check, may_fail=False, kinds=None):
        self.content, self.rem, self.check, self.may_fail = content, rem, check, may_fail
        self.kinds = kinds


def compare(ck, exp, act, get_content, what, der=False):
    """act: (isok, payload)"""
    isok, p = act
    if isinstance(exp, Err_):
        if isok:
            ck.bad(exp.aspect, "accepted although %s" % exp.why)
            return
        k = ck.errkind(p)
        if exp.kinds is not None and k is not None and k not in exp.kinds:
            ck.bad(exp.kaspect or exp.aspect, "reports %s although %s" % (k, exp.why))
        if der and k == "DerConstraintFailed" and exp.kinds is not None and k not in exp.kinds and not exp.aspect.startswith("der"):
            ck.bad("derspurious", "reports a DER constraint failure although %s" % exp.why)
        return
    if not isok:
        if exp.may_fail:
            return
        k = ck.errkind(p)
        ck.bad("reject", "rejects (%s) a complete, well-formed element" % k)
        if k == "DerConstraintFailed":
            ck.bad("derspurious", "reports a DER constraint failure for a value satisfying its constraint")
        if k == "UnexpectedTag":
            ck.bad("tagerr", "reports an unexpected tag for the expected one")
        if k == "BerMaxDepth":
            ck.bad("deptherr", "reports an exhausted depth budget although it is not")
        return
    rem, val = ck.iok(p)
    if exp.rem is not None:
        ck.is_same("rem", rem, exp.rem, "remaining input")
    exp.check(ck, get_content(val))


# ------------------------------------------------------------------ content values
def content(ck, s, tag, length, constructed, depth, der, act_rem, size_limit=True, header=None, exact=None):
    """expected outcome of reading content from s (the bytes after the header).
    act_rem: actual remaining slice if the analysed outcome is Ok (needed for indefinite length)."""
    n, f = ck.var(length)
    if n == "Indefinite":
        if der:
            return Err_("indef", "the length is indefinite")
        if not ck.b(constructed):
            return Err_("constr", "an indefinite length requires the constructed form")
        if depth is not None and ck.eq(depth, 0):
            return Err_("depth", "the depth budget is exhausted", {"BerMaxDepth", "Incomplete"}, "deptherr")
        if act_rem is None:
            return Ok_(None, None, None, may_fail=True)
        try:
            used = skip_extent(ck, s, act_rem, depth)
        except Mismatch as m:
            ck.bad("rem", m.msg)
            return Ok_(None, None, lambda ck, c: None, may_fail=True)
        c = slc(s, 0, used - 2)
        rem = slc(s, used, s.len)
        may = True
    else:
        l = f[0].l
        big = ck.ge(l, MAXSIZE + 1)
        short = not ck.ge(s.len, l)
        zero = depth is not None and ck.eq(depth, 0)
        kinds = set()
        if big and size_limit:
            kinds |= {"InvalidLength"}
        if short:
            kinds |= {"Incomplete"}
        if zero:
            kinds |= {"BerMaxDepth"}
        if kinds:
            if der and not short:
                r = value(ck, slc(s, 0, l), tag, constructed, depth, der, header, False)
                if isinstance(r, Err_):
                    if r.kinds is None:
                        kinds = None
                    else:
                        kinds |= r.kinds
            if big and size_limit and not short:
                return Err_("size", "the declared length exceeds MAX_OBJECT_SIZE", kinds, "sizeerr")
            if short:
                return Err_("trunc", "the declared length exceeds the input", None)
            return Err_("depth", "the depth budget is exhausted", kinds, "deptherr")
        c = slc(s, 0, l)
        rem = slc(s, l, s.len)
        may = False
    r = value(ck, c, tag, constructed, depth, der, header, may)
    if isinstance(r, Err_):
        return r
    chk, may2 = r
    return Ok_(c, rem, chk, may_fail=may or may2)


DERC = {"DerConstraintFailed"}


def bit(ck, b, i):
    return ck.d(("in", b, ISet.vals([x for x in range(256) if x >> i & 1])))


def value(ck, c, tag, constructed, depth, der, header, may):
    """expected content for octets c under universal tag number `tag`: Err_ or (checker, may_fail)"""
    t = ck.tagval(tag)
    kind = TAGS.get(t)
    byte = lambda o: byte_at(ck, c, o)

    def want(kindname, fields=None, asp="content"):
        def chk(ck, v):
            got, f = ck.var(v)
            if got != kindname:
                ck.bad("kind", "content kind is %s, tag %s prescribes %s" % (got, t, kindname))
                return
            if fields:
                fields(ck, f)
        return chk

    def sl(asp="content"):
        return lambda ck, f: ck.is_same(asp, f[0], c, "content octets")

    con = ck.b(constructed)
    if kind is None:
        def chk(ck, v):
            got, f = ck.var(v)
            if got != "Unknown":
                ck.bad("kind", "content kind is %s for a tag number without a content kind" % got)
                return
            unknown(ck, f[0], c, header, tag=tag, constructed=constructed, universal=True)
        return chk, False
    if kind == "EndOfContent" or kind == "Null":
        return want(kind), False
    if kind == "Boolean":
        if not ck.eq(c.len, 1):
            return Err_("der:bool" if der else "value", "a BOOLEAN has exactly one content octet", {"InvalidLength"} if der else None, "derkind")
        b = byte(0)
        if der and not ck.isin(b, ISet.vals([0, 255])):
            return Err_("der:bool", "the BOOLEAN octet is neither 00 nor FF", DERC | {"InvalidLength"}, "derkind")

        def f(ck, fs):
            v = ck.b(fs[0])
            nz = ck.d(("ne", b))
            if v != nz:
                ck.bad("value", "BOOLEAN is %s for octet %r" % (v, b))
        return want(kind, f), con
    if kind == "Integer":
        if der:
            if ck.eq(c.len, 0):
                return Err_("der:int", "the INTEGER is empty", DERC, "derkind")
            if ck.ge(c.len, 2) and ck.eq(byte(0), 0) and not ck.ge(byte(1), 128):
                return Err_("der:int", "the INTEGER has a redundant leading zero", DERC, "derkind")
        return want(kind, sl()), con
    if kind == "BitString":
        if der and con:
            return Err_("der:constr", "the BIT STRING is constructed", DERC, "derkind")
        if ck.eq(c.len, 0):
            return Err_("value", "the BIT STRING has no content octet")
        if con:
            return Err_("constr", "constructed bit strings are not supported")
        ub = byte(0)
        if der:
            if not ck.isin(ub, ISet.rng(0, 7)):
                return Err_("der:bits", "the BIT STRING has more than 7 unused bits")
            n = const(ck, ub, 0, 7)
            if ck.eq(c.len, 1):
                if n:
                    return Err_("der:bits", "the empty BIT STRING declares unused bits")
            elif n:
                last = byte(c.len - 1)
                if not ck.isin(last, ISet.vals([x for x in range(256) if x & ((1 << n) - 1) == 0])):
                    return Err_("der:bits", "padding bits are not zero", DERC, "derkind")

        def f(ck, fs):
            ck.is_same("value", fs[0], IntV(ub), "unused-bit count")
            d = ck.deref(fs[1])
            ck.is_same("content", ck.f(d, "data"), slc(c, 1, c.len), "bit string data")
        return want(kind, f), False
    if kind == "OctetString":
        if der and con:
            return Err_("der:constr", "the OCTET STRING is constructed", DERC, "derkind")
        return want(kind, sl()), False
    if kind in ("OID", "RelativeOID"):
        def f(ck, fs):
            o = ck.deref(fs[0])
            n, g = ck.var(ck.f(o, "asn1"))
            if n != "Borrowed":
                ck.bad("borrow", "the OID is copied")
                return
            ck.is_same("content", g[0], c, "content octets")
            if ck.b(ck.f(o, "relative")) != (kind == "RelativeOID"):
                ck.bad("value", "relative flag of the OID")
        bad = con or ck.eq(c.len, 0) or ck.ge(byte(c.len - 1), 128)
        return want(kind, f), bad
    if kind == "Enum":
        n = ck.s.norm(c.len)
        if con:
            return want(kind), True
        big = ck.ge(c.len, 9)
        if big:
            return want(kind), True
        n = const(ck, c.len, 0, 8)
        tot = ZERO
        for i in range(n):
            tot = tot + byte(i).scale(256 ** (n - 1 - i))
        if n > 4 and ck.ge(tot, 1 << 32):
            return Err_("value", "the ENUMERATED value exceeds 32 bits")

        def f(ck, fs):
            ck.is_same("value", fs[0], IntV(tot), "ENUMERATED value")
        return want(kind, f), n == 0
    if kind in STRINGS:
        if con:
            if der:
                return Err_("der:constr", "the string is constructed", DERC, "derkind")
            return Err_("str", "the string is constructed")
        vs = N.CHARSETS.get(STRINGS[kind])
        if vs is None:
            if kind not in ("UTF8String",):
                raise Undecided("no charset table for " + kind)
        elif not charset(ck, c, vs):
            return Err_("str", "a content octet is outside the character set of %s" % kind)
        if vs is None or not vs.subset(ISet.rng(0, 127)):
            if not utf8(ck, c):
                return Err_("str", "the content is not valid UTF-8")

        def f(ck, fs):
            ck.is_same("content", fs[0], c, "text")
            ck.is_same("str", fs[0], c, "text")
        return want(kind, f), False
    if kind == "UniversalString":
        if con:
            return Err_("der:constr" if der else "str", "the string is constructed", DERC if der else None, "derkind")
        return want(kind, lambda ck, fs: ck.is_same("content", fs[0], c, "content octets")), False
    if kind == "BmpString":
        if con:
            return Err_("der:constr" if der else "str", "the string is constructed", DERC if der else None, "derkind")
        if not even(ck, c.len):
            return Err_("str", "the BMPString has an odd number of octets")
        if not ck.eq(c.len, 0) and not utf16(ck, c):
            return Err_("str", "the content is not valid UTF-16")

        def f(ck, fs):
            ck.is_same("content", fs[0], c, "content octets")
            ck.is_same("str", fs[0], c, "content octets")
        return want(kind, f), False
    if kind in ("UTCTime", "GeneralizedTime"):
        if der:
            if ck.eq(c.len, 0) or not ck.eq(byte(c.len - 1), ord("Z")):
                return Err_("der:time", "the time does not end in Z", DERC, "derkind")

        def f(ck, fs):
            k = first_key(ck.deref(fs[0]))
            nm = "utctime" if kind == "UTCTime" else "generalizedtime"
            if k is None or k[0] not in ("utctime", "generalizedtime"):
                ck.und.append(("content", "time value %r" % (fs[0],)))
                return
            if k[0] != nm:
                ck.bad("kind", "%s read as %s" % (kind, k[0]))
                return
            ck.is_same("content", SliceV(k[1], lin(k[2]), lin(k[3]), c.ety), c, "octets the time was read from")
        return want(kind, f), not time_ok(ck, c, kind.lower())
    if kind in ("Sequence", "Set"):
        if not con:
            return Err_("constr", "a %s is constructed" % kind)

        def f(ck, fs):
            children(ck, fs[0], c, depth, der)
        return want(kind, f), not ck.eq(c.len, 0)
    raise Undecided("kind " + kind)


def time_ok(ck, c, nm):
    """on this path the time parser of asn1-rs accepted exactly these octets"""
    for tab in (ck.s.vs, ck.s.subst):
        for a in list(tab):
            k = a.key
            if k[:2] == ("discr", nm) and len(k) > 5 and k[2] == c.base and ck.s.decide(("eq", L(a))) is True and \
                    ck.s.decide(("eq", lin(k[3]) - c.off)) is True and ck.s.decide(("eq", lin(k[4]) - c.len)) is True:
                return True
    return False


def byte_at(ck, c, o):
    v = ck.e.slice_elem(ck.st, c, lin(o))
    if isinstance(v, IntV):
        return ck.s.norm(v.l)
    raise Undecided("byte")


def const(ck, l, lo, hi):
    n = ck.s.norm(l)
    if n.isc():
        return n.c
    d = ck.s.dom_of(n)
    vals = [x for x in range(lo, hi + 1) if d.has(x)]
    raise Split([("eq", n - x) for x in vals])


def even(ck, l):
    """parity through the parity atom the analysis itself uses"""
    l = ck.s.norm(l)
    if l.isc():
        return l.c % 2 == 0
    r = ck.e.rem(ck.st, IntV(l), IntV(K(2)), None) if False else None
    q = parity(ck, l)
    return ck.d(("eq", q))


def parity(ck, l):
    v = ck.e.rem(ck.st, l, K(2), usize(ck.p))
    return v.l if isinstance(v, IntV) else v


_us = {}


def usize(p):
    r = _us.get(id(p))
    if r is None:
        for t, ty in p.types.items():
            if ty["k"] == "int" and ty["s"] == "usize":
                r = t
        _us[id(p)] = r
    return r


def charset(ck, c, vs):
    if N.all_in(ck.s, c, vs):
        return True
    n = ck.s.norm
    pa = atom(("b", "charset", vs.iv, c.base, n(c.off), n(c.len)), BOOL)
    if ck.eq(c.len, 0):
        return True
    if ck.d(("eq", L(pa) - 1)):
        ck.s.add_allin(c.base, c.off, c.off + c.len, vs)
        return True
    return False


def utf8(ck, c):
    if ck.eq(c.len, 0):
        return True
    n = ck.s.norm
    return ck.d(("eq", L(atom(("b", "utf8", c.base, n(c.off), n(c.len)), BOOL)) - 1))


def units(ck, c, key):
    """code units that are known functions of the input bytes, but not the big-endian ones of the content"""
    def unit(l, i):
        w = lin(l) - (L(atom(("byte", c.base, ck.s.norm(c.off + i.scale(2))), BYTE)).scale(256) + L(atom(("byte", c.base, ck.s.norm(c.off + i.scale(2) + 1)), BYTE)))
        if all(x.key[0] == "byte" for x, _ in lin(l).t) and ck.s.decide(("eq", w)) is not True:
            raise Mismatch("the text that is validated is not the content: code unit %r is %r" % (i, lin(l)))
    if key[0] == "ugen":
        if ck.s.decide(("eq", lin(key[3]).scale(2) - c.len)) is False:
            raise Mismatch("the text that is validated has %r code units, the content has %r bytes" % (lin(key[3]), c.len))
        if ck.s.decide(("eq", lin(key[3]).scale(2) - c.len)) is True and not ck.eq(c.len, 0):
            unit(key[2], lin(key[1]))
    if key[0] == "uels":
        if ck.s.decide(("eq", c.len - 2 * (len(key) - 1))) is False:
            raise Mismatch("the text that is validated has %d code units, the content has %r bytes" % (len(key) - 1, c.len))
        if ck.s.decide(("eq", c.len - 2 * (len(key) - 1))) is True:
            for i, l in enumerate(key[1:]):
                unit(l, K(i))


def utf16(ck, c):
    """validity of the big-endian UTF-16 units of c, named as the analysis names it"""
    n = ck.s.norm
    other = False
    for st_atoms in (ck.s.vs, ck.s.subst):
        for a in list(st_atoms):
            if a.key[:2] == ("b", "utf16"):
                if a.key[2] != "be16":
                    other = True
                    try:
                        units(ck, c, a.key[2:])
                    except Mismatch as m:
                        ck.bad("str", m.msg)
                elif a.key[3] == c.base and ck.s.decide(("eq", lin(a.key[4]) - c.off)) is True and \
                        ck.s.decide(("eq", lin(a.key[5]).scale(2) - c.len)) is True:
                    return ck.d(("eq", L(a) - 1))
    if other:
        raise Undecided("utf16 units")
    return ck.d(("eq", L(atom(("b", "utf16", "be16", c.base, n(c.off), n(c.len), "spec"), BOOL)) - 1))


def unknown(ck, any_, c, header, tag=None, constructed=None, universal=None):
    any_ = ck.deref(any_)
    ck.is_same("content", ck.f(any_, "data"), c, "raw content of the unknown element")
    h = ck.f(any_, "header")
    if header is not None:
        ck.is_same("header", ck.f(h, "class"), header.cls, "class kept in the unknown content")
    elif universal:
        ck.must("header", ck.var(ck.f(h, "class"))[0] == "Universal", "class kept in the unknown content")
    if tag is not None:
        ck.is_same("header", ck.f(h, "tag").f[0], IntV(tag), "tag kept in the unknown content")
    if constructed is not None:
        ck.is_same("header", ck.f(h, "constructed"), constructed, "constructed flag kept in the unknown content")


# ------------------------------------------------------------------ nested elements
def children(ck, vec, c, depth, der):
    vec = ck.deref(vec)
    if not isinstance(vec, VecV):
        raise Undecided("children %r" % (vec,))
    pos = ZERO
    for g in norm_segs(ck.s, vec.segs):
        if g[0] != "el":
            if ck.st.taint:
                return
            raise Undecided("children %r" % (g[0],))
        o = g[1]
        if ck.ge(pos, c.len):
            ck.bad("child", "more children than the content holds")
            return
        s = slc(c, pos, c.len)
        try:
            used = child(ck, o, s, depth, der)
        except Mismatch as m:
            ck.bad("child", m.msg)
            return
        if used is None:
            return
        pos = pos + used
    if not ck.eq(pos, c.len):
        ck.bad("child", "the children cover %r of %r content octets" % (ck.s.norm(pos), ck.s.norm(c.len)))


def child(ck, o, s, depth, der):
    """o is the child object that must have been parsed from the start of s; returns the bytes it covers"""
    o = ck.deref(o)
    r = result_of(ck, o)
    d1 = None if depth is None else lin(depth) - 1
    h = Hdr(ck, s)
    if r is not None:
        ent, suffix = r
        role, info = role_of(ck, ent)
        ck.role(ent, role, der)
        if role == "slice":
            sl = info["slice"]
            if not (sl.base == s.base and ck.eq(sl.off, s.off)):
                raise Mismatch("a child is parsed at %r, expected at %r" % (ck.s.norm(sl.off), ck.s.norm(s.off)))
            if not ck.eq(sl.len, s.len):
                raise Mismatch("a child is parsed from %r octets, the content has %r left" % (ck.s.norm(sl.len), ck.s.norm(s.len)))
            budget(ck, info, d1)
            k = info["key"]
            return L(atom(("i",) + tuple(k) + ("consumed",), ISet.rng(0, LENMAX)))
        if role == "any":
            a = info["any"]
            if not h.ok(der):
                raise Mismatch("a child is built although no header can be read")
            ah = ck.f(a, "header")
            for nm in ("class", "constructed", "tag", "length"):
                ck.same(ck.f(ah, nm), ck.f(h.val, nm), "child header " + nm)
            d = ck.deref(ck.f(a, "data"))
            rest = h.rest()
            n, f = ck.var(h.length)
            budget(ck, info, d1)
            if n == "Definite":
                l = f[0].l
                if not ck.ge(rest.len, l):
                    raise Mismatch("a truncated child is accepted")
                ck.same(d, slc(rest, 0, l), "content octets of a child")
                return h.h + l
            ind = L(atom(("len", "indef", rest.base, ck.s.norm(rest.off)), ISet.rng(0, LENMAX)))
            ck.same(d, slc(rest, 0, ind), "content octets of an indefinite-length child")
            return h.h + ind + 2
        if role == "content" and info.get("hdr") is not None:
            if not h.ok(der):
                raise Mismatch("a child is built although no header can be read")
            rest = h.rest()
            sl = info["slice"]
            if not (sl.base == s.base and ck.eq(sl.off, rest.off) and ck.eq(sl.len, rest.len)):
                raise Mismatch("child content is read from %r, expected from %r" % (sl, rest))
            for nm in ("class", "constructed", "tag", "length"):
                ck.same(ck.f(info["hdr"], nm), ck.f(h.val, nm), "child header " + nm)
            budget(ck, info, d1)
            return h.h + L(atom(("i",) + tuple(info["key"]) + ("consumed",), ISet.rng(0, LENMAX)))
        raise Undecided("role of %s" % ent["path"])
    # the child was parsed without a summarised call: compare in place
    if not h.ok(der):
        raise Mismatch("a child is built although no %s header can be read" % ("DER" if der else "BER"))
    ck.same(ck.f(o, "header"), h.val, "child header")
    cont = ck.f(o, "content")
    rest = h.rest()
    r = result_of(ck, cont)
    n, f = ck.var(h.length)
    if n != "Definite":
        if der:
            raise Mismatch("an indefinite-length child is accepted")
        raise Undecided("inlined indefinite-length child")
    l = f[0].l
    if r is None and not ck.ge(rest.len, l):
        raise Mismatch("a truncated child is accepted")
    if r is not None:
        ent, suffix = r
        role, info = role_of(ck, ent)
        ck.role(ent, role, der)
        if role != "content":
            raise Undecided("role of %s" % ent["path"])
        sl = info["slice"]
        if not (sl.base == s.base and ck.eq(sl.off, rest.off)):
            raise Mismatch("child content is read at %r, expected at %r" % (sl.off, rest.off))
        if not ck.eq(sl.len, rest.len):
            raise Mismatch("child content is read from %r octets, %r are left" % (sl.len, rest.len))
        ck.same(info["tag"], IntV(h.tag), "tag of a child")
        ck.same(info["length"], h.length, "length of a child")
        ck.same(info["constructed"], h.constructed, "constructed flag of a child")
        if not ck.universal(h.cls):
            raise Mismatch("a child of non-universal class is read as a universal type")
        budget(ck, info, d1)
        return h.h + L(atom(("i",) + tuple(info["key"]) + ("consumed",), ISet.rng(0, LENMAX)))
    c = slc(rest, 0, l)
    if not ck.universal(h.cls):
        n, f = ck.var(cont)
        if n != "Unknown":
            raise Mismatch("a non-universal child has content kind " + n)
        unknown(ck, f[0], c, h, tag=h.tag, constructed=h.constructed)
        return h.h + l
    exp = value(ck, c, h.tag, h.constructed, d1, der, None, False)
    if isinstance(exp, Err_):
        ck.bad("child", "a child is accepted although " + exp.why)
        if der and (exp.aspect.startswith("der") or exp.aspect == "indef"):
            ck.bad("derchild", "a child is accepted although " + exp.why)
        return None
    exp[0](ck, cont)
    return h.h + l


def budget(ck, info, d1):
    if d1 is not None and info.get("depth") is not None:
        if not ck.ge(d1, info["depth"]):
            ck.bad("depth", "a child gets depth budget %r, at most %r allowed" % (info["depth"], d1))
        elif not ck.ge(info["depth"], d1):
            ck.bad("reject", "a child gets depth budget %r where %r is left" % (info["depth"], d1))


def role_of(ck, ent):
    """classify a summarised recursive parser by the shape of its arguments"""
    sl = tag = length = con = depth = any_ = hdr = None
    for a in ent["args"]:
        if isinstance(a, RefV):
            a = ck.e.read(ent["st"], a.cell, a.path) if ent.get("st") is not None else ck.deref(a)
        if isinstance(a, SliceV):
            sl = a
        elif isinstance(a, IntV):
            depth = a.l
        elif isinstance(a, BoolV):
            con = a
        elif isinstance(a, SymV):
            ty = ck.p.types[a.ty]
            if ty["path"].endswith("Length"):
                length = a
        elif isinstance(a, AggV) and a.ty >= 0 and ck.p.types[a.ty]["k"] == "adt":
            p = ck.p.types[a.ty]["path"]
            if p.endswith("::Tag"):
                tag = a.f[0]
            elif p.endswith("Length"):
                length = a
            elif p.endswith("::Any"):
                any_ = a
            elif p.endswith("::Header"):
                hdr = a
                tag, length, con = ck.f(a, "tag").f[0], ck.f(a, "length"), ck.f(a, "constructed")
    key = None
    for k, r in ck.e.ledger.items():
        if r is ent:
            key = k
    info = dict(slice=sl, tag=tag, length=length, constructed=con, depth=depth, any=any_, key=key, hdr=hdr)
    if any_ is not None:
        return "any", info
    if sl is not None and tag is not None and length is not None and con is not None:
        return "content", info
    if sl is not None and tag is None and length is None:
        return "slice", info
    return "?", info


# ------------------------------------------------------------------ complete elements
def obj_content(v):
    return v


def typed(ck, s, tag, der, depth=MAXREC, size_limit=True):
    """parser for one specific tag number"""
    act = ck.result()
    h = Hdr(ck, s)
    if not h.ok(der):
        if act[0]:
            h.absent("accepted", "header", "trunc")
        return
    if not ck.eq(h.tag, tag):
        if act[0]:
            ck.bad("tag", "accepts tag %r where %r is expected" % (h.tag, tag))
            return
        k = ck.errkind(act[1])
        if k is not None and k != "UnexpectedTag":
            n, f = ck.var(h.length)
            ok = k == "Incomplete" and n == "Definite" and not ck.ge(s.len, h.h + f[0].l)
            ok = ok or k == "Incomplete" and n == "Indefinite"
            ok = ok or k == "InvalidLength" and n == "Definite" and ck.ge(f[0].l, MAXSIZE + 1)
            if not ok:
                ck.bad("tagerr", "reports %s for a wrong tag number" % k)
        return
    rem = ck.iok(act[1])[0] if act[0] else None
    exp = content(ck, h.rest(), h.tag, h.length, h.constructed, K(depth) if isinstance(depth, int) else depth, der, rem, size_limit)

    def got(o):
        o = ck.deref(o)
        ck.is_same("header", ck.f(o, "header"), h.val, "header")
        return ck.f(o, "content")
    compare(ck, exp, act, got, "object", der)


def anytype(ck, s, der, depth, tag=None, size_limit=False):
    """parser for any element"""
    act = ck.result()
    depth = K(depth) if isinstance(depth, int) else depth
    h = Hdr(ck, s)
    hok = h.ok(der)
    if ck.eq(depth, 0):
        if act[0]:
            ck.bad("depth", "accepted although the depth budget is exhausted")
        elif not der and ck.errkind(act[1]) not in ("BerMaxDepth", None):
            ck.bad("deptherr", "reports %s for an exhausted depth budget" % ck.errkind(act[1]))
        return
    if not hok:
        if act[0]:
            h.absent("accepted", "header", "trunc")
        return
    if tag is not None and not ck.eq(h.tag, tag):
        if act[0]:
            ck.bad("tag", "accepts tag %r where %r is expected" % (h.tag, tag))
        return
    rem = ck.iok(act[1])[0] if act[0] else None

    def got(o):
        o = ck.deref(o)
        ck.is_same("header", ck.f(o, "header"), h.val, "header")
        return ck.f(o, "content")
    if ck.universal(h.cls):
        exp = content(ck, h.rest(), h.tag, h.length, h.constructed, depth, der, rem, size_limit)
    else:
        exp = raw(ck, h, h.rest(), depth, der, rem, size_limit)
    compare(ck, exp, act, got, "object", der)


def raw(ck, h, s, depth, der, rem, size_limit):
    """non-universal element: kept as unknown content"""
    n, f = ck.var(h.length)
    if n == "Indefinite":
        if der:
            return Err_("indef", "the length is indefinite")
        if rem is None:
            return Ok_(None, None, None, may_fail=True)
        try:
            used = skip_extent(ck, s, rem, depth)
        except Mismatch as m:
            ck.bad("rem", m.msg)
            return Ok_(None, None, lambda ck, c: None, may_fail=True)
        c, r = slc(s, 0, used - 2), slc(s, used, s.len)
    else:
        l = f[0].l
        if not ck.ge(s.len, l):
            return Err_("trunc", "the declared length exceeds the input")
        if size_limit and ck.ge(l, MAXSIZE + 1):
            return Err_("size", "the declared length exceeds MAX_OBJECT_SIZE", {"InvalidLength"}, "sizeerr")
        c, r = slc(s, 0, l), slc(s, l, s.len)

    def chk(ck, v):
        got, f = ck.var(v)
        if got != "Unknown":
            ck.bad("kind", "content kind is %s for a non-universal class" % got)
            return
        unknown(ck, f[0], c, h, tag=h.tag, constructed=h.constructed)
    return Ok_(c, r, chk, may_fail=n == "Indefinite")


# ------------------------------------------------------------------ element parts
def header_only(ck, s, der):
    act = ck.result()
    h = Hdr(ck, s)
    if not h.ok(der):
        if act[0]:
            h.absent("accepted", "header", "trunc")
        return
    if not act[0]:
        ck.bad("reject", "rejects (%s) a complete header" % ck.errkind(act[1]))
        return
    rem, v = ck.iok(act[1])
    ck.is_same("rem", rem, h.rest(), "remaining input")
    ck.is_same("header", v, h.val, "header")


def content_part(ck, s, tag, length, constructed, depth, der):
    """ber/der_read_element_content_as and the parsers returned by parse_*_content"""
    act = ck.result()
    rem = ck.iok(act[1])[0] if act[0] else None
    exp = content(ck, s, lin(tag), length, constructed, lin(depth), der, rem, True)
    compare(ck, exp, act, lambda v: v, "content", der)


def content_hdr(ck, s, hdr, depth, tag, der):
    h = Given(ck, hdr)
    content_part(ck, s, tag, h.length, h.constructed, depth, der)


def element_rest(ck, s, hdr, der, depth=MAXREC):
    """der_read_element_content: the element whose header was already read"""
    act = ck.result()
    h = Given(ck, hdr)
    rem = ck.iok(act[1])[0] if act[0] else None

    def got(o):
        o = ck.deref(o)
        ck.is_same("header", ck.f(o, "header"), h.val, "header")
        return ck.f(o, "content")
    n, f = ck.var(h.length)
    if der and n == "Indefinite" and not ck.universal(h.cls):
        # the caller read the header; DER headers never carry an indefinite length
        return
    if ck.universal(h.cls):
        exp = content(ck, s, h.tag, h.length, h.constructed, K(depth), der, rem, True)
    else:
        exp = raw(ck, h, s, K(depth), der, rem, False)
    compare(ck, exp, act, got, "object", der)


def bare_any(ck, s):
    """parse_ber_any: header and raw content"""
    act = ck.result()
    h = Hdr(ck, s)
    if not h.ok(False):
        if act[0]:
            h.absent("accepted", "header", "trunc")
        return
    rest = h.rest()
    n, f = ck.var(h.length)
    if n == "Definite":
        l = f[0].l
        if not ck.ge(rest.len, l):
            if act[0]:
                ck.bad("trunc", "accepted although the declared length exceeds the input")
            return
        if not act[0]:
            ck.bad("reject", "rejects (%s) a complete element" % ck.errkind(act[1]))
            return
        used, clen = l, l
    else:
        if not act[0]:
            return
        used = skip_extent(ck, rest, ck.iok(act[1])[0])
        clen = used - 2
    rem, v = ck.iok(act[1])
    ck.is_same("rem", rem, slc(rest, used, rest.len), "remaining input")
    v = ck.deref(v)
    ck.is_same("header", ck.f(v, "header"), h.val, "header")
    ck.is_same("content", ck.f(v, "data"), slc(rest, 0, clen), "raw content")


def from_any(ck, a, depth=MAXREC):
    """TryFrom<Any>: the object of an element that was already delimited"""
    a = ck.deref(a)
    n, f = ck.var(ck.val)
    isok = n == "Ok"
    h = Given(ck, ck.f(a, "header"))
    d = ck.deref(ck.f(a, "data"))
    ln, lf = ck.var(h.length)
    if ln == "Definite":
        if not ck.eq(lf[0], d.len):
            return          # not an element that was read
    if ln == "Indefinite" and not ck.b(h.constructed):
        return
    if ck.eq(depth, 0):
        if isok:
            ck.bad("depth", "accepted although the depth budget is exhausted")
        return
    if not ck.universal(h.cls):
        if not isok:
            ck.bad("reject", "rejects a non-universal element")
            return
        o = ck.deref(f[0])
        ck.is_same("header", ck.f(o, "header"), h.val, "header")
        k, g = ck.var(ck.f(o, "content"))
        if k != "Unknown":
            ck.bad("kind", "content kind is %s for a non-universal class" % k)
            return
        unknown(ck, g[0], d, h, tag=h.tag, constructed=h.constructed)
        return
    exp = value(ck, d, h.tag, h.constructed, lin(depth), False, None, False)
    if isinstance(exp, Err_):
        if isok:
            ck.bad(exp.aspect, "accepted although %s" % exp.why)
        return
    chk, may = exp
    if not isok:
        if not may and ck.ge(MAXSIZE, d.len) and ck.errkind2(f[0]) not in ("BerMaxDepth",):
            ck.bad("reject", "rejects (%s) a complete, well-formed element" % ck.errkind2(f[0]))
        return
    o = ck.deref(f[0])
    ck.is_same("header", ck.f(o, "header"), h.val, "header")
    chk(ck, ck.f(o, "content"))


def int_delegate(ck, s, der, ty):
    """parse_*_{i32,i64,u32,u64}: an INTEGER read by asn1-rs for exactly this type and flavour"""
    act = ck.result()
    if not act[0]:
        return
    rem, v = ck.iok(act[1])
    src = None
    for a in list(ck.s.vs) + list(ck.s.subst):
        if a.key[:2] == ("b", "asn1int") and ck.s.decide(("eq", L(a) - 1)) is True:
            src = a.key[1:-1]
    if src is None:
        raise Undecided("the integer does not come from asn1-rs")
    _, fl, sty, base, off, ln = src
    if base != s.base:
        raise Undecided("base")
    if not ck.eq(lin(off), s.off) or not ck.eq(lin(ln), s.len):
        ck.bad("rem", "the integer is read from another part of the input")
        return
    k = L(atom(("len",) + src, ISet.rng(2, LENMAX)))
    ck.is_same("rem", rem, slc(s, k, s.len), "remaining input")
    if fl == "ber" and der:
        ck.bad("der:int", "a DER integer is read with the BER rules")
    if fl == "der" and not der:
        ck.bad("reject", "a BER integer is read with the DER rules")
    x = None
    for a in store_atoms_of(ck, v):
        if a.key[1:] == src or a.key == ("i",) + src:
            x = a
    if x is None:
        raise Undecided("integer value %r" % (v,))
    if not ck.eq(v, L(x)):
        ck.bad("int", "the value returned is not the value read")
    W = {"i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1)}
    if sty in W and (W[sty][0] > W[ty][0] or W[sty][1] < W[ty][1]):
        ck.bad("int", "an %s is read through %s, which cannot hold all its values" % (ty, sty))


def store_atoms_of(ck, v):
    out = set()

    def add(a):
        if a in out:
            return
        out.add(a)
        for x in a.key:
            if isinstance(x, Lin):
                for b in x.atoms():
                    add(b)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Lin):
                        for b in y.atoms():
                            add(b)
    if isinstance(v, IntV):
        for a in v.l.atoms():
            add(a)
    return out


# ------------------------------------------------------------------ induction step for summarised recursive parsers
def inductive(ck, role, der):
    """the function behind a summarised child call, on arbitrary arguments, must satisfy the specification of its role"""
    _, info = role_of(ck, dict(args=ck.args, fid=None))
    depth = info["depth"]
    if role == "slice":
        return anytype(ck, info["slice"], der, K(MAXREC) if depth is None else depth, size_limit=der)
    if role == "content":
        if info.get("hdr") is not None:
            return element_given(ck, info, der, depth)
        return content_part(ck, info["slice"], info["tag"].l, info["length"], info["constructed"], MAXREC if depth is None else depth, der)
    if role == "skip":
        return skipper(ck, info)
    if role == "any":
        return from_any(ck, info["any"], MAXREC if depth is None else depth)
    raise Undecided("role " + role)


def element_given(ck, info, der, depth):
    act = ck.result()
    h = Given(ck, info["hdr"])
    s = info["slice"]
    rem = ck.iok(act[1])[0] if act[0] else None

    def got(o):
        o = ck.deref(o)
        ck.is_same("header", ck.f(o, "header"), h.val, "header")
        return ck.f(o, "content")
    n, f = ck.var(h.length)
    if n == "Indefinite" and (der or not ck.b(h.constructed)):
        return
    depth = K(MAXREC) if depth is None else depth
    if ck.universal(h.cls):
        exp = content(ck, s, h.tag, h.length, h.constructed, depth, der, rem, der)
    else:
        if ck.eq(depth, 0):
            if act[0]:
                ck.bad("depth", "accepted although the depth budget is exhausted")
            return
        exp = raw(ck, h, s, depth, der, rem, False)
    compare(ck, exp, act, got, "object", der)
