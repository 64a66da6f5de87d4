"""Shared vocabulary of the rules: aspects, spec-side headers, results, ledger look-up."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from dom import *
from values import *
import interp as I
from interp import Infeasible, Unmodelled
from spec import Ck, Mismatch, Undecided, lin, norm_segs
import natives as N

MAXSIZE = 4294967295
MAXREC = 50

TAGS = {0: "EndOfContent", 1: "Boolean", 2: "Integer", 3: "BitString", 4: "OctetString", 5: "Null", 6: "OID",
        7: "ObjectDescriptor", 10: "Enum", 12: "UTF8String", 13: "RelativeOID", 16: "Sequence", 17: "Set",
        18: "NumericString", 19: "PrintableString", 20: "T61String", 21: "VideotexString", 22: "IA5String",
        23: "UTCTime", 24: "GeneralizedTime", 25: "GraphicString", 26: "VisibleString", 27: "GeneralString",
        28: "UniversalString", 30: "BmpString"}
TAGNO = {v: k for k, v in TAGS.items()}
STRINGS = {"ObjectDescriptor": "ObjectDescriptor", "UTF8String": "Utf8String", "NumericString": "NumericString",
           "PrintableString": "PrintableString", "T61String": "TeletexString", "VideotexString": "VideotexString",
           "IA5String": "Ia5String", "GraphicString": "GraphicString", "VisibleString": "VisibleString",
           "GeneralString": "GeneralString"}


def slc(s, lo, hi):
    return SliceV(s.base, s.off + lin(lo), lin(hi) - lin(lo), s.ety)


class Hdr:
    """the header parsed at the start of slice s, as the specification sees it"""
    lenient = False

    def __init__(self, ck, s):
        self.ck = ck
        self.s = s
        self.base, self.off = N.hdr_key(ck.st, s)
        hty = header_type(ck.p)
        self.val = N.header_fields(ck.e, ck.st, hty, self.base, self.off)
        self.h = N.hdr_len(self.base, self.off)
        self._init(hty)

    def _init(self, hty):
        ck = self.ck
        self.cls = ck.f(self.val, "class")
        self.constructed = ck.f(self.val, "constructed")
        t = ck.f(self.val, "tag")
        self.tagv = t
        self.tag = t.f[0].l
        self.length = ck.f(self.val, "length")

    def ok(self, der):
        ck = self.ck
        good = atom(("b", "hdr", self.base, self.off, "good"), BOOL)
        dgood = atom(("b", "hdr", self.base, self.off, "dgood"), BOOL)
        if not ck.d(("eq", L(good) - 1)):
            return False
        if der and not ck.d(("eq", L(dgood) - 1)):
            # the two header readers of asn1-rs differ only in the indefinite-length form
            if ck.var(self.length)[0] != "Indefinite":
                raise Infeasible()
            self.lenient = True
            return False
        if not ck.ge(self.s.len, self.h):
            return False
        r = L(atom(("len", "rawtag", self.base, self.off), ISet.rng(1, LENMAX)))
        if not ck.s.assume_ge(self.h - r - 1):
            raise Infeasible()
        n, _ = ck.var(self.length)
        if n == "Indefinite":
            if der:
                raise Infeasible()
            if not ck.b(self.constructed):
                raise Infeasible()
        return True

    def absent(self, what, *aspects):
        """the code went on although no header can be read"""
        for a in aspects:
            self.ck.bad(a, what + " although no header can be read")
        if self.lenient:
            self.ck.bad("indef", what + " although the length is indefinite")

    def rest(self):
        return slc(self.s, self.h, self.s.len)


class Given(Hdr):
    """a header value passed in by the caller"""

    def __init__(self, ck, val):
        self.ck = ck
        self.val = ck.deref(val)
        self._init(None)


_ht = {}


def header_type(p):
    r = _ht.get(id(p))
    if r is None:
        for t, ty in p.types.items():
            if ty["k"] == "adt" and ty["path"].endswith("::Header") and ty["adt"] == "struct" and any(n == "raw_tag" for n, _ in ty["variants"][0]["fields"]):
                r = t
        _ht[id(p)] = r
    return r


class Rule(Ck):
    """rule context with aspects: findings are collected, not raised"""

    def __init__(self, eng, st, val, args, opts=None):
        Ck.__init__(self, eng, st, val, args)
        self.found = []
        self.und = []
        self.o = {} if opts is None else opts

    def bad(self, aspect, msg):
        self.found.append((aspect, msg))
        if self.o.get("nested") and aspect.startswith("der:"):
            self.found.append(("derchild", msg))

    def role(self, ent, role, der):
        """record that the result of a summarised call was used in this role; flags: constant boolean arguments"""
        flags = []
        if role != "content":
            for i, a in enumerate(ent["args"]):
                if isinstance(a, BoolV):
                    d = self.s.decide(a.c)
                    flags.append((i, d))
        self.o.setdefault("roles", set()).add((ent["fid"], role, der, tuple(flags)))

    def is_same(self, aspect, a, b, what):
        try:
            self.same(a, b, what)
            return True
        except Mismatch as m:
            self.bad(aspect, m.msg)
        except Undecided as u:
            self.und.append((aspect, str(u)))
        return False

    def must(self, aspect, cond, msg):
        if not cond:
            self.bad(aspect, msg)
        return cond

    def result(self, v=None):
        n, f = self.var(self.val if v is None else v)
        if n == "Ok":
            return True, f[0]
        return False, f[0]

    def iok(self, p):
        """(remaining, value) of an IResult Ok payload"""
        t = self.tup(p)
        rem = self.deref(t[0])
        if not isinstance(rem, SliceV):
            raise Undecided("remaining input %r" % (rem,))
        return rem, t[1]

    def errkind(self, e):
        """'Incomplete', or the name of the BerError variant, or None when it stems from a callee that was summarised"""
        if isinstance(e, SymV):
            return None
        n, f = self.var(e)
        if n == "Incomplete":
            return "Incomplete"
        if n in ("Error", "Failure"):
            x = f[0]
            if isinstance(x, SymV):
                return None
            n2, f2 = self.var(x)
            return n2
        return n

    def errkind2(self, x):
        """name of a bare BerError"""
        if isinstance(x, SymV):
            return None
        return self.var(x)[0]

    def tagval(self, t):
        """concrete tag number, or None for a number without a dedicated content kind"""
        n = self.s.norm(t)
        if n.isc():
            return n.c if n.c in TAGS else None
        d = self.s.dom_of(n)
        known = ISet.vals([k for k in TAGS])
        if d.meet(known).empty():
            return None
        if d.count() > 1:
            raise Split([("eq", n - k) for k in sorted(TAGS) if d.has(k)] + ([("in", n, d.sub(known))] if not d.sub(known).empty() else []))
        return d.lo if d.lo in TAGS else None

    def universal(self, cls):
        n, _ = self.var(cls)
        return n == "Universal"


def first_key(v):
    """key of the first symbolic leaf of a value"""
    if isinstance(v, SymV) or isinstance(v, OpaqueV):
        return v.key
    if isinstance(v, IntV):
        for a in v.l.atoms():
            return a.key[1:] if a.key and a.key[0] in ("i", "b", "len", "discr") else a.key
        return None
    if isinstance(v, BoolV):
        c = v.c
        if c[0] in ("eq", "ne", "ge"):
            return first_key(IntV(c[1]))
        return None
    if isinstance(v, SliceV):
        return v.base[1:] if v.base and v.base[0] == "S" else v.base
    if isinstance(v, VecV):
        for s in v.segs:
            if s[0] in ("sub", "el"):
                return first_key(s[1])
        return None
    if isinstance(v, RefV):
        return v.cell[1] if not isinstance(v.cell, SliceV) and v.cell[0] == "H" else None
    if isinstance(v, AggV):
        for x in v.f:
            k = first_key(x)
            if k is not None:
                return k
    return None


def ledger_of(e, v):
    """the summarised call a value is the result of, or None"""
    k = first_key(v)
    if k is None:
        return None
    for n in range(min(len(k), 400), 1, -1):
        r = e.ledger.get(tuple(k[:n]))
        if r is not None:
            return r, k[:n], k[n:]
    return None
