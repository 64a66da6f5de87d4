"""Parsed data borrows from the input (part of C21): every byte or text slice inside a successful result is a part of an input slice.

The rule walks the returned value on every final abstract state. A slice is accepted when its provenance is an argument (or the result of
a summarised parser or of a caller-supplied callback, for which the same is shown separately, or assumed) or when it is empty; an owned
Cow, or a slice into memory the call itself created, is a copy."""
from base import *
import jobs, parse


def elem(ck, s):
    t = ck.p.types.get(s.ety)
    return t["k"] if t else None


def is_cow(ck, v):
    if not isinstance(v, AggV) or v.ty < 0:
        return False
    t = ck.p.types[v.ty]
    return t["k"] == "adt" and t["path"].rsplit("::", 1)[-1] == "Cow"


def walk(ck, v, what, depth=0):
    if depth > 12:
        raise Undecided("deeply nested value")
    if isinstance(v, SliceV):
        b = v.base[0]
        t = ck.p.types.get(v.ety)
        if t and t["k"] == "adt":
            raise Undecided("slice of %s" % t["path"])
        ck.o["slices"] = ck.o.get("slices", 0) + 1
        if b in ("S", "cb"):
            return
        if not ck.eq(v.len, 0):
            ck.bad("borrow", "%s is not a part of the input" % what)
        return
    if isinstance(v, VecV):
        for i, s in enumerate(v.segs):
            if s[0] == "el" or s[0] in ("gen", "genc"):
                walk(ck, s[1], "%s[%d]" % (what, i), depth + 1)
        return
    if isinstance(v, RefV):
        return walk(ck, ck.deref(v), what, depth + 1)
    if isinstance(v, AggV):
        if is_cow(ck, v) and ck.var(v)[0] == "Owned":
            x = v.f[0]
            n = x.length() if isinstance(x, VecV) else None
            if n is None:
                raise Undecided("owned %r" % (x,))
            if not ck.eq(n, 0):
                ck.bad("borrow", "%s is an owned copy" % what)
            return
        names = None
        if v.ty >= 0:
            t = ck.p.types[v.ty]
            if t["k"] == "adt":
                va = t["variants"][v.var]
                names = [va["fields"][i][0] if i < len(va["fields"]) else str(i) for i in range(len(v.f))]
                if len(t["variants"]) > 1:
                    names = [va["name"] + "." + n for n in names] if "name" in va else names
        for i, x in enumerate(v.f):
            walk(ck, x, "%s.%s" % (what, names[i] if names else i), depth + 1)
        return


def result(ck):
    ok, p = ck.result()
    if not ok:
        return
    walk(ck, p, "result")


CALLEES = ("typed", "any", "part", "tryfrom")


def rule(j):
    def r(ck):
        if j.group in CALLEES:
            j.rule(ck)          # records which summarised functions the children come from
        result(ck)
    return r


def nested(ck, role, der):
    parse.inductive(ck, role, der)
    result(ck)


def tasks():
    return [("borrow", n, ("borrow",)) for n, j in jobs.JOBS.items() if j.group in CALLEES + ("comb", "tagging", "optional", "of")]
