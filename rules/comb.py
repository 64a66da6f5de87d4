"""Combinators: containers, tagging, optional, SEQUENCE OF / SET OF. The caller's parsers are arbitrary; every call of one is
recorded in the ghost trace "cb" (arguments) and its result is symbolic, keyed by call number and input."""
from base import *
from parse import skip_extent


class Call:
    def __init__(self, ck, n, args):
        self.args = args.f if isinstance(args, AggV) else [args]
        self.s = self.args[0]
        norm = ck.s.norm
        self.key = None
        self.n = n


def calls(ck):
    v = ck.st.ghost("cb", VecV((), None))
    out = []
    for i, g in enumerate(v.segs):
        if g[0] != "el":
            raise Undecided("unbounded number of callback calls")
        out.append(Call(ck, i, g[1]))
    return out


def cb_result(ck, c, rty):
    """(True, consumed, value) or (False, error) of a recorded call"""
    key = find_key(ck, c)
    sym = SymV(key, rty, ck.p.symdom(rty))
    n, f = ck.var(sym)
    if n == "Ok":
        k = L(atom(("len",) + key + ("consumed",), ISet.rng(0, LENMAX)))
        return True, k, ck.tup(f[0])[1]
    return False, f[0], None


def find_key(ck, c):
    """the key the callback model gave to this call (its position expressions may have been re-normalised since)"""
    s = c.s
    norm = ck.s.norm
    want = ("cb", K(c.n), s.base, norm(s.off), norm(s.len))
    for tab in (ck.s.vs, ck.s.subst):
        for a in tab:
            k = a.key
            if k[0] == "discr" and len(k) == 6 and k[1] == "cb":
                if tuple(norm(x) if isinstance(x, Lin) else x for x in k[1:]) == want:
                    return k[1:]
    return want


def cb_type(ck, name):
    """return type of harness callback `name`"""
    for f in ck.p.fns.values():
        if f["krate"] == "harness" and f["path"].rsplit("::", 1)[-1] == name:
            if f["body"]:
                return f["body"]["locals"][0]
            t = ck.p.types.get(f.get("ty"))
    raise Undecided("callback type of " + name)


def container(ck, s, der, cb, conds, wrap, hdr_arg=None, depth_arg=None, tagasp="ctag"):
    """conds: [(aspect, test(h), why)]; wrap(h, value) -> checker of the produced value"""
    act = ck.result()
    cs = calls(ck)
    h = Hdr(ck, s)
    if not h.ok(der):
        if act[0]:
            h.absent("accepted", "cframe")
        if cs:
            h.absent("the inner parser is called", "cframe")
        return
    rest = h.rest()
    n, f = ck.var(h.length)
    may = False
    if n == "Definite":
        l = f[0].l
        if not ck.ge(rest.len, l):
            if act[0]:
                ck.bad("ctrunc", "accepted although the declared length exceeds the input")
            if cs:
                ck.bad("cframe", "the inner parser is called on truncated content")
            return
        data, rem = slc(rest, 0, l), slc(rest, l, rest.len)
    else:
        if der:
            if act[0]:
                ck.bad("indef", "accepts the indefinite-length form")
            if cs:
                ck.bad("indef", "the inner parser is called for an indefinite-length element")
            return
        may = True
        data = rem = None
        try:
            if cs and isinstance(cs[0].s, SliceV):
                d = cs[0].s
                used = skip_extent(ck, rest, SliceV(d.base, d.off + d.len + 2, ZERO, d.ety))
                data, rem = slc(rest, 0, used - 2), slc(rest, used, rest.len)
            elif act[0]:
                r = ck.iok(act[1])[0]
                used = skip_extent(ck, rest, r)
                data, rem = slc(rest, 0, used - 2), slc(rest, used, rest.len)
        except Mismatch as m:
            ck.bad("cframe", m.msg)
            return
    for asp, test, why in conds:
        if not test(h):
            if act[0]:
                ck.bad(asp, "accepted although " + why)
            elif cs:
                ck.bad(asp, "the inner parser is called although " + why)
            return
    if cb is None:
        if not act[0]:
            if not may:
                ck.bad("creject", "a well-formed element is rejected (%s)" % ck.errkind(act[1]))
            return
        r, v = ck.iok(act[1])
        ck.is_same("cframe", r, rem, "remaining input")
        wrap(ck, h, v, data)
        return
    if not cs:
        if act[0]:
            ck.bad("ccall", "accepted without calling the inner parser")
        elif not may:
            ck.bad("creject", "a well-formed element is rejected (%s) without calling the inner parser" % ck.errkind(act[1]))
        return
    if len(cs) != 1:
        ck.bad("ccall", "the inner parser is called %d times" % len(cs))
        return
    c = cs[0]
    ck.is_same("ccall", c.s, data, "input of the inner parser")
    if hdr_arg is not None:
        ck.is_same("chdr", c.args[hdr_arg], h.val, "header given to the inner parser")
    if depth_arg is not None:
        d = c.args[depth_arg].l
        if not ck.ge(K(MAXREC), d):
            ck.bad("depth", "the inner parser gets depth budget %r" % (ck.s.norm(d),))
        if not ck.ge(d, 1):
            ck.bad("creject", "the inner parser gets no depth budget")
    r = cb_result(ck, c, cb_type(ck, cb))
    if not r[0]:
        if act[0]:
            ck.bad("cerr", "accepted although the inner parser failed")
            return
        ck.is_same("cerr", act[1], r[1], "error")
        return
    if not act[0]:
        ck.bad("creject", "rejected (%s) although the inner parser succeeded" % ck.errkind(act[1]))
        return
    got, v = ck.iok(act[1])
    ck.is_same("cframe", got, rem, "remaining input")
    wrap(ck, h, v, r[2])


def same_value(ck, h, v, inner):
    ck.is_same("cvalue", v, inner, "value")


def tag_is(tag):
    return lambda h: h.ck.eq(h.tag, tag)


def nonuniversal(h):
    return not h.ck.universal(h.cls)


def constructed(h):
    return h.ck.b(h.constructed)


EXPL = lambda tag: [("ctag", nonuniversal, "the class is universal"), ("ctag", tag_is(tag), "the tag number differs"),
                    ("ctag", constructed, "the element is primitive")]


def tagged_obj(tag):
    def w(ck, h, v, inner):
        o = ck.deref(v)
        ck.is_same("chdr", ck.f(o, "header"), h.val, "header of the tagged object")
        n, f = ck.var(ck.f(o, "content"))
        if n != "Tagged":
            ck.bad("cvalue", "content kind is " + n)
            return
        ck.is_same("cvalue", f[0], h.cls, "class of the tagged value")
        ck.is_same("cvalue", f[1], AggV(f[1].ty, 0, (IntV(lin(tag)),)), "tag of the tagged value")
        ck.is_same("cvalue", f[2], inner, "inner object")
    return w


def implicit_obj(ck, h, v, inner):
    o = ck.deref(v)
    ck.is_same("chdr", ck.f(o, "header"), h.val, "header of the object")
    ck.is_same("cvalue", ck.f(o, "content"), inner, "content")


def container_obj(kind):
    """object built by SEQUENCE/SET defined: from_seq/from_set of the vector"""
    def w(ck, h, v, inner):
        obj_of(ck, v, kind, inner)
    return w


def obj_of(ck, v, kind, vec):
    o = ck.deref(v)
    n, f = ck.var(ck.f(o, "content"))
    if n != kind:
        ck.bad("cvalue", "content kind is %s, expected %s" % (n, kind))
        return
    ck.is_same("cvalue", f[0], vec, "elements")
    hd = ck.f(o, "header")
    if not ck.eq(ck.f(hd, "tag").f[0], TAGNO[kind]):
        ck.bad("cvalue", "tag of the produced object")
    if ck.var(ck.f(hd, "class"))[0] != "Universal":
        ck.bad("cvalue", "class of the produced object")
    if not ck.b(ck.f(hd, "constructed")):
        ck.bad("cvalue", "the produced object is primitive")


# ------------------------------------------------------------------ SEQUENCE OF / SET OF
def of(ck, s, der, cb, tag, kind):
    act = ck.result()
    h = Hdr(ck, s)
    v = ck.st.ghost("cb", VecV((), None))
    cs = calls(ck)
    if not h.ok(der):
        if act[0]:
            h.absent("accepted", "cframe")
        return
    rest = h.rest()
    n, f = ck.var(h.length)
    may = False
    if n == "Definite":
        l = f[0].l
        if not ck.ge(rest.len, l):
            if act[0]:
                ck.bad("ctrunc", "accepted although the declared length exceeds the input")
            if cs:
                ck.bad("cframe", "the element parser is called on truncated content")
            return
        data, rem = slc(rest, 0, l), slc(rest, l, rest.len)
    else:
        if der:
            if act[0]:
                ck.bad("indef", "accepts the indefinite-length form")
            return
        may = True
        data = rem = None
        try:
            if cs:
                d = cs[0].s
                used = skip_extent(ck, rest, SliceV(d.base, d.off + d.len + 2, ZERO, d.ety))
                data, rem = slc(rest, 0, used - 2), slc(rest, used, rest.len)
            elif act[0]:
                r = ck.iok(act[1])[0]
                used = skip_extent(ck, rest, r)
                data, rem = slc(rest, 0, used - 2), slc(rest, used, rest.len)
        except Mismatch as m:
            ck.bad("cframe", m.msg)
            return
    if not ck.eq(h.tag, tag):
        if act[0]:
            ck.bad("ctag", "accepted although the tag number differs")
        elif cs:
            ck.bad("ctag", "the element parser is called although the tag number differs")
        return
    if data is None:
        return
    rty = cb_type(ck, cb)
    pos = ZERO
    vals = []
    err = None
    stuck = False
    for i, c in enumerate(cs):
        if err is not None:
            ck.bad("cerr", "the element parser is called again after an error")
            return
        if stuck:
            ck.bad("ccall", "the element parser is called again although it consumed nothing")
            return
        if not ck.is_same("ccall", c.s, slc(data, pos, data.len), "input of element parser call %d" % i):
            return
        r = cb_result(ck, c, rty)
        if r[0]:
            vals.append(r[2])
            if ck.eq(r[1], 0):
                stuck = True
            pos = pos + r[1]
        else:
            err = r[1]
    atend = ck.eq(pos, data.len)
    inc = err is not None and ck.var(err)[0] == "Incomplete"
    if act[0]:
        if err is not None and not (inc and atend):
            ck.bad("cerr", "accepted although the element parser failed at content offset %r" % (ck.s.norm(pos),))
            return
        if not atend:
            ck.bad("call-content", "accepted although %r content octets are not consumed" % (ck.s.norm(data.len - pos),))
            return
        got, v = ck.iok(act[1])
        ck.is_same("cframe", got, rem, "remaining input")
        v = ck.deref(v)
        vec = VecV(tuple(("el", x) for x in vals), None)
        if kind is None:
            elems(ck, v, vals)
        else:
            o = ck.deref(v)
            n, f = ck.var(ck.f(o, "content"))
            if n != kind:
                ck.bad("cvalue", "content kind is %s, expected %s" % (n, kind))
                return
            obj_of(ck, v, kind, f[0])
            elems(ck, f[0], vals)
        return
    if err is None and not stuck and not may:
        ck.bad("creject", "rejected (%s) although no element failed" % ck.errkind(act[1]))
    if inc and atend and not may:
        ck.bad("creject", "rejected (%s) at the end of the content" % ck.errkind(act[1]))


def elems(ck, v, vals):
    v = ck.deref(v)
    if not isinstance(v, VecV):
        raise Undecided("elements %r" % (v,))
    segs = norm_segs(ck.s, v.segs)
    if any(g[0] != "el" for g in segs):
        raise Undecided("elements %r" % (segs,))
    if len(segs) != len(vals):
        ck.bad("cvalue", "%d elements returned, %d parsed" % (len(segs), len(vals)))
        return
    for i, (g, x) in enumerate(zip(segs, vals)):
        ck.is_same("cvalue", g[1], x, "element %d" % i)


# ------------------------------------------------------------------ optional
def optional(ck, s, cb):
    act = ck.result()
    if not act[0]:
        ck.bad("opt", "an optional parser fails (%s)" % ck.errkind(act[1]))
        return
    cs = calls(ck)
    if len(cs) != 1:
        ck.bad("opt", "the inner parser is called %d times" % len(cs))
        return
    ck.is_same("opt", cs[0].s, s, "input of the inner parser")
    rem, v = ck.iok(act[1])
    r = cb_result(ck, cs[0], cb_type(ck, cb))
    present(ck, v, rem, r[0], lambda o: ck.is_same("opt", o, r[2], "inner object"),
            (lambda hd: ck.is_same("opt", hd, ck.f(r[2], "header"), "header")) if r[0] else None,
            slc(s, r[1], s.len) if r[0] else s)


def present(ck, v, rem, yes, inner, header, wantrem):
    o = ck.deref(v)
    n, f = ck.var(ck.f(o, "content"))
    if n != "Optional":
        ck.bad("opt", "content kind is " + n)
        return
    x = ck.opt(f[0])
    if yes != (x is not None):
        ck.bad("opt", "the inner parser %s but the value is %s" % ("succeeded" if yes else "failed", "present" if x is not None else "absent"))
        return
    ck.is_same("opt", rem, wantrem, "remaining input")
    if yes:
        inner(x)
        header(ck.f(o, "header"))


def explicit_optional(ck, s, der, tag):
    act = ck.result()
    if not act[0]:
        ck.bad("opt", "an optional parser fails (%s)" % ck.errkind(act[1]))
        return
    rem, v = ck.iok(act[1])
    cs = calls(ck)
    if len(cs) > 1:
        ck.bad("opt", "the inner parser is called %d times" % len(cs))
        return

    def absent(why, asp="opt"):
        o = ck.deref(v)
        n, f = ck.var(ck.f(o, "content"))
        if n != "Optional" or ck.opt(f[0]) is not None:
            ck.bad(asp, "not absent although " + why)
            return
        ck.is_same("opt", rem, s, "remaining input")
        if cs and why != "the inner parser failed":
            ck.bad(asp, "the inner parser is called although " + why)
    h = Hdr(ck, s)
    if not h.ok(der):
        return absent("no header can be read", "indef" if h.lenient else "opt")
    rest = h.rest()
    n, f = ck.var(h.length)
    if n == "Definite":
        if not ck.ge(rest.len, f[0].l):
            return absent("the declared length exceeds the input", "ctrunc")
        data, r2 = slc(rest, 0, f[0].l), slc(rest, f[0].l, rest.len)
    else:
        if der:
            return absent("the length is indefinite", "indef")
        if not cs:
            # the content could not be delimited: must be absent
            return absent("the inner parser was not called")
        d = cs[0].s
        used = skip_extent(ck, rest, SliceV(d.base, d.off + d.len + 2, ZERO, d.ety))
        data, r2 = slc(rest, 0, used - 2), slc(rest, used, rest.len)
    for asp, test, why in EXPL(tag):
        if not test(h):
            return absent(why, "ctag")
    if not cs:
        ck.bad("creject", "absent although a matching element is present (inner parser not called)")
        return
    ck.is_same("ccall", cs[0].s, data, "input of the inner parser")
    r = cb_result(ck, cs[0], cb_type(ck, "cb_obj"))
    if not r[0]:
        return absent("the inner parser failed")

    def inner(x):
        tagged_obj(tag)(ck, h, x, r[2])
    present(ck, v, rem, True, inner, lambda hd: ck.is_same("opt", hd, h.val, "header"), r2)


IMPL = lambda tag: [("ctag", tag_is(tag), "the tag number differs")]


def slice_value(ck, h, v, data):
    ck.is_same("cvalue", v, data, "content octets")
