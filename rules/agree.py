"""DER acceptance implies the same BER result (C23), decided through the common specification:

 * whatever a DER parser accepts is compared with the *BER* specification of the element (same remaining input, header, content
   kind and value; failures of the DER parser are its own business);
 * the BER parser is compared with that same specification on the inputs the DER specification accepts, including that it does not
   reject them.

Combinators: both flavours are compared with the same tag-check and callback protocol; the BER ones on headers DER accepts."""
from base import *
import parse, jobs

PA = ("rem", "header", "kind", "content", "value", "str", "constr", "child", "cvalue", "tag", "size", "trunc")
CA = ("ctag", "ccall", "chdr", "cerr", "cvalue", "creject", "cframe", "ctrunc", "call-content")


def pairs():
    """DER job -> BER job"""
    out = {}
    for n, j in jobs.JOBS.items():
        if j.der and n.replace("der", "ber", 1) in jobs.JOBS:
            out[n] = n.replace("der", "ber", 1)
    return out


def tasks():
    out = []
    for d, b in pairs().items():
        g = jobs.JOBS[d].group
        if g in ("typed", "any", "part"):
            out += [("agree", d, PA), ("agree", b, PA + ("reject",))]
        elif g in ("comb", "tagging", "optional", "of"):
            out += [("agree", d, CA + ("opt",)), ("agree", b, CA + ("opt",))]
        elif g == "int":
            out += [("agree", d, ("rem", "int")), ("agree", b, ("rem", "int", "reject"))]
    return out


def der_accepts(ck, j):
    """the specification of the DER counterpart accepts this input (contents of constructed elements and caller-supplied parsers aside)"""
    n = j.name
    if j.group == "int":
        return True
    if n.endswith("read_element_content_as"):
        e = parse.content(ck, ck.args[0], jobs.TAG(ck, 1), ck.args[2], ck.args[3], ck.args[4].l, True, None)
        return not isinstance(e, parse.Err_)
    if n.endswith("_content") or n.endswith("_content2"):
        h = Given(ck, ck.args[1])
        e = parse.content(ck, ck.args[0], jobs.TAG(ck, 3), h.length, h.constructed, ck.args[2].l, True, None)
        return not isinstance(e, parse.Err_)
    s = ck.args[0]
    h = Hdr(ck, s)
    if not h.ok(True):
        return False
    if j.group not in ("typed", "any"):
        return True
    depth = ck.args[1].l if n.endswith("_recursive") else K(MAXREC)
    return der_ok(ck, h, h.rest(), depth, j.group == "typed")


def der_ok(ck, h, rest, depth, typed):
    if not typed and not ck.universal(h.cls):
        n, f = ck.var(h.length)
        if n == "Indefinite":
            return False
        return ck.ge(rest.len, f[0].l) and not ck.ge(f[0].l, MAXSIZE + 1)
    return not isinstance(parse.content(ck, rest, h.tag, h.length, h.constructed, depth, True, None), parse.Err_)


def rule(j):
    def r(ck):
        if j.der:
            if j.group in ("typed", "any", "part", "int"):
                if not ck.result()[0]:
                    return
                return j.rule(ck, der=False)
            return j.rule(ck)
        if not der_accepts(ck, j):
            return
        return j.rule(ck)
    return r


def nested(ck, role, der_side):
    """induction step for a summarised parser of children"""
    if der_side:
        if not ck.result()[0]:
            return
        return parse.inductive(ck, role, False)
    _, info = parse.role_of(ck, dict(args=ck.args, fid=None))
    depth = K(MAXREC) if info["depth"] is None else info["depth"]
    if role == "slice":
        h = Hdr(ck, info["slice"])
        if not h.ok(True) or not der_ok(ck, h, h.rest(), depth, False):
            return
    elif role == "content":
        if info.get("hdr") is not None:
            h = Given(ck, info["hdr"])
            if not der_ok(ck, h, info["slice"], depth, False):
                return
        elif isinstance(parse.content(ck, info["slice"], info["tag"].l, info["length"], info["constructed"], depth, True, None), parse.Err_):
            return
    elif role == "any":
        a = ck.deref(info["any"])
        h = Given(ck, ck.f(a, "header"))
        d = ck.deref(ck.f(a, "data"))
        if ck.var(h.length)[0] == "Indefinite":
            return
        if ck.universal(h.cls) and isinstance(parse.value(ck, d, h.tag, h.constructed, depth, True, None, False), parse.Err_):
            return
    return parse.inductive(ck, role, False)
