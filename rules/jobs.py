"""The table of analysis jobs: harness entry point -> rule."""
from base import *
import parse, comb

TYPED = {"bool": 1, "integer": 2, "bitstring": 3, "octetstring": 4, "null": 5, "oid": 6, "objectdescriptor": 7, "object_descriptor": 7,
         "enum": 10, "utf8string": 12, "relative_oid": 13, "relativeoid": 13, "sequence": 16, "set": 17, "numericstring": 18,
         "printablestring": 19, "t61string": 20, "videotexstring": 21, "ia5string": 22, "utctime": 23, "generalizedtime": 24,
         "graphicstring": 25, "visiblestring": 26, "generalstring": 27, "universalstring": 28, "bmpstring": 30, "endofcontent": 0}


class Job:
    def __init__(self, name, entry, rule, group, der=None, pre=None, opts=None):
        self.name, self.entry, self.rule, self.group, self.der, self.pre = name, entry, rule, group, der, pre
        self.opts = opts or {}


JOBS = {}


def add(entry, rule, group, der=None, pre=None, name=None, **opts):
    name = name or entry[6:]
    assert name not in JOBS, name
    JOBS[name] = Job(name, entry, rule, group, der, pre, opts)


A = lambda ck, i: ck.args[i]
TAG = lambda ck, i: ck.deref(ck.args[i]).f[0].l

for fl in ("ber", "der"):
    der = fl == "der"
    pf = "entry_parse_%s" % fl
    for nm, t in TYPED.items():
        if nm in ("objectdescriptor", "relativeoid"):
            continue
        if nm in ("object_descriptor",):
            nm = "objectdescriptor"
        add("%s_%s" % (pf, nm), lambda ck, t=t, der=der: parse.typed(ck, ck.args[0], t, der), "typed", der)
    add(pf, lambda ck, der=der: parse.anytype(ck, ck.args[0], der, MAXREC, size_limit=der), "any", der)
    add(pf + "_recursive", lambda ck, der=der: parse.anytype(ck, ck.args[0], der, ck.args[1].l, size_limit=der), "any", der)
    add(pf + "_with_tag", lambda ck, der=der: parse.typed(ck, ck.args[0], TAG(ck, 1), der), "typed", der)
    # combinators
    add(pf + "_container", lambda ck, der=der: comb.container(ck, ck.args[0], der, "cb_hdr_g", [], comb.same_value, hdr_arg=1), "comb", der)
    add(pf + "_tagged_explicit", lambda ck, der=der: comb.container(ck, ck.args[0], der, "cb_obj", comb.EXPL(TAG(ck, 1)), comb.tagged_obj(TAG(ck, 1))), "tagging", der)
    add(pf + "_tagged_explicit_g", lambda ck, der=der: comb.container(ck, ck.args[0], der, "cb_hdr_g", comb.EXPL(TAG(ck, 1)), comb.same_value, hdr_arg=1), "tagging", der)
    add(pf + "_tagged_implicit", lambda ck, der=der: comb.container(ck, ck.args[0], der, "cb_imp", comb.IMPL(TAG(ck, 1)), comb.implicit_obj, hdr_arg=1, depth_arg=2), "tagging", der)
    add(pf + "_implicit", lambda ck, der=der: comb.container(ck, ck.args[0], der, "cb_imp", comb.IMPL(TAG(ck, 1)), comb.implicit_obj, hdr_arg=1, depth_arg=2), "tagging", der)
    add(pf + "_tagged_implicit_g", lambda ck, der=der: comb.container(ck, ck.args[0], der, "cb_imp_g", comb.IMPL(TAG(ck, 1)), comb.same_value, hdr_arg=1, depth_arg=2), "tagging", der)
    add(pf + "_explicit_optional", lambda ck, der=der: comb.explicit_optional(ck, ck.args[0], der, TAG(ck, 1)), "optional", der)
    add(pf + "_slice", lambda ck, der=der: comb.container(ck, ck.args[0], der, None, comb.IMPL(TAG(ck, 1)), comb.slice_value), "comb", der)
    for k, t in (("sequence", 16), ("set", 17)):
        K_ = k.capitalize()
        cond = [("ctag", comb.tag_is(t), "the tag number differs")]
        add("%s_%s_of" % (pf, k), lambda ck, der=der, t=t, K_=K_: comb.of(ck, ck.args[0], der, "cb_obj", t, K_), "of", der)
        add("%s_%s_of_v" % (pf, k), lambda ck, der=der, t=t: comb.of(ck, ck.args[0], der, "cb_g", t, None), "of", der)
        add("%s_%s_defined" % (pf, k), lambda ck, der=der, c=cond, K_=K_: comb.container(ck, ck.args[0], der, "cb_vec", c, comb.container_obj(K_)), "comb", der)
        add("%s_%s_defined_g" % (pf, k), lambda ck, der=der, c=cond: comb.container(ck, ck.args[0], der, "cb_hdr_g", c, comb.same_value, hdr_arg=1), "comb", der)
add("entry_parse_ber_optional", lambda ck: comb.optional(ck, ck.args[0], "cb_obj"), "optional", False)

for fl in ("ber", "der"):
    der = fl == "der"
    pf = "entry_parse_%s" % fl
    add("entry_%s_read_element_header" % fl, lambda ck, der=der: parse.header_only(ck, ck.args[0], der), "part", der)
    add("entry_%s_read_element_content_as" % fl, lambda ck, der=der: parse.content_part(ck, ck.args[0], TAG(ck, 1), ck.args[2], ck.args[3], ck.args[4].l, der), "part", der)
    add(pf + "_content", lambda ck, der=der: parse.content_hdr(ck, ck.args[0], ck.args[1], ck.args[2].l, TAG(ck, 3), der), "part", der)
    add(pf + "_content2", lambda ck, der=der: parse.content_hdr(ck, ck.args[0], ck.args[1], ck.args[2].l, TAG(ck, 3), der), "part", der)
    for ty in ("i32", "i64", "u32", "u64"):
        add("%s_%s" % (pf, ty), lambda ck, der=der, ty=ty: parse.int_delegate(ck, ck.args[0], der, ty), "int", der)
add("entry_parse_ber_any", lambda ck: parse.bare_any(ck, ck.args[0]), "part", False)
add("entry_parse_ber_any_r", lambda ck: parse.anytype(ck, ck.args[0], False, ck.args[1].l), "any", False)
add("entry_parse_ber_any_with_tag_r", lambda ck: parse.anytype(ck, ck.args[0], False, ck.args[2].l, tag=TAG(ck, 1)), "any", False)
add("entry_der_visiblestring", lambda ck: parse.typed(ck, ck.args[0], 26, True), "typed", True)
add("entry_der_read_element_content", lambda ck: parse.element_rest(ck, ck.args[0], ck.args[1], True), "part", True)
add("entry_try_from_any", lambda ck: parse.from_any(ck, ck.args[0]), "tryfrom", False)
add("entry_try_from_any_ref", lambda ck: parse.from_any(ck, ck.args[0]), "tryfrom", False)

import value
for nm in value.ACC:
    for lv in ("obj", "con"):
        add("entry_%s_as_%s" % (lv, nm), lambda ck, nm=nm, o=lv == "obj": value.accessor(ck, nm, o), "acc")
for ty in value.W:
    for lv in ("obj", "con"):
        add("entry_%s_as_%s" % (lv, ty), lambda ck, ty=ty, o=lv == "obj": value.int_acc(ck, ty, o), "intacc")
        if ty[0] == "u":
            add("entry_%s_as_%s" % (lv, ty), lambda ck, ty=ty, o=lv == "obj": value.bits_acc(ck, ty, o), "bits", name="%s_as_%s_bits" % (lv, ty))
for nm in ("bigint", "biguint"):
    add("entry_obj_as_" + nm, lambda ck, nm=nm: value.big(ck, nm), "intacc")
add("entry_bs_is_set", value.is_set, "bits")
add("entry_bs_as_ref", value.as_ref, "acc")
for nm in ("class", "tag", "length"):
    add("entry_obj_" + nm, value.hq(nm), "acc")
for nm, c in (("universal", "Universal"), ("application", "Application"), ("contextspecific", "ContextSpecific"), ("private", "Private")):
    add("entry_obj_is_" + nm, value.isclass(c), "acc")
add("entry_obj_is_primitive", value.isconstr(False), "acc")
add("entry_obj_is_constructed", value.isconstr(True), "acc")
add("entry_obj_assert_constructed", value.asserts("constructed", value.constr, "ConstructExpected"), "acc")
add("entry_obj_assert_primitive", value.asserts("primitive", lambda ck: not value.constr(ck), "ConstructUnexpected"), "acc")
add("entry_obj_assert_class", value.asserts("class", value.class_eq, "UnexpectedClass"), "acc")
add("entry_obj_assert_tag", value.asserts("tag", value.tag_eq, "UnexpectedTag"), "acc")
add("entry_from_header_and_content", value.from_parts, "new")
add("entry_from_obj", value.from_content, "new")
add("entry_from_content", value.from_content, "new")
add("entry_from_oid", value.from_value("OID"), "new")
add("entry_from_int_slice", value.from_value("Integer"), "new")
add("entry_from_seq", value.from_value("Sequence"), "new")
add("entry_from_set", value.from_value("Set"), "new")
add("entry_set_raw_tag", value.raw_tag, "new")
for nm in ("obj", "con", "bs"):
    add("entry_%s_clone" % nm, value.clone, "new")
add("entry_index", value.index, "iter")
for m in ("", "_mut"):
    add("entry_visit%s_run" % m, lambda ck, m=m: value.visit(ck, m != "", lambda c: K(0)), "visit")
    add("entry_visit%s_run_at" % m, lambda ck, m=m: value.visit(ck, m != "", lambda c: c.args[2].l), "visit", pre=lambda e, st, a: st.store.assume_ge(K(1 << 60) - a[2].l))

import encode
add("entry_enc_header", encode.enc_header, "ench")
for nm, r in encode.ENTRIES.items():
    for kd in value.KINDS:
        add("entry_" + nm, r, "enc", name="%s(%s)" % (nm, kd), pre=encode.pre(kd, kd != "OctetString" or nm == "enc_tagged_explicit", modular=nm in encode.MODULAR and kd in encode.NESTING))
        if (nm == "enc_tagged_explicit") == (kd == "OctetString"):
            add("entry_" + nm, r, "encbig", name="%s(%s, any tag)" % (nm, kd), pre=encode.pre(kd, False, modular=nm in encode.MODULAR and kd in encode.NESTING))
