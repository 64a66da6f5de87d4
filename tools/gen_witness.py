#!/usr/bin/env python3
"""Writes witness/src/lib.rs: lifetime witnesses derived from the harness' parser entry points, plus hand-written ones for accessors.

Every witness is one line. `// @good NAME` lines must compile; `// @bad NAME` lines (feature "bad") must each be rejected by the
borrow checker, because they claim that parsed data outlives the input it was parsed from."""
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/harness/src/lib.rs").read()
good, bad = [], []


def both(name, sig, ret, body, bads):
    good.append("pub fn good_%s%s -> %s { %s } // @good %s" % (name, sig, ret, body, name))
    for i, b in enumerate(bads):
        bad.append("#[cfg(feature = \"bad\")] pub fn bad%d_%s%s -> %s { %s } // @bad %s" % (i, name, sig, b, body, name))


n = 0
for m in re.finditer(r"^pub fn entry_((?:parse_[bd]er|[bd]er_)\w*)(<'a>)?\((.*?)\) -> (.+?) \{ (.*) \}$", src, re.M):
    nm, _, args, ret, body = m.groups()
    if not args.startswith("i:"):
        continue
    body = re.sub(r"\bcb_", "cb_", body)
    a = args.replace("&[u8]", "&'a [u8]").replace("&'_ [u8]", "&'a [u8]")
    r = ret.replace("'_", "'a").replace("&[u8]", "&'a [u8]")
    t = r
    mm = re.match(r"^(Ber|Der)Result<'a(?:, (.*))?>$", t)
    if mm:
        item, err = mm.group(2) or "Obj<'a>", "BerError"
    else:
        mm = re.match(r"^G<'a, (.*)>$", t)
        if not mm:
            continue
        item, err = mm.group(1), "E0"
    f = lambda rem, it: "IResult<%s, %s, %s>" % (rem, it, err)
    bads = [f("&'static [u8]", item)]
    if "'a" in item:
        bads.append(f("&'a [u8]", item.replace("'a", "'static")))
    both(nm, "<'a>(%s)" % a, f("&'a [u8]", item), body, bads)
    n += 1
assert n > 100, n
for lv, ty in (("obj", "Obj"), ("con", "Con")):
    sig = "<'o, 'a>(o: &'o %s<'a>)" % ty
    R = "Result<%s, BerError>"
    S = lambda x, f, t: R % x.replace(f, t)
    for acc, ret, bads in [
            ("as_slice", "&'a [u8]", ["&'static [u8]"]), ("as_str", "&'a str", ["&'static str"]),
            ("as_oid", "&'o Oid<'a>", ["&'static Oid<'a>", "&'a Oid<'a>", "&'o Oid<'static>"]), ("as_oid_val", "Oid<'a>", ["Oid<'static>"]),
            ("as_optional", "Option<&'o Obj<'a>>", ["Option<&'a Obj<'a>>", "Option<&'o Obj<'static>>"]),
            ("as_tagged", "(Class, Tag, &'o Obj<'a>)", ["(Class, Tag, &'a Obj<'a>)", "(Class, Tag, &'o Obj<'static>)"]),
            ("as_bitstring", "BitStringObject<'a>", ["BitStringObject<'static>"]),
            ("as_bitstring_ref", "&'o BitStringObject<'o>", ["&'o BitStringObject<'static>"]),
            ("as_bitslice", "&'o BitSlice<u8, Msb0>", ["&'static BitSlice<u8, Msb0>"]),
            ("as_sequence", "&'o Vec<Obj<'a>>", ["&'a Vec<Obj<'a>>", "&'o Vec<Obj<'static>>"]),
            ("as_set", "&'o Vec<Obj<'a>>", ["&'a Vec<Obj<'a>>", "&'o Vec<Obj<'static>>"])]:
        both("%s_%s" % (lv, acc), sig, R % ret, "o.%s()" % acc, [R % b for b in bads])
both("obj_clone", "<'a>(o: &Obj<'a>)", "Obj<'a>", "o.clone()", ["Obj<'static>"])
both("con_clone", "<'a>(o: &Con<'a>)", "Con<'a>", "o.clone()", ["Con<'static>"])
both("obj_into_iter", "<'a>(o: Obj<'a>)", "Option<Obj<'a>>", "o.into_iter().next()", ["Option<Obj<'static>>"])
both("obj_ref_iter", "<'a>(o: &'a Obj<'a>)", "Option<&'a Obj<'a>>", "o.ref_iter().next()", ["Option<&'a Obj<'static>>"])
both("obj_index", "<'o, 'a>(o: &'o Obj<'a>)", "&'o Obj<'a>", "&o[0]", ["&'a Obj<'a>", "&'o Obj<'static>"])
both("obj_content", "<'a>(o: Obj<'a>)", "Con<'a>", "o.content", ["Con<'static>"])
both("obj_header", "<'a>(o: Obj<'a>)", "Header<'a>", "o.header", ["Header<'static>"])
both("from_any", "<'a>(a: Any<'a>)", "Result<Obj<'a>, BerError>", "Obj::try_from(a)", ["Result<Obj<'static>, BerError>"])
both("from_any_ref", "<'o, 'a>(a: &'o Any<'a>)", "Result<Obj<'a>, BerError>", "Obj::try_from(a)", ["Result<Obj<'static>, BerError>"])
both("from_header", "<'a>(h: Header<'a>, c: Con<'a>)", "Obj<'a>", "Obj::from_header_and_content(h, c)", ["Obj<'static>"])
both("set_raw_tag", "<'a>(o: Obj<'a>, t: &'a [u8])", "Obj<'a>", "o.set_raw_tag(Some(t))", ["Obj<'static>"])
both("bs_as_ref", "<'o, 'a>(o: &'o BitStringObject<'a>)", "&'o [u8]", "o.as_ref()", ["&'static [u8]"])
both("from_slice", "<'a>(s: &'a [u8])", "Obj<'a>", "Obj::from_int_slice(s)", ["Obj<'static>"])
both("from_seq", "<'a>(s: Vec<Obj<'a>>)", "Obj<'a>", "Obj::from_seq(s)", ["Obj<'static>"])
# data outlives the object it was taken from, but never the input
both("outlives_slice", "<'a>(i: &'a [u8])", "Option<&'a [u8]>", "let (_, o) = parse_ber(i).ok()?; o.as_slice().ok()", ["Option<&'static [u8]>"])
both("outlives_str", "<'a>(i: &'a [u8])", "Option<&'a str>", "let (_, o) = parse_der(i).ok()?; o.as_str().ok()", ["Option<&'static str>"])
both("outlives_oid", "<'a>(i: &'a [u8])", "Option<Oid<'a>>", "let (_, o) = parse_der(i).ok()?; o.as_oid_val().ok()", ["Option<Oid<'static>>"])
both("outlives_bits", "<'a>(i: &'a [u8])", "Option<BitStringObject<'a>>", "let (_, o) = parse_der(i).ok()?; o.as_bitstring().ok()", ["Option<BitStringObject<'static>>"])
bad.append("#[cfg(feature = \"bad\")] pub fn bad_local_obj() -> Option<Obj<'static>> { let v = vec![5, 0]; let r = match parse_ber(&v) { Ok((_, o)) => Some(o), _ => None }; r } // @bad local_obj")
bad.append("#[cfg(feature = \"bad\")] pub fn bad_local_use() -> bool { let o; { let v = vec![5u8, 0]; o = parse_ber(&v); } o.is_ok() } // @bad local_use")
good.append("pub fn good_local_use() -> bool { let v = vec![5u8, 0]; let o = parse_ber(&v); o.is_ok() } // @good local_use")
head = re.search(r"(?s)^(use .*?)^pub fn entry_", src, re.M).group(1)
head = re.sub(r"^use cookie_factory.*\n|^.*ev_item.*\n", "", head, flags=re.M)
if __name__ == "__main__":
    p = V + "/witness/src/lib.rs"
    open(p, "w").write("//! Generated by tools/gen_witness.py: compile-time witnesses that parsed data cannot outlive the input. Never run.\n#![cfg(feature = \"full\")]\n#![allow(unused, deprecated)]\n" +
                       head + "use bitvec::{order::Msb0, slice::BitSlice};\n\n" + "\n".join(good + bad) + "\n")
    print(len(good), len(bad))
