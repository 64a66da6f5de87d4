//! Analysis harness: instantiates the whole public API of der-parser at concrete types so that the
//! exporter can dump its monomorphic MIR. Nothing here is ever run. `entry_*` are the analysis roots;
//! `cb_*` (caller-supplied callbacks) and `ev_*` are modelled by the analyser, their bodies are not.
#![allow(unused_variables, clippy::all, deprecated)]
use der_parser::asn1_rs::{self, ASN1DateTime, Any, Oid};
use der_parser::ber::*;
use der_parser::der::{self, *};
use der_parser::error::*;
use der_parser::nom::error::{ErrorKind, ParseError};
use der_parser::nom::IResult;
use cookie_factory::{gen_simple, GenError};
use std::convert::TryFrom;

/// opaque output type and opaque error type of generic combinators
pub struct T0(pub u64);
pub enum E0 { Nom(u64), Ber(BerError), Other(u64) }
impl From<BerError> for E0 { fn from(e: BerError) -> E0 { E0::Ber(e) } }
impl<'a> ParseError<&'a [u8]> for E0 {
    fn from_error_kind(_: &'a [u8], _: ErrorKind) -> Self { E0::Nom(0) }
    fn append(_: &'a [u8], _: ErrorKind, other: Self) -> Self { other }
}
type G<'a, T> = IResult<&'a [u8], T, E0>;
type Obj<'a> = BerObject<'a>;
type Con<'a> = BerObjectContent<'a>;

#[inline(never)] pub fn cb_obj<'a>(i: &'a [u8]) -> BerResult<'a> { loop {} }
#[inline(never)] pub fn cb_g<'a>(i: &'a [u8]) -> G<'a, T0> { loop {} }
#[inline(never)] pub fn cb_vec<'a>(i: &'a [u8]) -> BerResult<'a, Vec<Obj<'a>>> { loop {} }
#[inline(never)] pub fn cb_hdr_g<'a>(i: &'a [u8], h: Header<'a>) -> G<'a, T0> { loop {} }
#[inline(never)] pub fn cb_imp<'a>(i: &'a [u8], h: &Header, d: usize) -> BerResult<'a, Con<'a>> { loop {} }
#[inline(never)] pub fn cb_imp_g<'a>(i: &'a [u8], h: Header<'a>, d: usize) -> G<'a, T0> { loop {} }
#[inline(never)] pub fn ev_item<'a>(o: Obj<'a>) { loop {} }
#[inline(never)] pub fn ev_item_ref<'a>(o: &'a Obj<'a>) { loop {} }

pub fn entry_parse_ber_endofcontent(i: &[u8]) -> BerResult<'_> { parse_ber_endofcontent(i) }
pub fn entry_parse_ber_bool(i: &[u8]) -> BerResult<'_> { parse_ber_bool(i) }
pub fn entry_parse_ber_integer(i: &[u8]) -> BerResult<'_> { parse_ber_integer(i) }
pub fn entry_parse_ber_bitstring(i: &[u8]) -> BerResult<'_> { parse_ber_bitstring(i) }
pub fn entry_parse_ber_octetstring(i: &[u8]) -> BerResult<'_> { parse_ber_octetstring(i) }
pub fn entry_parse_ber_null(i: &[u8]) -> BerResult<'_> { parse_ber_null(i) }
pub fn entry_parse_ber_oid(i: &[u8]) -> BerResult<'_> { parse_ber_oid(i) }
pub fn entry_parse_ber_enum(i: &[u8]) -> BerResult<'_> { parse_ber_enum(i) }
pub fn entry_parse_ber_utf8string(i: &[u8]) -> BerResult<'_> { parse_ber_utf8string(i) }
pub fn entry_parse_ber_relative_oid(i: &[u8]) -> BerResult<'_> { parse_ber_relative_oid(i) }
pub fn entry_parse_ber_sequence(i: &[u8]) -> BerResult<'_> { parse_ber_sequence(i) }
pub fn entry_parse_ber_set(i: &[u8]) -> BerResult<'_> { parse_ber_set(i) }
pub fn entry_parse_ber_numericstring(i: &[u8]) -> BerResult<'_> { parse_ber_numericstring(i) }
pub fn entry_parse_ber_visiblestring(i: &[u8]) -> BerResult<'_> { parse_ber_visiblestring(i) }
pub fn entry_parse_ber_printablestring(i: &[u8]) -> BerResult<'_> { parse_ber_printablestring(i) }
pub fn entry_parse_ber_t61string(i: &[u8]) -> BerResult<'_> { parse_ber_t61string(i) }
pub fn entry_parse_ber_videotexstring(i: &[u8]) -> BerResult<'_> { parse_ber_videotexstring(i) }
pub fn entry_parse_ber_ia5string(i: &[u8]) -> BerResult<'_> { parse_ber_ia5string(i) }
pub fn entry_parse_ber_utctime(i: &[u8]) -> BerResult<'_> { parse_ber_utctime(i) }
pub fn entry_parse_ber_generalizedtime(i: &[u8]) -> BerResult<'_> { parse_ber_generalizedtime(i) }
pub fn entry_parse_ber_objectdescriptor(i: &[u8]) -> BerResult<'_> { parse_ber_objectdescriptor(i) }
pub fn entry_parse_ber_graphicstring(i: &[u8]) -> BerResult<'_> { parse_ber_graphicstring(i) }
pub fn entry_parse_ber_generalstring(i: &[u8]) -> BerResult<'_> { parse_ber_generalstring(i) }
pub fn entry_parse_ber_bmpstring(i: &[u8]) -> BerResult<'_> { parse_ber_bmpstring(i) }
pub fn entry_parse_ber_universalstring(i: &[u8]) -> BerResult<'_> { parse_ber_universalstring(i) }
pub fn entry_parse_ber_i32(i: &[u8]) -> BerResult<'_, i32> { parse_ber_i32(i) }
pub fn entry_parse_ber_i64(i: &[u8]) -> BerResult<'_, i64> { parse_ber_i64(i) }
pub fn entry_parse_ber_u32(i: &[u8]) -> BerResult<'_, u32> { parse_ber_u32(i) }
pub fn entry_parse_ber_u64(i: &[u8]) -> BerResult<'_, u64> { parse_ber_u64(i) }
pub fn entry_parse_ber(i: &[u8]) -> BerResult<'_> { parse_ber(i) }
pub fn entry_parse_ber_recursive(i: &[u8], max_depth: usize) -> BerResult<'_> { parse_ber_recursive(i, max_depth) }
pub fn entry_parse_ber_with_tag(i: &[u8], tag: Tag) -> BerResult<'_> { parse_ber_with_tag(i, tag) }
pub fn entry_ber_read_element_header(i: &[u8]) -> BerResult<'_, Header<'_>> { ber_read_element_header(i) }
pub fn entry_ber_read_element_content_as(i: &[u8], tag: Tag, length: Length, constructed: bool, max_depth: usize) -> BerResult<'_, Con<'_>> { ber_read_element_content_as(i, tag, length, constructed, max_depth) }
pub fn entry_parse_ber_content<'a>(i: &'a [u8], hdr: &Header, max_depth: usize, tag: Tag) -> BerResult<'a, Con<'a>> { parse_ber_content(tag)(i, hdr, max_depth) }
pub fn entry_parse_ber_content2<'a>(i: &'a [u8], hdr: Header<'a>, max_depth: usize, tag: Tag) -> BerResult<'a, Con<'a>> { parse_ber_content2(tag)(i, hdr, max_depth) }
pub fn entry_parse_ber_slice(i: &[u8], tag: Tag) -> BerResult<'_, &[u8]> { parse_ber_slice(i, tag) }
pub fn entry_parse_ber_explicit_optional(i: &[u8], tag: Tag) -> BerResult<'_> { parse_ber_explicit_optional(i, tag, cb_obj) }
pub fn entry_parse_ber_implicit(i: &[u8], tag: Tag) -> BerResult<'_> { parse_ber_implicit(i, tag, cb_imp) }
pub fn entry_parse_ber_container(i: &[u8]) -> G<'_, T0> { parse_ber_container(cb_hdr_g)(i) }
pub fn entry_parse_ber_tagged_explicit(i: &[u8], tag: Tag) -> BerResult<'_> { parse_ber_tagged_explicit(tag, cb_obj)(i) }
pub fn entry_parse_ber_tagged_explicit_g(i: &[u8], tag: Tag) -> G<'_, T0> { parse_ber_tagged_explicit_g(tag, cb_hdr_g)(i) }
pub fn entry_parse_ber_tagged_implicit(i: &[u8], tag: Tag) -> BerResult<'_> { parse_ber_tagged_implicit(tag, cb_imp)(i) }
pub fn entry_parse_ber_tagged_implicit_g(i: &[u8], tag: Tag) -> G<'_, T0> { parse_ber_tagged_implicit_g(tag, cb_imp_g)(i) }
pub fn entry_parse_ber_sequence_of(i: &[u8]) -> BerResult<'_> { parse_ber_sequence_of(cb_obj)(i) }
pub fn entry_parse_ber_sequence_of_v(i: &[u8]) -> G<'_, Vec<T0>> { parse_ber_sequence_of_v(cb_g)(i) }
pub fn entry_parse_ber_sequence_defined(i: &[u8]) -> BerResult<'_> { parse_ber_sequence_defined(cb_vec)(i) }
pub fn entry_parse_ber_sequence_defined_g(i: &[u8]) -> G<'_, T0> { parse_ber_sequence_defined_g(cb_hdr_g)(i) }
pub fn entry_parse_ber_set_of(i: &[u8]) -> BerResult<'_> { parse_ber_set_of(cb_obj)(i) }
pub fn entry_parse_ber_set_of_v(i: &[u8]) -> G<'_, Vec<T0>> { parse_ber_set_of_v(cb_g)(i) }
pub fn entry_parse_ber_set_defined(i: &[u8]) -> BerResult<'_> { parse_ber_set_defined(cb_vec)(i) }
pub fn entry_parse_ber_set_defined_g(i: &[u8]) -> G<'_, T0> { parse_ber_set_defined_g(cb_hdr_g)(i) }
pub fn entry_parse_der_endofcontent(i: &[u8]) -> BerResult<'_> { parse_der_endofcontent(i) }
pub fn entry_parse_der_bool(i: &[u8]) -> BerResult<'_> { parse_der_bool(i) }
pub fn entry_parse_der_integer(i: &[u8]) -> BerResult<'_> { parse_der_integer(i) }
pub fn entry_parse_der_bitstring(i: &[u8]) -> BerResult<'_> { parse_der_bitstring(i) }
pub fn entry_parse_der_octetstring(i: &[u8]) -> BerResult<'_> { parse_der_octetstring(i) }
pub fn entry_parse_der_null(i: &[u8]) -> BerResult<'_> { parse_der_null(i) }
pub fn entry_parse_der_oid(i: &[u8]) -> BerResult<'_> { parse_der_oid(i) }
pub fn entry_parse_der_enum(i: &[u8]) -> BerResult<'_> { parse_der_enum(i) }
pub fn entry_parse_der_utf8string(i: &[u8]) -> BerResult<'_> { parse_der_utf8string(i) }
pub fn entry_parse_der_relative_oid(i: &[u8]) -> BerResult<'_> { parse_der_relative_oid(i) }
pub fn entry_parse_der_sequence(i: &[u8]) -> BerResult<'_> { parse_der_sequence(i) }
pub fn entry_parse_der_set(i: &[u8]) -> BerResult<'_> { parse_der_set(i) }
pub fn entry_parse_der_numericstring(i: &[u8]) -> BerResult<'_> { parse_der_numericstring(i) }
pub fn entry_parse_der_visiblestring(i: &[u8]) -> BerResult<'_> { parse_der_visiblestring(i) }
pub fn entry_parse_der_printablestring(i: &[u8]) -> BerResult<'_> { parse_der_printablestring(i) }
pub fn entry_parse_der_t61string(i: &[u8]) -> BerResult<'_> { parse_der_t61string(i) }
pub fn entry_parse_der_videotexstring(i: &[u8]) -> BerResult<'_> { parse_der_videotexstring(i) }
pub fn entry_parse_der_ia5string(i: &[u8]) -> BerResult<'_> { parse_der_ia5string(i) }
pub fn entry_parse_der_utctime(i: &[u8]) -> BerResult<'_> { parse_der_utctime(i) }
pub fn entry_parse_der_generalizedtime(i: &[u8]) -> BerResult<'_> { parse_der_generalizedtime(i) }
pub fn entry_parse_der_objectdescriptor(i: &[u8]) -> BerResult<'_> { parse_der_objectdescriptor(i) }
pub fn entry_parse_der_graphicstring(i: &[u8]) -> BerResult<'_> { parse_der_graphicstring(i) }
pub fn entry_parse_der_generalstring(i: &[u8]) -> BerResult<'_> { parse_der_generalstring(i) }
pub fn entry_parse_der_bmpstring(i: &[u8]) -> BerResult<'_> { parse_der_bmpstring(i) }
pub fn entry_parse_der_universalstring(i: &[u8]) -> BerResult<'_> { parse_der_universalstring(i) }
pub fn entry_parse_der_i32(i: &[u8]) -> BerResult<'_, i32> { parse_der_i32(i) }
pub fn entry_parse_der_i64(i: &[u8]) -> BerResult<'_, i64> { parse_der_i64(i) }
pub fn entry_parse_der_u32(i: &[u8]) -> BerResult<'_, u32> { parse_der_u32(i) }
pub fn entry_parse_der_u64(i: &[u8]) -> BerResult<'_, u64> { parse_der_u64(i) }
pub fn entry_parse_der(i: &[u8]) -> BerResult<'_> { parse_der(i) }
pub fn entry_parse_der_recursive(i: &[u8], max_depth: usize) -> BerResult<'_> { parse_der_recursive(i, max_depth) }
pub fn entry_parse_der_with_tag(i: &[u8], tag: Tag) -> BerResult<'_> { parse_der_with_tag(i, tag) }
pub fn entry_der_read_element_header(i: &[u8]) -> BerResult<'_, Header<'_>> { der_read_element_header(i) }
pub fn entry_der_read_element_content_as(i: &[u8], tag: Tag, length: Length, constructed: bool, max_depth: usize) -> BerResult<'_, Con<'_>> { der_read_element_content_as(i, tag, length, constructed, max_depth) }
pub fn entry_parse_der_content<'a>(i: &'a [u8], hdr: &Header, max_depth: usize, tag: Tag) -> BerResult<'a, Con<'a>> { parse_der_content(tag)(i, hdr, max_depth) }
pub fn entry_parse_der_content2<'a>(i: &'a [u8], hdr: Header<'a>, max_depth: usize, tag: Tag) -> BerResult<'a, Con<'a>> { parse_der_content2(tag)(i, hdr, max_depth) }
pub fn entry_parse_der_slice(i: &[u8], tag: Tag) -> BerResult<'_, &[u8]> { parse_der_slice(i, tag) }
pub fn entry_parse_der_explicit_optional(i: &[u8], tag: Tag) -> BerResult<'_> { parse_der_explicit_optional(i, tag, cb_obj) }
pub fn entry_parse_der_implicit(i: &[u8], tag: Tag) -> BerResult<'_> { parse_der_implicit(i, tag, cb_imp) }
pub fn entry_parse_der_container(i: &[u8]) -> G<'_, T0> { parse_der_container(cb_hdr_g)(i) }
pub fn entry_parse_der_tagged_explicit(i: &[u8], tag: Tag) -> BerResult<'_> { parse_der_tagged_explicit(tag, cb_obj)(i) }
pub fn entry_parse_der_tagged_explicit_g(i: &[u8], tag: Tag) -> G<'_, T0> { parse_der_tagged_explicit_g(tag, cb_hdr_g)(i) }
pub fn entry_parse_der_tagged_implicit(i: &[u8], tag: Tag) -> BerResult<'_> { parse_der_tagged_implicit(tag, cb_imp)(i) }
pub fn entry_parse_der_tagged_implicit_g(i: &[u8], tag: Tag) -> G<'_, T0> { parse_der_tagged_implicit_g(tag, cb_imp_g)(i) }
pub fn entry_parse_der_sequence_of(i: &[u8]) -> BerResult<'_> { parse_der_sequence_of(cb_obj)(i) }
pub fn entry_parse_der_sequence_of_v(i: &[u8]) -> G<'_, Vec<T0>> { parse_der_sequence_of_v(cb_g)(i) }
pub fn entry_parse_der_sequence_defined(i: &[u8]) -> BerResult<'_> { parse_der_sequence_defined(cb_vec)(i) }
pub fn entry_parse_der_sequence_defined_g(i: &[u8]) -> G<'_, T0> { parse_der_sequence_defined_g(cb_hdr_g)(i) }
pub fn entry_parse_der_set_of(i: &[u8]) -> BerResult<'_> { parse_der_set_of(cb_obj)(i) }
pub fn entry_parse_der_set_of_v(i: &[u8]) -> G<'_, Vec<T0>> { parse_der_set_of_v(cb_g)(i) }
pub fn entry_parse_der_set_defined(i: &[u8]) -> BerResult<'_> { parse_der_set_defined(cb_vec)(i) }
pub fn entry_parse_der_set_defined_g(i: &[u8]) -> G<'_, T0> { parse_der_set_defined_g(cb_hdr_g)(i) }
pub fn entry_parse_ber_optional(i: &[u8]) -> BerResult<'_> { parse_ber_optional(cb_obj)(i) }
pub fn entry_parse_ber_any(i: &[u8]) -> BerResult<'_, Any<'_>> { parse_ber_any(i) }
pub fn entry_parse_ber_any_r(i: &[u8], max_depth: usize) -> BerResult<'_> { parse_ber_any_r(i, max_depth) }
pub fn entry_parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResult<'_> { parse_ber_any_with_tag_r(i, tag, max_depth) }
pub fn entry_der_visiblestring(i: &[u8]) -> BerResult<'_> { der::visiblestring(i) }
pub fn entry_der_read_element_content<'a>(i: &'a [u8], hdr: Header<'a>) -> BerResult<'a> { der_read_element_content(i, hdr) }
pub fn entry_try_from_any<'a>(any: Any<'a>) -> Result<Obj<'a>, BerError> { BerObject::try_from(any) }
pub fn entry_try_from_any_ref<'a>(any: &Any<'a>) -> Result<Obj<'a>, BerError> { BerObject::try_from(any) }

pub fn entry_obj_as_i64<'a, 'b>(o: &'b Obj<'a>) -> Result<i64, BerError> { o.as_i64() }
pub fn entry_con_as_i64<'a, 'b>(o: &'b Con<'a>) -> Result<i64, BerError> { o.as_i64() }
pub fn entry_obj_as_i32<'a, 'b>(o: &'b Obj<'a>) -> Result<i32, BerError> { o.as_i32() }
pub fn entry_con_as_i32<'a, 'b>(o: &'b Con<'a>) -> Result<i32, BerError> { o.as_i32() }
pub fn entry_obj_as_u64<'a, 'b>(o: &'b Obj<'a>) -> Result<u64, BerError> { o.as_u64() }
pub fn entry_con_as_u64<'a, 'b>(o: &'b Con<'a>) -> Result<u64, BerError> { o.as_u64() }
pub fn entry_obj_as_u32<'a, 'b>(o: &'b Obj<'a>) -> Result<u32, BerError> { o.as_u32() }
pub fn entry_con_as_u32<'a, 'b>(o: &'b Con<'a>) -> Result<u32, BerError> { o.as_u32() }
pub fn entry_obj_as_bool<'a, 'b>(o: &'b Obj<'a>) -> Result<bool, BerError> { o.as_bool() }
pub fn entry_con_as_bool<'a, 'b>(o: &'b Con<'a>) -> Result<bool, BerError> { o.as_bool() }
pub fn entry_obj_as_oid<'a, 'b>(o: &'b Obj<'a>) -> Result<&'b Oid<'a>, BerError> { o.as_oid() }
pub fn entry_con_as_oid<'a, 'b>(o: &'b Con<'a>) -> Result<&'b Oid<'a>, BerError> { o.as_oid() }
pub fn entry_obj_as_oid_val<'a, 'b>(o: &'b Obj<'a>) -> Result<Oid<'a>, BerError> { o.as_oid_val() }
pub fn entry_con_as_oid_val<'a, 'b>(o: &'b Con<'a>) -> Result<Oid<'a>, BerError> { o.as_oid_val() }
pub fn entry_obj_as_optional<'a, 'b>(o: &'b Obj<'a>) -> Result<Option<&'b Obj<'a>>, BerError> { o.as_optional() }
pub fn entry_con_as_optional<'a, 'b>(o: &'b Con<'a>) -> Result<Option<&'b Obj<'a>>, BerError> { o.as_optional() }
pub fn entry_obj_as_tagged<'a, 'b>(o: &'b Obj<'a>) -> Result<(Class, Tag, &'b Obj<'a>), BerError> { o.as_tagged() }
pub fn entry_con_as_tagged<'a, 'b>(o: &'b Con<'a>) -> Result<(Class, Tag, &'b Obj<'a>), BerError> { o.as_tagged() }
pub fn entry_obj_as_bitstring_ref<'a, 'b>(o: &'b Obj<'a>) -> Result<&'b BitStringObject<'b>, BerError> { o.as_bitstring_ref() }
pub fn entry_con_as_bitstring_ref<'a, 'b>(o: &'b Con<'a>) -> Result<&'b BitStringObject<'b>, BerError> { o.as_bitstring_ref() }
pub fn entry_obj_as_bitstring<'a, 'b>(o: &'b Obj<'a>) -> Result<BitStringObject<'a>, BerError> { o.as_bitstring() }
pub fn entry_con_as_bitstring<'a, 'b>(o: &'b Con<'a>) -> Result<BitStringObject<'a>, BerError> { o.as_bitstring() }
pub fn entry_obj_as_sequence<'a, 'b>(o: &'b Obj<'a>) -> Result<&'b Vec<Obj<'a>>, BerError> { o.as_sequence() }
pub fn entry_con_as_sequence<'a, 'b>(o: &'b Con<'a>) -> Result<&'b Vec<Obj<'a>>, BerError> { o.as_sequence() }
pub fn entry_obj_as_set<'a, 'b>(o: &'b Obj<'a>) -> Result<&'b Vec<Obj<'a>>, BerError> { o.as_set() }
pub fn entry_con_as_set<'a, 'b>(o: &'b Con<'a>) -> Result<&'b Vec<Obj<'a>>, BerError> { o.as_set() }
pub fn entry_obj_as_slice<'a, 'b>(o: &'b Obj<'a>) -> Result<&'a [u8], BerError> { o.as_slice() }
pub fn entry_con_as_slice<'a, 'b>(o: &'b Con<'a>) -> Result<&'a [u8], BerError> { o.as_slice() }
pub fn entry_obj_as_str<'a, 'b>(o: &'b Obj<'a>) -> Result<&'a str, BerError> { o.as_str() }
pub fn entry_con_as_str<'a, 'b>(o: &'b Con<'a>) -> Result<&'a str, BerError> { o.as_str() }
pub fn entry_obj_as_bitslice(o: &Obj<'_>) { let _ = o.as_bitslice(); }
pub fn entry_con_as_bitslice(o: &Con<'_>) { let _ = o.as_bitslice(); }
pub fn entry_bs_as_bitslice(o: &BitStringObject<'_>) { let _ = o.as_bitslice(); }
pub fn entry_obj_as_bigint(o: &Obj<'_>) -> Result<num_bigint::BigInt, BerError> { o.as_bigint() }
pub fn entry_obj_as_biguint(o: &Obj<'_>) -> Result<num_bigint::BigUint, BerError> { o.as_biguint() }
pub fn entry_bs_is_set(o: &BitStringObject<'_>, bitnum: usize) -> bool { o.is_set(bitnum) }
pub fn entry_bs_as_ref<'a>(o: &'a BitStringObject<'a>) -> &'a [u8] { o.as_ref() }
pub fn entry_obj_class(o: &Obj<'_>) -> Class { o.class() }
pub fn entry_obj_tag(o: &Obj<'_>) -> Tag { o.tag() }
pub fn entry_obj_length(o: &Obj<'_>) -> Length { o.length() }
pub fn entry_obj_is_universal(o: &Obj<'_>) -> bool { o.is_universal() }
pub fn entry_obj_is_application(o: &Obj<'_>) -> bool { o.is_application() }
pub fn entry_obj_is_contextspecific(o: &Obj<'_>) -> bool { o.is_contextspecific() }
pub fn entry_obj_is_private(o: &Obj<'_>) -> bool { o.is_private() }
pub fn entry_obj_is_primitive(o: &Obj<'_>) -> bool { o.is_primitive() }
pub fn entry_obj_is_constructed(o: &Obj<'_>) -> bool { o.is_constructed() }
pub fn entry_obj_assert_constructed(o: &Obj<'_>) -> Result<(), BerError> { o.assert_constructed() }
pub fn entry_obj_assert_primitive(o: &Obj<'_>) -> Result<(), BerError> { o.assert_primitive() }
pub fn entry_obj_assert_class(o: &Obj<'_>, class: Class) -> Result<(), BerError> { o.assert_class(class) }
pub fn entry_obj_assert_tag(o: &Obj<'_>, tag: Tag) -> Result<(), BerError> { o.assert_tag(tag) }
pub fn entry_from_header_and_content<'a>(header: Header<'a>, c: Con<'a>) -> Obj<'a> { BerObject::from_header_and_content(header, c) }
pub fn entry_from_obj<'a>(c: Con<'a>) -> Obj<'a> { BerObject::from_obj(c) }
pub fn entry_from_content<'a>(c: Con<'a>) -> Obj<'a> { BerObject::from(c) }
pub fn entry_from_oid<'a>(oid: Oid<'a>) -> Obj<'a> { BerObject::from(oid) }
pub fn entry_from_int_slice<'a>(s: &'a [u8]) -> Obj<'a> { BerObject::from_int_slice(s) }
pub fn entry_from_seq<'a>(l: Vec<Obj<'a>>) -> Obj<'a> { BerObject::from_seq(l) }
pub fn entry_from_set<'a>(l: Vec<Obj<'a>>) -> Obj<'a> { BerObject::from_set(l) }
pub fn entry_set_raw_tag<'a>(o: Obj<'a>, raw: Option<&'a [u8]>) -> Obj<'a> { o.set_raw_tag(raw) }
pub fn entry_obj_clone<'a>(o: &Obj<'a>) -> Obj<'a> { o.clone() }
pub fn entry_con_clone<'a>(o: &Con<'a>) -> Con<'a> { o.clone() }
pub fn entry_bs_clone<'a>(o: &BitStringObject<'a>) -> BitStringObject<'a> { o.clone() }
pub fn entry_obj_eq(a: &Obj<'_>, b: &Obj<'_>) -> bool { a == b }
pub fn entry_index<'b, 'a>(o: &'b Obj<'a>, idx: usize) -> &'b Obj<'a> { &o[idx] }
pub fn entry_into_iter(o: Obj<'_>) { let mut it = o.into_iter(); while let Some(x) = it.next() { ev_item(x) } }
pub fn entry_into_iter_new(o: Obj<'_>) -> BerObjectIntoIterator<'_> { o.into_iter() }
pub fn entry_into_iter_next<'a>(it: &mut BerObjectIntoIterator<'a>) -> Option<Obj<'a>> { it.next() }
pub fn entry_ref_iter_new<'a>(o: &'a Obj<'a>) -> BerObjectRefIterator<'a> { o.ref_iter() }
pub fn entry_ref_iter_next<'a>(it: &mut BerObjectRefIterator<'a>) -> Option<&'a Obj<'a>> { it.next() }
pub fn entry_ref_iter<'a>(o: &'a Obj<'a>) { let mut it = o.ref_iter(); while let Some(x) = it.next() { ev_item_ref(x) } }
pub fn entry_enc_header(h: &Header) -> Result<Vec<u8>, GenError> { gen_simple(ber_encode_header(h), Vec::new()) }
pub fn entry_enc_object(o: &Obj<'_>) -> Result<Vec<u8>, GenError> { gen_simple(ber_encode_object(o), Vec::new()) }
pub fn entry_enc_object_raw(h: &Header, c: &Con<'_>) -> Result<Vec<u8>, GenError> { gen_simple(ber_encode_object_raw(h, c), Vec::new()) }
pub fn entry_enc_tagged_explicit(tag: Tag, class: Class, o: &Obj<'_>) -> Result<Vec<u8>, GenError> { gen_simple(ber_encode_tagged_explicit(tag, class, o), Vec::new()) }
pub fn entry_enc_tagged_implicit(tag: Tag, class: Class, o: &Obj<'_>) -> Result<Vec<u8>, GenError> { gen_simple(ber_encode_tagged_implicit(tag, class, o), Vec::new()) }
pub fn entry_to_vec(o: &Obj<'_>) -> Result<Vec<u8>, GenError> { o.to_vec() }
pub fn entry_as_pretty<'a>(o: &'a Obj<'a>, indent: usize, inc: usize) -> PrettyBer<'a> { o.as_pretty(indent, inc) }
pub fn entry_pretty_new<'a>(o: &'a Obj<'a>, flags: Vec<PrettyPrinterFlag>, indent: usize, inc: usize) -> PrettyBer<'a> { PrettyBer::new(o, flags, indent, inc) }
pub fn entry_pretty_fmt(p: &PrettyBer<'_>, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(p, f) }
pub fn entry_pretty_set_flag(p: &mut PrettyBer<'_>, fl: PrettyPrinterFlag) { p.set_flag(fl) }
pub fn entry_pretty_unset_flag(p: &mut PrettyBer<'_>, fl: PrettyPrinterFlag) { p.unset_flag(fl) }
pub fn entry_pretty_is_flag_set(p: &PrettyBer<'_>, fl: PrettyPrinterFlag) -> bool { p.is_flag_set(fl) }
pub fn entry_pretty_next_indent<'b>(p: &PrettyBer<'_>, o: &'b Obj<'b>) -> PrettyBer<'b> { p.next_indent(o) }
pub fn entry_con_debug(c: &Con<'_>, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(c, f) }
pub fn entry_bs_debug(c: &BitStringObject<'_>, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(c, f) }
pub fn entry_into_iter_debug(c: &BerObjectIntoIterator<'_>, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(c, f) }
pub fn entry_ref_iter_debug(c: &BerObjectRefIterator<'_>, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(c, f) }
pub fn entry_flag_debug(c: &PrettyPrinterFlag, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(c, f) }
pub fn entry_flag_clone(c: &PrettyPrinterFlag) -> PrettyPrinterFlag { c.clone() }
/// visitors that keep all the default callbacks
pub struct V0;
pub struct M0;
impl<'a> Visit<'a> for V0 {}
impl<'a> VisitMut<'a> for M0 {}
pub fn entry_visit_default<'a>(v: &mut V0, o: &'a Obj<'a>, depth: usize) { v.run_at(o, depth) }
pub fn entry_visit_mut_default<'a>(v: &mut M0, o: &'a mut Obj<'a>, depth: usize) { v.run_at(o, depth) }
pub struct V(pub u64);
pub struct M(pub u64);

pub fn entry_visit_run<'a>(v: &mut V, o: &'a Obj<'a>) { v.run(o) }
pub fn entry_visit_run_at<'a>(v: &mut V, o: &'a Obj<'a>, depth: usize) { v.run_at(o, depth) }
pub fn entry_visit_mut_run<'a>(v: &mut M, o: &'a mut Obj<'a>) { v.run(o) }
pub fn entry_visit_mut_run_at<'a>(v: &mut M, o: &'a mut Obj<'a>, depth: usize) { v.run_at(o, depth) }

impl<'a> Visit<'a> for V {
    #[inline(never)] fn visit_ber(&mut self, ber: &'_ BerObject<'a>, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_bitstring(&mut self, ignored: u8, data: &'a BitStringObject, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_bmpstring(&mut self, s: &'a [u8], depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_boolean(&mut self, b: bool, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_endofcontent(&mut self, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_enum(&mut self, e: u64, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_generalstring(&mut self, s: &'a str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_generalizedtime(&mut self, t: &'a ASN1DateTime, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_graphicstring(&mut self, s: &'a str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_ia5string(&mut self, s: &'a str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_integer(&mut self, raw_bytes: &'a [u8], depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_null(&mut self, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_numericstring(&mut self, s: &'a str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_oid(&mut self, oid: &'a Oid, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_objectdescriptor(&mut self, s: &'a str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_octetstring(&mut self, b: &'a [u8], depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_optional(&mut self, obj: Option<&'a BerObject<'a>>, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_printablestring(&mut self, s: &'a str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_relative_oid(&mut self, oid: &'a Oid, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_sequence(&mut self, ber: &'_ [BerObject<'a>], depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_set(&mut self, ber: &'_ [BerObject<'a>], depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_teletexstring(&mut self, s: &'a str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_tagged(&mut self, class: Class, tag: Tag, obj: &'_ BerObject<'a>, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_utctime(&mut self, t: &'a ASN1DateTime, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_utf8string(&mut self, s: &'a str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_universalstring(&mut self, raw_bytes: &'a [u8], depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_videotextstring(&mut self, raw_bytes: &'a str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_visiblestring(&mut self, raw_bytes: &'a str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_unknown(&mut self, ber: &'_ Any<'a>, depth: usize) { loop {} }
}
impl<'a> VisitMut<'a> for M {
    #[inline(never)] fn visit_ber_mut(&mut self, ber: &'_ mut BerObject<'a>, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_bitstring_mut(&mut self, ignored: &mut u8, data: &'a mut BitStringObject, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_bmpstring_mut(&mut self, s: &'a mut &'_ [u8], depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_boolean_mut(&mut self, b: &'a mut bool, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_endofcontent_mut(&mut self, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_enum_mut(&mut self, e: &'a mut u64, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_generalstring_mut(&mut self, s: &'a mut &'_ str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_generalizedtime_mut(&mut self, t: &'a ASN1DateTime, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_graphicstring_mut(&mut self, s: &'a mut &'_ str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_ia5string_mut(&mut self, s: &'a mut &'_ str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_integer_mut(&mut self, raw_bytes: &'a mut &'_ [u8], depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_null_mut(&mut self, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_numericstring_mut(&mut self, s: &'a mut &'_ str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_oid_mut(&mut self, oid: &'a mut Oid, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_objectdescriptor_mut(&mut self, s: &'a mut &'_ str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_octetstring_mut(&mut self, b: &'a [u8], depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_optional_mut(&mut self, obj: Option<&'a mut BerObject<'a>>, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_printablestring_mut(&mut self, s: &'a mut &'_ str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_relative_oid_mut(&mut self, oid: &'a mut Oid, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_sequence_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_set_mut(&mut self, ber: &'_ mut Vec<BerObject<'a>>, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_teletexstring_mut(&mut self, s: &'a mut &'_ str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_tagged_mut(&mut self, class: &'a mut Class, tag: &'a mut Tag, obj: &'a mut BerObject<'a>, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_utctime_mut(&mut self, t: &'a ASN1DateTime, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_utf8string_mut(&mut self, s: &'a str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_universalstring_mut(&mut self, raw_bytes: &'a mut &'_ [u8], depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_videotextstring_mut(&mut self, raw_bytes: &'a mut &'_ str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_visiblestring_mut(&mut self, raw_bytes: &'a mut &'_ str, depth: usize) { loop {} }
    #[inline(never)] fn visit_ber_unknown_mut(&mut self, ber: &'_ mut Any<'a>, depth: usize) { loop {} }
}

/// positive examples of the effect rule: each of these must be reported by it (never part of the analysed API)
pub mod probes {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::{Mutex, OnceLock};
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    static LOCK: Mutex<u32> = Mutex::new(0);
    static ONCE: OnceLock<u32> = OnceLock::new();
    static TABLE: [u8; 3] = [1, 2, 3];
    static INDIRECT: &AtomicUsize = &COUNT;
    thread_local! { static TL: Cell<u32> = const { Cell::new(0) }; static TL2: Cell<Vec<u8>> = Cell::new(Vec::new()); }
    pub fn probe_atomic() -> usize { COUNT.fetch_add(1, Ordering::Relaxed) }
    pub fn probe_indirect() -> usize { INDIRECT.load(Ordering::Relaxed) }
    pub fn probe_mutex() -> u32 { *LOCK.lock().unwrap() }
    pub fn probe_once() -> u32 { *ONCE.get_or_init(|| 3) }
    pub fn probe_tls() -> u32 { TL.with(|c| { c.set(c.get() + 1); c.get() }) }
    pub fn probe_tls2() -> u32 { TL2.take().len() as u32 }
    pub fn probe_env() -> bool { std::env::var("X").is_ok() }
    pub fn probe_time() -> u64 { std::time::SystemTime::now().elapsed().map(|d| d.as_secs()).unwrap_or(0) }
    pub fn probe_instant() -> std::time::Instant { std::time::Instant::now() }
    pub fn probe_print() { println!("x") }
    pub fn probe_eprint() { eprintln!("x") }
    pub fn probe_fs() -> bool { std::fs::read("x").is_ok() }
    pub fn probe_hash() -> usize { let m: std::collections::HashMap<u8, u8> = std::collections::HashMap::new(); m.len() }
    pub fn probe_thread() -> bool { std::thread::panicking() }
    pub fn probe_address(x: &u8) -> usize { x as *const u8 as usize }
    pub fn probe_closure(v: &[u8]) -> usize { v.iter().map(|_| COUNT.load(Ordering::Relaxed)).sum() }
    pub fn probe_leak(v: &[u8]) -> &'static [u8] { Box::leak(v.to_vec().into_boxed_slice()) }
    pub fn probe_leak2(v: &[u8]) -> &'static mut [u8] { v.to_vec().leak() }
    /// a constant table is not mutable state: must not be reported
    pub fn probe_ok(i: usize) -> u8 { TABLE[i % 3] }
    /// interior mutability of a local value is not global state: must not be reported
    pub fn probe_ok_cell(v: &[u8]) -> u32 { let c = Cell::new(0); v.iter().for_each(|_| c.set(c.get() + 1)); c.get() }
}
