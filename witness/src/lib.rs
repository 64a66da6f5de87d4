//! Generated by tools/gen_witness.py: compile-time witnesses that parsed data cannot outlive the input. Never run.
#![cfg(feature = "full")]
#![allow(unused, deprecated)]
use der_parser::asn1_rs::{self, ASN1DateTime, Any, Oid};
use der_parser::ber::*;
use der_parser::der::{self, *};
use der_parser::error::*;
use der_parser::nom::error::{ErrorKind, ParseError};
use der_parser::nom::IResult;
use std::convert::TryFrom;

/// opaque output type and opaque error type of generic combinators
pub struct T0(pub u64);
pub enum E0 { Nom(u64), Ber(BerError), Other(u64) }
impl From<BerError> for E0 { fn from(e: BerError) -> E0 { E0::Ber(e) } }
impl<'a> ParseError<&'a [u8]> for E0 {
    fn from_error_kind(_: &'a [u8], _: ErrorKind) -> Self { E0::Nom(0) }
    fn append(_: &'a [u8], _: ErrorKind, other: Self) -> Self { other }
}
type G<'a, T> = IResult<&'a [u8], T, E0>;
type Obj<'a> = BerObject<'a>;
type Con<'a> = BerObjectContent<'a>;

#[inline(never)] pub fn cb_obj<'a>(i: &'a [u8]) -> BerResult<'a> { loop {} }
#[inline(never)] pub fn cb_g<'a>(i: &'a [u8]) -> G<'a, T0> { loop {} }
#[inline(never)] pub fn cb_vec<'a>(i: &'a [u8]) -> BerResult<'a, Vec<Obj<'a>>> { loop {} }
#[inline(never)] pub fn cb_hdr_g<'a>(i: &'a [u8], h: Header<'a>) -> G<'a, T0> { loop {} }
#[inline(never)] pub fn cb_imp<'a>(i: &'a [u8], h: &Header, d: usize) -> BerResult<'a, Con<'a>> { loop {} }
#[inline(never)] pub fn cb_imp_g<'a>(i: &'a [u8], h: Header<'a>, d: usize) -> G<'a, T0> { loop {} }

use bitvec::{order::Msb0, slice::BitSlice};

pub fn good_parse_ber_endofcontent<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_endofcontent(i) } // @good parse_ber_endofcontent
pub fn good_parse_ber_bool<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_bool(i) } // @good parse_ber_bool
pub fn good_parse_ber_integer<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_integer(i) } // @good parse_ber_integer
pub fn good_parse_ber_bitstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_bitstring(i) } // @good parse_ber_bitstring
pub fn good_parse_ber_octetstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_octetstring(i) } // @good parse_ber_octetstring
pub fn good_parse_ber_null<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_null(i) } // @good parse_ber_null
pub fn good_parse_ber_oid<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_oid(i) } // @good parse_ber_oid
pub fn good_parse_ber_enum<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_enum(i) } // @good parse_ber_enum
pub fn good_parse_ber_utf8string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_utf8string(i) } // @good parse_ber_utf8string
pub fn good_parse_ber_relative_oid<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_relative_oid(i) } // @good parse_ber_relative_oid
pub fn good_parse_ber_sequence<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_sequence(i) } // @good parse_ber_sequence
pub fn good_parse_ber_set<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_set(i) } // @good parse_ber_set
pub fn good_parse_ber_numericstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_numericstring(i) } // @good parse_ber_numericstring
pub fn good_parse_ber_visiblestring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_visiblestring(i) } // @good parse_ber_visiblestring
pub fn good_parse_ber_printablestring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_printablestring(i) } // @good parse_ber_printablestring
pub fn good_parse_ber_t61string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_t61string(i) } // @good parse_ber_t61string
pub fn good_parse_ber_videotexstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_videotexstring(i) } // @good parse_ber_videotexstring
pub fn good_parse_ber_ia5string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_ia5string(i) } // @good parse_ber_ia5string
pub fn good_parse_ber_utctime<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_utctime(i) } // @good parse_ber_utctime
pub fn good_parse_ber_generalizedtime<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_generalizedtime(i) } // @good parse_ber_generalizedtime
pub fn good_parse_ber_objectdescriptor<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_objectdescriptor(i) } // @good parse_ber_objectdescriptor
pub fn good_parse_ber_graphicstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_graphicstring(i) } // @good parse_ber_graphicstring
pub fn good_parse_ber_generalstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_generalstring(i) } // @good parse_ber_generalstring
pub fn good_parse_ber_bmpstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_bmpstring(i) } // @good parse_ber_bmpstring
pub fn good_parse_ber_universalstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_universalstring(i) } // @good parse_ber_universalstring
pub fn good_parse_ber_i32<'a>(i: &'a [u8]) -> IResult<&'a [u8], i32, BerError> { parse_ber_i32(i) } // @good parse_ber_i32
pub fn good_parse_ber_i64<'a>(i: &'a [u8]) -> IResult<&'a [u8], i64, BerError> { parse_ber_i64(i) } // @good parse_ber_i64
pub fn good_parse_ber_u32<'a>(i: &'a [u8]) -> IResult<&'a [u8], u32, BerError> { parse_ber_u32(i) } // @good parse_ber_u32
pub fn good_parse_ber_u64<'a>(i: &'a [u8]) -> IResult<&'a [u8], u64, BerError> { parse_ber_u64(i) } // @good parse_ber_u64
pub fn good_parse_ber<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber(i) } // @good parse_ber
pub fn good_parse_ber_recursive<'a>(i: &'a [u8], max_depth: usize) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_recursive(i, max_depth) } // @good parse_ber_recursive
pub fn good_parse_ber_with_tag<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_with_tag(i, tag) } // @good parse_ber_with_tag
pub fn good_ber_read_element_header<'a>(i: &'a [u8]) -> IResult<&'a [u8], Header<'a>, BerError> { ber_read_element_header(i) } // @good ber_read_element_header
pub fn good_ber_read_element_content_as<'a>(i: &'a [u8], tag: Tag, length: Length, constructed: bool, max_depth: usize) -> IResult<&'a [u8], Con<'a>, BerError> { ber_read_element_content_as(i, tag, length, constructed, max_depth) } // @good ber_read_element_content_as
pub fn good_parse_ber_content<'a>(i: &'a [u8], hdr: &Header, max_depth: usize, tag: Tag) -> IResult<&'a [u8], Con<'a>, BerError> { parse_ber_content(tag)(i, hdr, max_depth) } // @good parse_ber_content
pub fn good_parse_ber_content2<'a>(i: &'a [u8], hdr: Header<'a>, max_depth: usize, tag: Tag) -> IResult<&'a [u8], Con<'a>, BerError> { parse_ber_content2(tag)(i, hdr, max_depth) } // @good parse_ber_content2
pub fn good_parse_ber_slice<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], &'a [u8], BerError> { parse_ber_slice(i, tag) } // @good parse_ber_slice
pub fn good_parse_ber_explicit_optional<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_explicit_optional(i, tag, cb_obj) } // @good parse_ber_explicit_optional
pub fn good_parse_ber_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_implicit(i, tag, cb_imp) } // @good parse_ber_implicit
pub fn good_parse_ber_container<'a>(i: &'a [u8]) -> IResult<&'a [u8], T0, E0> { parse_ber_container(cb_hdr_g)(i) } // @good parse_ber_container
pub fn good_parse_ber_tagged_explicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_tagged_explicit(tag, cb_obj)(i) } // @good parse_ber_tagged_explicit
pub fn good_parse_ber_tagged_explicit_g<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], T0, E0> { parse_ber_tagged_explicit_g(tag, cb_hdr_g)(i) } // @good parse_ber_tagged_explicit_g
pub fn good_parse_ber_tagged_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_tagged_implicit(tag, cb_imp)(i) } // @good parse_ber_tagged_implicit
pub fn good_parse_ber_tagged_implicit_g<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], T0, E0> { parse_ber_tagged_implicit_g(tag, cb_imp_g)(i) } // @good parse_ber_tagged_implicit_g
pub fn good_parse_ber_sequence_of<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_sequence_of(cb_obj)(i) } // @good parse_ber_sequence_of
pub fn good_parse_ber_sequence_of_v<'a>(i: &'a [u8]) -> IResult<&'a [u8], Vec<T0>, E0> { parse_ber_sequence_of_v(cb_g)(i) } // @good parse_ber_sequence_of_v
pub fn good_parse_ber_sequence_defined<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_sequence_defined(cb_vec)(i) } // @good parse_ber_sequence_defined
pub fn good_parse_ber_sequence_defined_g<'a>(i: &'a [u8]) -> IResult<&'a [u8], T0, E0> { parse_ber_sequence_defined_g(cb_hdr_g)(i) } // @good parse_ber_sequence_defined_g
pub fn good_parse_ber_set_of<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_set_of(cb_obj)(i) } // @good parse_ber_set_of
pub fn good_parse_ber_set_of_v<'a>(i: &'a [u8]) -> IResult<&'a [u8], Vec<T0>, E0> { parse_ber_set_of_v(cb_g)(i) } // @good parse_ber_set_of_v
pub fn good_parse_ber_set_defined<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_set_defined(cb_vec)(i) } // @good parse_ber_set_defined
pub fn good_parse_ber_set_defined_g<'a>(i: &'a [u8]) -> IResult<&'a [u8], T0, E0> { parse_ber_set_defined_g(cb_hdr_g)(i) } // @good parse_ber_set_defined_g
pub fn good_parse_der_endofcontent<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_endofcontent(i) } // @good parse_der_endofcontent
pub fn good_parse_der_bool<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_bool(i) } // @good parse_der_bool
pub fn good_parse_der_integer<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_integer(i) } // @good parse_der_integer
pub fn good_parse_der_bitstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_bitstring(i) } // @good parse_der_bitstring
pub fn good_parse_der_octetstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_octetstring(i) } // @good parse_der_octetstring
pub fn good_parse_der_null<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_null(i) } // @good parse_der_null
pub fn good_parse_der_oid<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_oid(i) } // @good parse_der_oid
pub fn good_parse_der_enum<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_enum(i) } // @good parse_der_enum
pub fn good_parse_der_utf8string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_utf8string(i) } // @good parse_der_utf8string
pub fn good_parse_der_relative_oid<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_relative_oid(i) } // @good parse_der_relative_oid
pub fn good_parse_der_sequence<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_sequence(i) } // @good parse_der_sequence
pub fn good_parse_der_set<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_set(i) } // @good parse_der_set
pub fn good_parse_der_numericstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_numericstring(i) } // @good parse_der_numericstring
pub fn good_parse_der_visiblestring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_visiblestring(i) } // @good parse_der_visiblestring
pub fn good_parse_der_printablestring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_printablestring(i) } // @good parse_der_printablestring
pub fn good_parse_der_t61string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_t61string(i) } // @good parse_der_t61string
pub fn good_parse_der_videotexstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_videotexstring(i) } // @good parse_der_videotexstring
pub fn good_parse_der_ia5string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_ia5string(i) } // @good parse_der_ia5string
pub fn good_parse_der_utctime<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_utctime(i) } // @good parse_der_utctime
pub fn good_parse_der_generalizedtime<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_generalizedtime(i) } // @good parse_der_generalizedtime
pub fn good_parse_der_objectdescriptor<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_objectdescriptor(i) } // @good parse_der_objectdescriptor
pub fn good_parse_der_graphicstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_graphicstring(i) } // @good parse_der_graphicstring
pub fn good_parse_der_generalstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_generalstring(i) } // @good parse_der_generalstring
pub fn good_parse_der_bmpstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_bmpstring(i) } // @good parse_der_bmpstring
pub fn good_parse_der_universalstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_universalstring(i) } // @good parse_der_universalstring
pub fn good_parse_der_i32<'a>(i: &'a [u8]) -> IResult<&'a [u8], i32, BerError> { parse_der_i32(i) } // @good parse_der_i32
pub fn good_parse_der_i64<'a>(i: &'a [u8]) -> IResult<&'a [u8], i64, BerError> { parse_der_i64(i) } // @good parse_der_i64
pub fn good_parse_der_u32<'a>(i: &'a [u8]) -> IResult<&'a [u8], u32, BerError> { parse_der_u32(i) } // @good parse_der_u32
pub fn good_parse_der_u64<'a>(i: &'a [u8]) -> IResult<&'a [u8], u64, BerError> { parse_der_u64(i) } // @good parse_der_u64
pub fn good_parse_der<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der(i) } // @good parse_der
pub fn good_parse_der_recursive<'a>(i: &'a [u8], max_depth: usize) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_recursive(i, max_depth) } // @good parse_der_recursive
pub fn good_parse_der_with_tag<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_with_tag(i, tag) } // @good parse_der_with_tag
pub fn good_der_read_element_header<'a>(i: &'a [u8]) -> IResult<&'a [u8], Header<'a>, BerError> { der_read_element_header(i) } // @good der_read_element_header
pub fn good_der_read_element_content_as<'a>(i: &'a [u8], tag: Tag, length: Length, constructed: bool, max_depth: usize) -> IResult<&'a [u8], Con<'a>, BerError> { der_read_element_content_as(i, tag, length, constructed, max_depth) } // @good der_read_element_content_as
pub fn good_parse_der_content<'a>(i: &'a [u8], hdr: &Header, max_depth: usize, tag: Tag) -> IResult<&'a [u8], Con<'a>, BerError> { parse_der_content(tag)(i, hdr, max_depth) } // @good parse_der_content
pub fn good_parse_der_content2<'a>(i: &'a [u8], hdr: Header<'a>, max_depth: usize, tag: Tag) -> IResult<&'a [u8], Con<'a>, BerError> { parse_der_content2(tag)(i, hdr, max_depth) } // @good parse_der_content2
pub fn good_parse_der_slice<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], &'a [u8], BerError> { parse_der_slice(i, tag) } // @good parse_der_slice
pub fn good_parse_der_explicit_optional<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_explicit_optional(i, tag, cb_obj) } // @good parse_der_explicit_optional
pub fn good_parse_der_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_implicit(i, tag, cb_imp) } // @good parse_der_implicit
pub fn good_parse_der_container<'a>(i: &'a [u8]) -> IResult<&'a [u8], T0, E0> { parse_der_container(cb_hdr_g)(i) } // @good parse_der_container
pub fn good_parse_der_tagged_explicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_tagged_explicit(tag, cb_obj)(i) } // @good parse_der_tagged_explicit
pub fn good_parse_der_tagged_explicit_g<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], T0, E0> { parse_der_tagged_explicit_g(tag, cb_hdr_g)(i) } // @good parse_der_tagged_explicit_g
pub fn good_parse_der_tagged_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_tagged_implicit(tag, cb_imp)(i) } // @good parse_der_tagged_implicit
pub fn good_parse_der_tagged_implicit_g<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], T0, E0> { parse_der_tagged_implicit_g(tag, cb_imp_g)(i) } // @good parse_der_tagged_implicit_g
pub fn good_parse_der_sequence_of<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_sequence_of(cb_obj)(i) } // @good parse_der_sequence_of
pub fn good_parse_der_sequence_of_v<'a>(i: &'a [u8]) -> IResult<&'a [u8], Vec<T0>, E0> { parse_der_sequence_of_v(cb_g)(i) } // @good parse_der_sequence_of_v
pub fn good_parse_der_sequence_defined<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_sequence_defined(cb_vec)(i) } // @good parse_der_sequence_defined
pub fn good_parse_der_sequence_defined_g<'a>(i: &'a [u8]) -> IResult<&'a [u8], T0, E0> { parse_der_sequence_defined_g(cb_hdr_g)(i) } // @good parse_der_sequence_defined_g
pub fn good_parse_der_set_of<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_set_of(cb_obj)(i) } // @good parse_der_set_of
pub fn good_parse_der_set_of_v<'a>(i: &'a [u8]) -> IResult<&'a [u8], Vec<T0>, E0> { parse_der_set_of_v(cb_g)(i) } // @good parse_der_set_of_v
pub fn good_parse_der_set_defined<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_der_set_defined(cb_vec)(i) } // @good parse_der_set_defined
pub fn good_parse_der_set_defined_g<'a>(i: &'a [u8]) -> IResult<&'a [u8], T0, E0> { parse_der_set_defined_g(cb_hdr_g)(i) } // @good parse_der_set_defined_g
pub fn good_parse_ber_optional<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_optional(cb_obj)(i) } // @good parse_ber_optional
pub fn good_parse_ber_any<'a>(i: &'a [u8]) -> IResult<&'a [u8], Any<'a>, BerError> { parse_ber_any(i) } // @good parse_ber_any
pub fn good_parse_ber_any_r<'a>(i: &'a [u8], max_depth: usize) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_any_r(i, max_depth) } // @good parse_ber_any_r
pub fn good_parse_ber_any_with_tag_r<'a>(i: &'a [u8], tag: Tag, max_depth: usize) -> IResult<&'a [u8], Obj<'a>, BerError> { parse_ber_any_with_tag_r(i, tag, max_depth) } // @good parse_ber_any_with_tag_r
pub fn good_der_visiblestring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'a>, BerError> { der::visiblestring(i) } // @good der_visiblestring
pub fn good_der_read_element_content<'a>(i: &'a [u8], hdr: Header<'a>) -> IResult<&'a [u8], Obj<'a>, BerError> { der_read_element_content(i, hdr) } // @good der_read_element_content
pub fn good_obj_as_slice<'o, 'a>(o: &'o Obj<'a>) -> Result<&'a [u8], BerError> { o.as_slice() } // @good obj_as_slice
pub fn good_obj_as_str<'o, 'a>(o: &'o Obj<'a>) -> Result<&'a str, BerError> { o.as_str() } // @good obj_as_str
pub fn good_obj_as_oid<'o, 'a>(o: &'o Obj<'a>) -> Result<&'o Oid<'a>, BerError> { o.as_oid() } // @good obj_as_oid
pub fn good_obj_as_oid_val<'o, 'a>(o: &'o Obj<'a>) -> Result<Oid<'a>, BerError> { o.as_oid_val() } // @good obj_as_oid_val
pub fn good_obj_as_optional<'o, 'a>(o: &'o Obj<'a>) -> Result<Option<&'o Obj<'a>>, BerError> { o.as_optional() } // @good obj_as_optional
pub fn good_obj_as_tagged<'o, 'a>(o: &'o Obj<'a>) -> Result<(Class, Tag, &'o Obj<'a>), BerError> { o.as_tagged() } // @good obj_as_tagged
pub fn good_obj_as_bitstring<'o, 'a>(o: &'o Obj<'a>) -> Result<BitStringObject<'a>, BerError> { o.as_bitstring() } // @good obj_as_bitstring
pub fn good_obj_as_bitstring_ref<'o, 'a>(o: &'o Obj<'a>) -> Result<&'o BitStringObject<'o>, BerError> { o.as_bitstring_ref() } // @good obj_as_bitstring_ref
pub fn good_obj_as_bitslice<'o, 'a>(o: &'o Obj<'a>) -> Result<&'o BitSlice<u8, Msb0>, BerError> { o.as_bitslice() } // @good obj_as_bitslice
pub fn good_obj_as_sequence<'o, 'a>(o: &'o Obj<'a>) -> Result<&'o Vec<Obj<'a>>, BerError> { o.as_sequence() } // @good obj_as_sequence
pub fn good_obj_as_set<'o, 'a>(o: &'o Obj<'a>) -> Result<&'o Vec<Obj<'a>>, BerError> { o.as_set() } // @good obj_as_set
pub fn good_con_as_slice<'o, 'a>(o: &'o Con<'a>) -> Result<&'a [u8], BerError> { o.as_slice() } // @good con_as_slice
pub fn good_con_as_str<'o, 'a>(o: &'o Con<'a>) -> Result<&'a str, BerError> { o.as_str() } // @good con_as_str
pub fn good_con_as_oid<'o, 'a>(o: &'o Con<'a>) -> Result<&'o Oid<'a>, BerError> { o.as_oid() } // @good con_as_oid
pub fn good_con_as_oid_val<'o, 'a>(o: &'o Con<'a>) -> Result<Oid<'a>, BerError> { o.as_oid_val() } // @good con_as_oid_val
pub fn good_con_as_optional<'o, 'a>(o: &'o Con<'a>) -> Result<Option<&'o Obj<'a>>, BerError> { o.as_optional() } // @good con_as_optional
pub fn good_con_as_tagged<'o, 'a>(o: &'o Con<'a>) -> Result<(Class, Tag, &'o Obj<'a>), BerError> { o.as_tagged() } // @good con_as_tagged
pub fn good_con_as_bitstring<'o, 'a>(o: &'o Con<'a>) -> Result<BitStringObject<'a>, BerError> { o.as_bitstring() } // @good con_as_bitstring
pub fn good_con_as_bitstring_ref<'o, 'a>(o: &'o Con<'a>) -> Result<&'o BitStringObject<'o>, BerError> { o.as_bitstring_ref() } // @good con_as_bitstring_ref
pub fn good_con_as_bitslice<'o, 'a>(o: &'o Con<'a>) -> Result<&'o BitSlice<u8, Msb0>, BerError> { o.as_bitslice() } // @good con_as_bitslice
pub fn good_con_as_sequence<'o, 'a>(o: &'o Con<'a>) -> Result<&'o Vec<Obj<'a>>, BerError> { o.as_sequence() } // @good con_as_sequence
pub fn good_con_as_set<'o, 'a>(o: &'o Con<'a>) -> Result<&'o Vec<Obj<'a>>, BerError> { o.as_set() } // @good con_as_set
pub fn good_obj_clone<'a>(o: &Obj<'a>) -> Obj<'a> { o.clone() } // @good obj_clone
pub fn good_con_clone<'a>(o: &Con<'a>) -> Con<'a> { o.clone() } // @good con_clone
pub fn good_obj_into_iter<'a>(o: Obj<'a>) -> Option<Obj<'a>> { o.into_iter().next() } // @good obj_into_iter
pub fn good_obj_ref_iter<'a>(o: &'a Obj<'a>) -> Option<&'a Obj<'a>> { o.ref_iter().next() } // @good obj_ref_iter
pub fn good_obj_index<'o, 'a>(o: &'o Obj<'a>) -> &'o Obj<'a> { &o[0] } // @good obj_index
pub fn good_obj_content<'a>(o: Obj<'a>) -> Con<'a> { o.content } // @good obj_content
pub fn good_obj_header<'a>(o: Obj<'a>) -> Header<'a> { o.header } // @good obj_header
pub fn good_from_any<'a>(a: Any<'a>) -> Result<Obj<'a>, BerError> { Obj::try_from(a) } // @good from_any
pub fn good_from_any_ref<'o, 'a>(a: &'o Any<'a>) -> Result<Obj<'a>, BerError> { Obj::try_from(a) } // @good from_any_ref
pub fn good_from_header<'a>(h: Header<'a>, c: Con<'a>) -> Obj<'a> { Obj::from_header_and_content(h, c) } // @good from_header
pub fn good_set_raw_tag<'a>(o: Obj<'a>, t: &'a [u8]) -> Obj<'a> { o.set_raw_tag(Some(t)) } // @good set_raw_tag
pub fn good_bs_as_ref<'o, 'a>(o: &'o BitStringObject<'a>) -> &'o [u8] { o.as_ref() } // @good bs_as_ref
pub fn good_from_slice<'a>(s: &'a [u8]) -> Obj<'a> { Obj::from_int_slice(s) } // @good from_slice
pub fn good_from_seq<'a>(s: Vec<Obj<'a>>) -> Obj<'a> { Obj::from_seq(s) } // @good from_seq
pub fn good_outlives_slice<'a>(i: &'a [u8]) -> Option<&'a [u8]> { let (_, o) = parse_ber(i).ok()?; o.as_slice().ok() } // @good outlives_slice
pub fn good_outlives_str<'a>(i: &'a [u8]) -> Option<&'a str> { let (_, o) = parse_der(i).ok()?; o.as_str().ok() } // @good outlives_str
pub fn good_outlives_oid<'a>(i: &'a [u8]) -> Option<Oid<'a>> { let (_, o) = parse_der(i).ok()?; o.as_oid_val().ok() } // @good outlives_oid
pub fn good_outlives_bits<'a>(i: &'a [u8]) -> Option<BitStringObject<'a>> { let (_, o) = parse_der(i).ok()?; o.as_bitstring().ok() } // @good outlives_bits
pub fn good_local_use() -> bool { let v = vec![5u8, 0]; let o = parse_ber(&v); o.is_ok() } // @good local_use
#[cfg(feature = "bad")] pub fn bad0_parse_ber_endofcontent<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_endofcontent(i) } // @bad parse_ber_endofcontent
#[cfg(feature = "bad")] pub fn bad1_parse_ber_endofcontent<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_endofcontent(i) } // @bad parse_ber_endofcontent
#[cfg(feature = "bad")] pub fn bad0_parse_ber_bool<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_bool(i) } // @bad parse_ber_bool
#[cfg(feature = "bad")] pub fn bad1_parse_ber_bool<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_bool(i) } // @bad parse_ber_bool
#[cfg(feature = "bad")] pub fn bad0_parse_ber_integer<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_integer(i) } // @bad parse_ber_integer
#[cfg(feature = "bad")] pub fn bad1_parse_ber_integer<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_integer(i) } // @bad parse_ber_integer
#[cfg(feature = "bad")] pub fn bad0_parse_ber_bitstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_bitstring(i) } // @bad parse_ber_bitstring
#[cfg(feature = "bad")] pub fn bad1_parse_ber_bitstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_bitstring(i) } // @bad parse_ber_bitstring
#[cfg(feature = "bad")] pub fn bad0_parse_ber_octetstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_octetstring(i) } // @bad parse_ber_octetstring
#[cfg(feature = "bad")] pub fn bad1_parse_ber_octetstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_octetstring(i) } // @bad parse_ber_octetstring
#[cfg(feature = "bad")] pub fn bad0_parse_ber_null<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_null(i) } // @bad parse_ber_null
#[cfg(feature = "bad")] pub fn bad1_parse_ber_null<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_null(i) } // @bad parse_ber_null
#[cfg(feature = "bad")] pub fn bad0_parse_ber_oid<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_oid(i) } // @bad parse_ber_oid
#[cfg(feature = "bad")] pub fn bad1_parse_ber_oid<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_oid(i) } // @bad parse_ber_oid
#[cfg(feature = "bad")] pub fn bad0_parse_ber_enum<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_enum(i) } // @bad parse_ber_enum
#[cfg(feature = "bad")] pub fn bad1_parse_ber_enum<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_enum(i) } // @bad parse_ber_enum
#[cfg(feature = "bad")] pub fn bad0_parse_ber_utf8string<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_utf8string(i) } // @bad parse_ber_utf8string
#[cfg(feature = "bad")] pub fn bad1_parse_ber_utf8string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_utf8string(i) } // @bad parse_ber_utf8string
#[cfg(feature = "bad")] pub fn bad0_parse_ber_relative_oid<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_relative_oid(i) } // @bad parse_ber_relative_oid
#[cfg(feature = "bad")] pub fn bad1_parse_ber_relative_oid<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_relative_oid(i) } // @bad parse_ber_relative_oid
#[cfg(feature = "bad")] pub fn bad0_parse_ber_sequence<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_sequence(i) } // @bad parse_ber_sequence
#[cfg(feature = "bad")] pub fn bad1_parse_ber_sequence<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_sequence(i) } // @bad parse_ber_sequence
#[cfg(feature = "bad")] pub fn bad0_parse_ber_set<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_set(i) } // @bad parse_ber_set
#[cfg(feature = "bad")] pub fn bad1_parse_ber_set<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_set(i) } // @bad parse_ber_set
#[cfg(feature = "bad")] pub fn bad0_parse_ber_numericstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_numericstring(i) } // @bad parse_ber_numericstring
#[cfg(feature = "bad")] pub fn bad1_parse_ber_numericstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_numericstring(i) } // @bad parse_ber_numericstring
#[cfg(feature = "bad")] pub fn bad0_parse_ber_visiblestring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_visiblestring(i) } // @bad parse_ber_visiblestring
#[cfg(feature = "bad")] pub fn bad1_parse_ber_visiblestring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_visiblestring(i) } // @bad parse_ber_visiblestring
#[cfg(feature = "bad")] pub fn bad0_parse_ber_printablestring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_printablestring(i) } // @bad parse_ber_printablestring
#[cfg(feature = "bad")] pub fn bad1_parse_ber_printablestring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_printablestring(i) } // @bad parse_ber_printablestring
#[cfg(feature = "bad")] pub fn bad0_parse_ber_t61string<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_t61string(i) } // @bad parse_ber_t61string
#[cfg(feature = "bad")] pub fn bad1_parse_ber_t61string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_t61string(i) } // @bad parse_ber_t61string
#[cfg(feature = "bad")] pub fn bad0_parse_ber_videotexstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_videotexstring(i) } // @bad parse_ber_videotexstring
#[cfg(feature = "bad")] pub fn bad1_parse_ber_videotexstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_videotexstring(i) } // @bad parse_ber_videotexstring
#[cfg(feature = "bad")] pub fn bad0_parse_ber_ia5string<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_ia5string(i) } // @bad parse_ber_ia5string
#[cfg(feature = "bad")] pub fn bad1_parse_ber_ia5string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_ia5string(i) } // @bad parse_ber_ia5string
#[cfg(feature = "bad")] pub fn bad0_parse_ber_utctime<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_utctime(i) } // @bad parse_ber_utctime
#[cfg(feature = "bad")] pub fn bad1_parse_ber_utctime<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_utctime(i) } // @bad parse_ber_utctime
#[cfg(feature = "bad")] pub fn bad0_parse_ber_generalizedtime<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_generalizedtime(i) } // @bad parse_ber_generalizedtime
#[cfg(feature = "bad")] pub fn bad1_parse_ber_generalizedtime<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_generalizedtime(i) } // @bad parse_ber_generalizedtime
#[cfg(feature = "bad")] pub fn bad0_parse_ber_objectdescriptor<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_objectdescriptor(i) } // @bad parse_ber_objectdescriptor
#[cfg(feature = "bad")] pub fn bad1_parse_ber_objectdescriptor<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_objectdescriptor(i) } // @bad parse_ber_objectdescriptor
#[cfg(feature = "bad")] pub fn bad0_parse_ber_graphicstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_graphicstring(i) } // @bad parse_ber_graphicstring
#[cfg(feature = "bad")] pub fn bad1_parse_ber_graphicstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_graphicstring(i) } // @bad parse_ber_graphicstring
#[cfg(feature = "bad")] pub fn bad0_parse_ber_generalstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_generalstring(i) } // @bad parse_ber_generalstring
#[cfg(feature = "bad")] pub fn bad1_parse_ber_generalstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_generalstring(i) } // @bad parse_ber_generalstring
#[cfg(feature = "bad")] pub fn bad0_parse_ber_bmpstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_bmpstring(i) } // @bad parse_ber_bmpstring
#[cfg(feature = "bad")] pub fn bad1_parse_ber_bmpstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_bmpstring(i) } // @bad parse_ber_bmpstring
#[cfg(feature = "bad")] pub fn bad0_parse_ber_universalstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_universalstring(i) } // @bad parse_ber_universalstring
#[cfg(feature = "bad")] pub fn bad1_parse_ber_universalstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_universalstring(i) } // @bad parse_ber_universalstring
#[cfg(feature = "bad")] pub fn bad0_parse_ber_i32<'a>(i: &'a [u8]) -> IResult<&'static [u8], i32, BerError> { parse_ber_i32(i) } // @bad parse_ber_i32
#[cfg(feature = "bad")] pub fn bad0_parse_ber_i64<'a>(i: &'a [u8]) -> IResult<&'static [u8], i64, BerError> { parse_ber_i64(i) } // @bad parse_ber_i64
#[cfg(feature = "bad")] pub fn bad0_parse_ber_u32<'a>(i: &'a [u8]) -> IResult<&'static [u8], u32, BerError> { parse_ber_u32(i) } // @bad parse_ber_u32
#[cfg(feature = "bad")] pub fn bad0_parse_ber_u64<'a>(i: &'a [u8]) -> IResult<&'static [u8], u64, BerError> { parse_ber_u64(i) } // @bad parse_ber_u64
#[cfg(feature = "bad")] pub fn bad0_parse_ber<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber(i) } // @bad parse_ber
#[cfg(feature = "bad")] pub fn bad1_parse_ber<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber(i) } // @bad parse_ber
#[cfg(feature = "bad")] pub fn bad0_parse_ber_recursive<'a>(i: &'a [u8], max_depth: usize) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_recursive(i, max_depth) } // @bad parse_ber_recursive
#[cfg(feature = "bad")] pub fn bad1_parse_ber_recursive<'a>(i: &'a [u8], max_depth: usize) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_recursive(i, max_depth) } // @bad parse_ber_recursive
#[cfg(feature = "bad")] pub fn bad0_parse_ber_with_tag<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_with_tag(i, tag) } // @bad parse_ber_with_tag
#[cfg(feature = "bad")] pub fn bad1_parse_ber_with_tag<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_with_tag(i, tag) } // @bad parse_ber_with_tag
#[cfg(feature = "bad")] pub fn bad0_ber_read_element_header<'a>(i: &'a [u8]) -> IResult<&'static [u8], Header<'a>, BerError> { ber_read_element_header(i) } // @bad ber_read_element_header
#[cfg(feature = "bad")] pub fn bad1_ber_read_element_header<'a>(i: &'a [u8]) -> IResult<&'a [u8], Header<'static>, BerError> { ber_read_element_header(i) } // @bad ber_read_element_header
#[cfg(feature = "bad")] pub fn bad0_ber_read_element_content_as<'a>(i: &'a [u8], tag: Tag, length: Length, constructed: bool, max_depth: usize) -> IResult<&'static [u8], Con<'a>, BerError> { ber_read_element_content_as(i, tag, length, constructed, max_depth) } // @bad ber_read_element_content_as
#[cfg(feature = "bad")] pub fn bad1_ber_read_element_content_as<'a>(i: &'a [u8], tag: Tag, length: Length, constructed: bool, max_depth: usize) -> IResult<&'a [u8], Con<'static>, BerError> { ber_read_element_content_as(i, tag, length, constructed, max_depth) } // @bad ber_read_element_content_as
#[cfg(feature = "bad")] pub fn bad0_parse_ber_content<'a>(i: &'a [u8], hdr: &Header, max_depth: usize, tag: Tag) -> IResult<&'static [u8], Con<'a>, BerError> { parse_ber_content(tag)(i, hdr, max_depth) } // @bad parse_ber_content
#[cfg(feature = "bad")] pub fn bad1_parse_ber_content<'a>(i: &'a [u8], hdr: &Header, max_depth: usize, tag: Tag) -> IResult<&'a [u8], Con<'static>, BerError> { parse_ber_content(tag)(i, hdr, max_depth) } // @bad parse_ber_content
#[cfg(feature = "bad")] pub fn bad0_parse_ber_content2<'a>(i: &'a [u8], hdr: Header<'a>, max_depth: usize, tag: Tag) -> IResult<&'static [u8], Con<'a>, BerError> { parse_ber_content2(tag)(i, hdr, max_depth) } // @bad parse_ber_content2
#[cfg(feature = "bad")] pub fn bad1_parse_ber_content2<'a>(i: &'a [u8], hdr: Header<'a>, max_depth: usize, tag: Tag) -> IResult<&'a [u8], Con<'static>, BerError> { parse_ber_content2(tag)(i, hdr, max_depth) } // @bad parse_ber_content2
#[cfg(feature = "bad")] pub fn bad0_parse_ber_slice<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], &'a [u8], BerError> { parse_ber_slice(i, tag) } // @bad parse_ber_slice
#[cfg(feature = "bad")] pub fn bad1_parse_ber_slice<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], &'static [u8], BerError> { parse_ber_slice(i, tag) } // @bad parse_ber_slice
#[cfg(feature = "bad")] pub fn bad0_parse_ber_explicit_optional<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_explicit_optional(i, tag, cb_obj) } // @bad parse_ber_explicit_optional
#[cfg(feature = "bad")] pub fn bad1_parse_ber_explicit_optional<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_explicit_optional(i, tag, cb_obj) } // @bad parse_ber_explicit_optional
#[cfg(feature = "bad")] pub fn bad0_parse_ber_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_implicit(i, tag, cb_imp) } // @bad parse_ber_implicit
#[cfg(feature = "bad")] pub fn bad1_parse_ber_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_implicit(i, tag, cb_imp) } // @bad parse_ber_implicit
#[cfg(feature = "bad")] pub fn bad0_parse_ber_container<'a>(i: &'a [u8]) -> IResult<&'static [u8], T0, E0> { parse_ber_container(cb_hdr_g)(i) } // @bad parse_ber_container
#[cfg(feature = "bad")] pub fn bad0_parse_ber_tagged_explicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_tagged_explicit(tag, cb_obj)(i) } // @bad parse_ber_tagged_explicit
#[cfg(feature = "bad")] pub fn bad1_parse_ber_tagged_explicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_tagged_explicit(tag, cb_obj)(i) } // @bad parse_ber_tagged_explicit
#[cfg(feature = "bad")] pub fn bad0_parse_ber_tagged_explicit_g<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], T0, E0> { parse_ber_tagged_explicit_g(tag, cb_hdr_g)(i) } // @bad parse_ber_tagged_explicit_g
#[cfg(feature = "bad")] pub fn bad0_parse_ber_tagged_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_tagged_implicit(tag, cb_imp)(i) } // @bad parse_ber_tagged_implicit
#[cfg(feature = "bad")] pub fn bad1_parse_ber_tagged_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_tagged_implicit(tag, cb_imp)(i) } // @bad parse_ber_tagged_implicit
#[cfg(feature = "bad")] pub fn bad0_parse_ber_tagged_implicit_g<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], T0, E0> { parse_ber_tagged_implicit_g(tag, cb_imp_g)(i) } // @bad parse_ber_tagged_implicit_g
#[cfg(feature = "bad")] pub fn bad0_parse_ber_sequence_of<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_sequence_of(cb_obj)(i) } // @bad parse_ber_sequence_of
#[cfg(feature = "bad")] pub fn bad1_parse_ber_sequence_of<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_sequence_of(cb_obj)(i) } // @bad parse_ber_sequence_of
#[cfg(feature = "bad")] pub fn bad0_parse_ber_sequence_of_v<'a>(i: &'a [u8]) -> IResult<&'static [u8], Vec<T0>, E0> { parse_ber_sequence_of_v(cb_g)(i) } // @bad parse_ber_sequence_of_v
#[cfg(feature = "bad")] pub fn bad0_parse_ber_sequence_defined<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_sequence_defined(cb_vec)(i) } // @bad parse_ber_sequence_defined
#[cfg(feature = "bad")] pub fn bad1_parse_ber_sequence_defined<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_sequence_defined(cb_vec)(i) } // @bad parse_ber_sequence_defined
#[cfg(feature = "bad")] pub fn bad0_parse_ber_sequence_defined_g<'a>(i: &'a [u8]) -> IResult<&'static [u8], T0, E0> { parse_ber_sequence_defined_g(cb_hdr_g)(i) } // @bad parse_ber_sequence_defined_g
#[cfg(feature = "bad")] pub fn bad0_parse_ber_set_of<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_set_of(cb_obj)(i) } // @bad parse_ber_set_of
#[cfg(feature = "bad")] pub fn bad1_parse_ber_set_of<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_set_of(cb_obj)(i) } // @bad parse_ber_set_of
#[cfg(feature = "bad")] pub fn bad0_parse_ber_set_of_v<'a>(i: &'a [u8]) -> IResult<&'static [u8], Vec<T0>, E0> { parse_ber_set_of_v(cb_g)(i) } // @bad parse_ber_set_of_v
#[cfg(feature = "bad")] pub fn bad0_parse_ber_set_defined<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_set_defined(cb_vec)(i) } // @bad parse_ber_set_defined
#[cfg(feature = "bad")] pub fn bad1_parse_ber_set_defined<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_set_defined(cb_vec)(i) } // @bad parse_ber_set_defined
#[cfg(feature = "bad")] pub fn bad0_parse_ber_set_defined_g<'a>(i: &'a [u8]) -> IResult<&'static [u8], T0, E0> { parse_ber_set_defined_g(cb_hdr_g)(i) } // @bad parse_ber_set_defined_g
#[cfg(feature = "bad")] pub fn bad0_parse_der_endofcontent<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_endofcontent(i) } // @bad parse_der_endofcontent
#[cfg(feature = "bad")] pub fn bad1_parse_der_endofcontent<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_endofcontent(i) } // @bad parse_der_endofcontent
#[cfg(feature = "bad")] pub fn bad0_parse_der_bool<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_bool(i) } // @bad parse_der_bool
#[cfg(feature = "bad")] pub fn bad1_parse_der_bool<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_bool(i) } // @bad parse_der_bool
#[cfg(feature = "bad")] pub fn bad0_parse_der_integer<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_integer(i) } // @bad parse_der_integer
#[cfg(feature = "bad")] pub fn bad1_parse_der_integer<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_integer(i) } // @bad parse_der_integer
#[cfg(feature = "bad")] pub fn bad0_parse_der_bitstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_bitstring(i) } // @bad parse_der_bitstring
#[cfg(feature = "bad")] pub fn bad1_parse_der_bitstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_bitstring(i) } // @bad parse_der_bitstring
#[cfg(feature = "bad")] pub fn bad0_parse_der_octetstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_octetstring(i) } // @bad parse_der_octetstring
#[cfg(feature = "bad")] pub fn bad1_parse_der_octetstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_octetstring(i) } // @bad parse_der_octetstring
#[cfg(feature = "bad")] pub fn bad0_parse_der_null<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_null(i) } // @bad parse_der_null
#[cfg(feature = "bad")] pub fn bad1_parse_der_null<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_null(i) } // @bad parse_der_null
#[cfg(feature = "bad")] pub fn bad0_parse_der_oid<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_oid(i) } // @bad parse_der_oid
#[cfg(feature = "bad")] pub fn bad1_parse_der_oid<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_oid(i) } // @bad parse_der_oid
#[cfg(feature = "bad")] pub fn bad0_parse_der_enum<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_enum(i) } // @bad parse_der_enum
#[cfg(feature = "bad")] pub fn bad1_parse_der_enum<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_enum(i) } // @bad parse_der_enum
#[cfg(feature = "bad")] pub fn bad0_parse_der_utf8string<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_utf8string(i) } // @bad parse_der_utf8string
#[cfg(feature = "bad")] pub fn bad1_parse_der_utf8string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_utf8string(i) } // @bad parse_der_utf8string
#[cfg(feature = "bad")] pub fn bad0_parse_der_relative_oid<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_relative_oid(i) } // @bad parse_der_relative_oid
#[cfg(feature = "bad")] pub fn bad1_parse_der_relative_oid<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_relative_oid(i) } // @bad parse_der_relative_oid
#[cfg(feature = "bad")] pub fn bad0_parse_der_sequence<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_sequence(i) } // @bad parse_der_sequence
#[cfg(feature = "bad")] pub fn bad1_parse_der_sequence<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_sequence(i) } // @bad parse_der_sequence
#[cfg(feature = "bad")] pub fn bad0_parse_der_set<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_set(i) } // @bad parse_der_set
#[cfg(feature = "bad")] pub fn bad1_parse_der_set<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_set(i) } // @bad parse_der_set
#[cfg(feature = "bad")] pub fn bad0_parse_der_numericstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_numericstring(i) } // @bad parse_der_numericstring
#[cfg(feature = "bad")] pub fn bad1_parse_der_numericstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_numericstring(i) } // @bad parse_der_numericstring
#[cfg(feature = "bad")] pub fn bad0_parse_der_visiblestring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_visiblestring(i) } // @bad parse_der_visiblestring
#[cfg(feature = "bad")] pub fn bad1_parse_der_visiblestring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_visiblestring(i) } // @bad parse_der_visiblestring
#[cfg(feature = "bad")] pub fn bad0_parse_der_printablestring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_printablestring(i) } // @bad parse_der_printablestring
#[cfg(feature = "bad")] pub fn bad1_parse_der_printablestring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_printablestring(i) } // @bad parse_der_printablestring
#[cfg(feature = "bad")] pub fn bad0_parse_der_t61string<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_t61string(i) } // @bad parse_der_t61string
#[cfg(feature = "bad")] pub fn bad1_parse_der_t61string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_t61string(i) } // @bad parse_der_t61string
#[cfg(feature = "bad")] pub fn bad0_parse_der_videotexstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_videotexstring(i) } // @bad parse_der_videotexstring
#[cfg(feature = "bad")] pub fn bad1_parse_der_videotexstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_videotexstring(i) } // @bad parse_der_videotexstring
#[cfg(feature = "bad")] pub fn bad0_parse_der_ia5string<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_ia5string(i) } // @bad parse_der_ia5string
#[cfg(feature = "bad")] pub fn bad1_parse_der_ia5string<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_ia5string(i) } // @bad parse_der_ia5string
#[cfg(feature = "bad")] pub fn bad0_parse_der_utctime<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_utctime(i) } // @bad parse_der_utctime
#[cfg(feature = "bad")] pub fn bad1_parse_der_utctime<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_utctime(i) } // @bad parse_der_utctime
#[cfg(feature = "bad")] pub fn bad0_parse_der_generalizedtime<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_generalizedtime(i) } // @bad parse_der_generalizedtime
#[cfg(feature = "bad")] pub fn bad1_parse_der_generalizedtime<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_generalizedtime(i) } // @bad parse_der_generalizedtime
#[cfg(feature = "bad")] pub fn bad0_parse_der_objectdescriptor<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_objectdescriptor(i) } // @bad parse_der_objectdescriptor
#[cfg(feature = "bad")] pub fn bad1_parse_der_objectdescriptor<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_objectdescriptor(i) } // @bad parse_der_objectdescriptor
#[cfg(feature = "bad")] pub fn bad0_parse_der_graphicstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_graphicstring(i) } // @bad parse_der_graphicstring
#[cfg(feature = "bad")] pub fn bad1_parse_der_graphicstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_graphicstring(i) } // @bad parse_der_graphicstring
#[cfg(feature = "bad")] pub fn bad0_parse_der_generalstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_generalstring(i) } // @bad parse_der_generalstring
#[cfg(feature = "bad")] pub fn bad1_parse_der_generalstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_generalstring(i) } // @bad parse_der_generalstring
#[cfg(feature = "bad")] pub fn bad0_parse_der_bmpstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_bmpstring(i) } // @bad parse_der_bmpstring
#[cfg(feature = "bad")] pub fn bad1_parse_der_bmpstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_bmpstring(i) } // @bad parse_der_bmpstring
#[cfg(feature = "bad")] pub fn bad0_parse_der_universalstring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_universalstring(i) } // @bad parse_der_universalstring
#[cfg(feature = "bad")] pub fn bad1_parse_der_universalstring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_universalstring(i) } // @bad parse_der_universalstring
#[cfg(feature = "bad")] pub fn bad0_parse_der_i32<'a>(i: &'a [u8]) -> IResult<&'static [u8], i32, BerError> { parse_der_i32(i) } // @bad parse_der_i32
#[cfg(feature = "bad")] pub fn bad0_parse_der_i64<'a>(i: &'a [u8]) -> IResult<&'static [u8], i64, BerError> { parse_der_i64(i) } // @bad parse_der_i64
#[cfg(feature = "bad")] pub fn bad0_parse_der_u32<'a>(i: &'a [u8]) -> IResult<&'static [u8], u32, BerError> { parse_der_u32(i) } // @bad parse_der_u32
#[cfg(feature = "bad")] pub fn bad0_parse_der_u64<'a>(i: &'a [u8]) -> IResult<&'static [u8], u64, BerError> { parse_der_u64(i) } // @bad parse_der_u64
#[cfg(feature = "bad")] pub fn bad0_parse_der<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der(i) } // @bad parse_der
#[cfg(feature = "bad")] pub fn bad1_parse_der<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der(i) } // @bad parse_der
#[cfg(feature = "bad")] pub fn bad0_parse_der_recursive<'a>(i: &'a [u8], max_depth: usize) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_recursive(i, max_depth) } // @bad parse_der_recursive
#[cfg(feature = "bad")] pub fn bad1_parse_der_recursive<'a>(i: &'a [u8], max_depth: usize) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_recursive(i, max_depth) } // @bad parse_der_recursive
#[cfg(feature = "bad")] pub fn bad0_parse_der_with_tag<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_with_tag(i, tag) } // @bad parse_der_with_tag
#[cfg(feature = "bad")] pub fn bad1_parse_der_with_tag<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_with_tag(i, tag) } // @bad parse_der_with_tag
#[cfg(feature = "bad")] pub fn bad0_der_read_element_header<'a>(i: &'a [u8]) -> IResult<&'static [u8], Header<'a>, BerError> { der_read_element_header(i) } // @bad der_read_element_header
#[cfg(feature = "bad")] pub fn bad1_der_read_element_header<'a>(i: &'a [u8]) -> IResult<&'a [u8], Header<'static>, BerError> { der_read_element_header(i) } // @bad der_read_element_header
#[cfg(feature = "bad")] pub fn bad0_der_read_element_content_as<'a>(i: &'a [u8], tag: Tag, length: Length, constructed: bool, max_depth: usize) -> IResult<&'static [u8], Con<'a>, BerError> { der_read_element_content_as(i, tag, length, constructed, max_depth) } // @bad der_read_element_content_as
#[cfg(feature = "bad")] pub fn bad1_der_read_element_content_as<'a>(i: &'a [u8], tag: Tag, length: Length, constructed: bool, max_depth: usize) -> IResult<&'a [u8], Con<'static>, BerError> { der_read_element_content_as(i, tag, length, constructed, max_depth) } // @bad der_read_element_content_as
#[cfg(feature = "bad")] pub fn bad0_parse_der_content<'a>(i: &'a [u8], hdr: &Header, max_depth: usize, tag: Tag) -> IResult<&'static [u8], Con<'a>, BerError> { parse_der_content(tag)(i, hdr, max_depth) } // @bad parse_der_content
#[cfg(feature = "bad")] pub fn bad1_parse_der_content<'a>(i: &'a [u8], hdr: &Header, max_depth: usize, tag: Tag) -> IResult<&'a [u8], Con<'static>, BerError> { parse_der_content(tag)(i, hdr, max_depth) } // @bad parse_der_content
#[cfg(feature = "bad")] pub fn bad0_parse_der_content2<'a>(i: &'a [u8], hdr: Header<'a>, max_depth: usize, tag: Tag) -> IResult<&'static [u8], Con<'a>, BerError> { parse_der_content2(tag)(i, hdr, max_depth) } // @bad parse_der_content2
#[cfg(feature = "bad")] pub fn bad1_parse_der_content2<'a>(i: &'a [u8], hdr: Header<'a>, max_depth: usize, tag: Tag) -> IResult<&'a [u8], Con<'static>, BerError> { parse_der_content2(tag)(i, hdr, max_depth) } // @bad parse_der_content2
#[cfg(feature = "bad")] pub fn bad0_parse_der_slice<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], &'a [u8], BerError> { parse_der_slice(i, tag) } // @bad parse_der_slice
#[cfg(feature = "bad")] pub fn bad1_parse_der_slice<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], &'static [u8], BerError> { parse_der_slice(i, tag) } // @bad parse_der_slice
#[cfg(feature = "bad")] pub fn bad0_parse_der_explicit_optional<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_explicit_optional(i, tag, cb_obj) } // @bad parse_der_explicit_optional
#[cfg(feature = "bad")] pub fn bad1_parse_der_explicit_optional<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_explicit_optional(i, tag, cb_obj) } // @bad parse_der_explicit_optional
#[cfg(feature = "bad")] pub fn bad0_parse_der_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_implicit(i, tag, cb_imp) } // @bad parse_der_implicit
#[cfg(feature = "bad")] pub fn bad1_parse_der_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_implicit(i, tag, cb_imp) } // @bad parse_der_implicit
#[cfg(feature = "bad")] pub fn bad0_parse_der_container<'a>(i: &'a [u8]) -> IResult<&'static [u8], T0, E0> { parse_der_container(cb_hdr_g)(i) } // @bad parse_der_container
#[cfg(feature = "bad")] pub fn bad0_parse_der_tagged_explicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_tagged_explicit(tag, cb_obj)(i) } // @bad parse_der_tagged_explicit
#[cfg(feature = "bad")] pub fn bad1_parse_der_tagged_explicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_tagged_explicit(tag, cb_obj)(i) } // @bad parse_der_tagged_explicit
#[cfg(feature = "bad")] pub fn bad0_parse_der_tagged_explicit_g<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], T0, E0> { parse_der_tagged_explicit_g(tag, cb_hdr_g)(i) } // @bad parse_der_tagged_explicit_g
#[cfg(feature = "bad")] pub fn bad0_parse_der_tagged_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_tagged_implicit(tag, cb_imp)(i) } // @bad parse_der_tagged_implicit
#[cfg(feature = "bad")] pub fn bad1_parse_der_tagged_implicit<'a>(i: &'a [u8], tag: Tag) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_tagged_implicit(tag, cb_imp)(i) } // @bad parse_der_tagged_implicit
#[cfg(feature = "bad")] pub fn bad0_parse_der_tagged_implicit_g<'a>(i: &'a [u8], tag: Tag) -> IResult<&'static [u8], T0, E0> { parse_der_tagged_implicit_g(tag, cb_imp_g)(i) } // @bad parse_der_tagged_implicit_g
#[cfg(feature = "bad")] pub fn bad0_parse_der_sequence_of<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_sequence_of(cb_obj)(i) } // @bad parse_der_sequence_of
#[cfg(feature = "bad")] pub fn bad1_parse_der_sequence_of<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_sequence_of(cb_obj)(i) } // @bad parse_der_sequence_of
#[cfg(feature = "bad")] pub fn bad0_parse_der_sequence_of_v<'a>(i: &'a [u8]) -> IResult<&'static [u8], Vec<T0>, E0> { parse_der_sequence_of_v(cb_g)(i) } // @bad parse_der_sequence_of_v
#[cfg(feature = "bad")] pub fn bad0_parse_der_sequence_defined<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_sequence_defined(cb_vec)(i) } // @bad parse_der_sequence_defined
#[cfg(feature = "bad")] pub fn bad1_parse_der_sequence_defined<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_sequence_defined(cb_vec)(i) } // @bad parse_der_sequence_defined
#[cfg(feature = "bad")] pub fn bad0_parse_der_sequence_defined_g<'a>(i: &'a [u8]) -> IResult<&'static [u8], T0, E0> { parse_der_sequence_defined_g(cb_hdr_g)(i) } // @bad parse_der_sequence_defined_g
#[cfg(feature = "bad")] pub fn bad0_parse_der_set_of<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_set_of(cb_obj)(i) } // @bad parse_der_set_of
#[cfg(feature = "bad")] pub fn bad1_parse_der_set_of<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_set_of(cb_obj)(i) } // @bad parse_der_set_of
#[cfg(feature = "bad")] pub fn bad0_parse_der_set_of_v<'a>(i: &'a [u8]) -> IResult<&'static [u8], Vec<T0>, E0> { parse_der_set_of_v(cb_g)(i) } // @bad parse_der_set_of_v
#[cfg(feature = "bad")] pub fn bad0_parse_der_set_defined<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_der_set_defined(cb_vec)(i) } // @bad parse_der_set_defined
#[cfg(feature = "bad")] pub fn bad1_parse_der_set_defined<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_der_set_defined(cb_vec)(i) } // @bad parse_der_set_defined
#[cfg(feature = "bad")] pub fn bad0_parse_der_set_defined_g<'a>(i: &'a [u8]) -> IResult<&'static [u8], T0, E0> { parse_der_set_defined_g(cb_hdr_g)(i) } // @bad parse_der_set_defined_g
#[cfg(feature = "bad")] pub fn bad0_parse_ber_optional<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_optional(cb_obj)(i) } // @bad parse_ber_optional
#[cfg(feature = "bad")] pub fn bad1_parse_ber_optional<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_optional(cb_obj)(i) } // @bad parse_ber_optional
#[cfg(feature = "bad")] pub fn bad0_parse_ber_any<'a>(i: &'a [u8]) -> IResult<&'static [u8], Any<'a>, BerError> { parse_ber_any(i) } // @bad parse_ber_any
#[cfg(feature = "bad")] pub fn bad1_parse_ber_any<'a>(i: &'a [u8]) -> IResult<&'a [u8], Any<'static>, BerError> { parse_ber_any(i) } // @bad parse_ber_any
#[cfg(feature = "bad")] pub fn bad0_parse_ber_any_r<'a>(i: &'a [u8], max_depth: usize) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_any_r(i, max_depth) } // @bad parse_ber_any_r
#[cfg(feature = "bad")] pub fn bad1_parse_ber_any_r<'a>(i: &'a [u8], max_depth: usize) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_any_r(i, max_depth) } // @bad parse_ber_any_r
#[cfg(feature = "bad")] pub fn bad0_parse_ber_any_with_tag_r<'a>(i: &'a [u8], tag: Tag, max_depth: usize) -> IResult<&'static [u8], Obj<'a>, BerError> { parse_ber_any_with_tag_r(i, tag, max_depth) } // @bad parse_ber_any_with_tag_r
#[cfg(feature = "bad")] pub fn bad1_parse_ber_any_with_tag_r<'a>(i: &'a [u8], tag: Tag, max_depth: usize) -> IResult<&'a [u8], Obj<'static>, BerError> { parse_ber_any_with_tag_r(i, tag, max_depth) } // @bad parse_ber_any_with_tag_r
#[cfg(feature = "bad")] pub fn bad0_der_visiblestring<'a>(i: &'a [u8]) -> IResult<&'static [u8], Obj<'a>, BerError> { der::visiblestring(i) } // @bad der_visiblestring
#[cfg(feature = "bad")] pub fn bad1_der_visiblestring<'a>(i: &'a [u8]) -> IResult<&'a [u8], Obj<'static>, BerError> { der::visiblestring(i) } // @bad der_visiblestring
#[cfg(feature = "bad")] pub fn bad0_der_read_element_content<'a>(i: &'a [u8], hdr: Header<'a>) -> IResult<&'static [u8], Obj<'a>, BerError> { der_read_element_content(i, hdr) } // @bad der_read_element_content
#[cfg(feature = "bad")] pub fn bad1_der_read_element_content<'a>(i: &'a [u8], hdr: Header<'a>) -> IResult<&'a [u8], Obj<'static>, BerError> { der_read_element_content(i, hdr) } // @bad der_read_element_content
#[cfg(feature = "bad")] pub fn bad0_obj_as_slice<'o, 'a>(o: &'o Obj<'a>) -> Result<&'static [u8], BerError> { o.as_slice() } // @bad obj_as_slice
#[cfg(feature = "bad")] pub fn bad0_obj_as_str<'o, 'a>(o: &'o Obj<'a>) -> Result<&'static str, BerError> { o.as_str() } // @bad obj_as_str
#[cfg(feature = "bad")] pub fn bad0_obj_as_oid<'o, 'a>(o: &'o Obj<'a>) -> Result<&'static Oid<'a>, BerError> { o.as_oid() } // @bad obj_as_oid
#[cfg(feature = "bad")] pub fn bad1_obj_as_oid<'o, 'a>(o: &'o Obj<'a>) -> Result<&'a Oid<'a>, BerError> { o.as_oid() } // @bad obj_as_oid
#[cfg(feature = "bad")] pub fn bad2_obj_as_oid<'o, 'a>(o: &'o Obj<'a>) -> Result<&'o Oid<'static>, BerError> { o.as_oid() } // @bad obj_as_oid
#[cfg(feature = "bad")] pub fn bad0_obj_as_oid_val<'o, 'a>(o: &'o Obj<'a>) -> Result<Oid<'static>, BerError> { o.as_oid_val() } // @bad obj_as_oid_val
#[cfg(feature = "bad")] pub fn bad0_obj_as_optional<'o, 'a>(o: &'o Obj<'a>) -> Result<Option<&'a Obj<'a>>, BerError> { o.as_optional() } // @bad obj_as_optional
#[cfg(feature = "bad")] pub fn bad1_obj_as_optional<'o, 'a>(o: &'o Obj<'a>) -> Result<Option<&'o Obj<'static>>, BerError> { o.as_optional() } // @bad obj_as_optional
#[cfg(feature = "bad")] pub fn bad0_obj_as_tagged<'o, 'a>(o: &'o Obj<'a>) -> Result<(Class, Tag, &'a Obj<'a>), BerError> { o.as_tagged() } // @bad obj_as_tagged
#[cfg(feature = "bad")] pub fn bad1_obj_as_tagged<'o, 'a>(o: &'o Obj<'a>) -> Result<(Class, Tag, &'o Obj<'static>), BerError> { o.as_tagged() } // @bad obj_as_tagged
#[cfg(feature = "bad")] pub fn bad0_obj_as_bitstring<'o, 'a>(o: &'o Obj<'a>) -> Result<BitStringObject<'static>, BerError> { o.as_bitstring() } // @bad obj_as_bitstring
#[cfg(feature = "bad")] pub fn bad0_obj_as_bitstring_ref<'o, 'a>(o: &'o Obj<'a>) -> Result<&'o BitStringObject<'static>, BerError> { o.as_bitstring_ref() } // @bad obj_as_bitstring_ref
#[cfg(feature = "bad")] pub fn bad0_obj_as_bitslice<'o, 'a>(o: &'o Obj<'a>) -> Result<&'static BitSlice<u8, Msb0>, BerError> { o.as_bitslice() } // @bad obj_as_bitslice
#[cfg(feature = "bad")] pub fn bad0_obj_as_sequence<'o, 'a>(o: &'o Obj<'a>) -> Result<&'a Vec<Obj<'a>>, BerError> { o.as_sequence() } // @bad obj_as_sequence
#[cfg(feature = "bad")] pub fn bad1_obj_as_sequence<'o, 'a>(o: &'o Obj<'a>) -> Result<&'o Vec<Obj<'static>>, BerError> { o.as_sequence() } // @bad obj_as_sequence
#[cfg(feature = "bad")] pub fn bad0_obj_as_set<'o, 'a>(o: &'o Obj<'a>) -> Result<&'a Vec<Obj<'a>>, BerError> { o.as_set() } // @bad obj_as_set
#[cfg(feature = "bad")] pub fn bad1_obj_as_set<'o, 'a>(o: &'o Obj<'a>) -> Result<&'o Vec<Obj<'static>>, BerError> { o.as_set() } // @bad obj_as_set
#[cfg(feature = "bad")] pub fn bad0_con_as_slice<'o, 'a>(o: &'o Con<'a>) -> Result<&'static [u8], BerError> { o.as_slice() } // @bad con_as_slice
#[cfg(feature = "bad")] pub fn bad0_con_as_str<'o, 'a>(o: &'o Con<'a>) -> Result<&'static str, BerError> { o.as_str() } // @bad con_as_str
#[cfg(feature = "bad")] pub fn bad0_con_as_oid<'o, 'a>(o: &'o Con<'a>) -> Result<&'static Oid<'a>, BerError> { o.as_oid() } // @bad con_as_oid
#[cfg(feature = "bad")] pub fn bad1_con_as_oid<'o, 'a>(o: &'o Con<'a>) -> Result<&'a Oid<'a>, BerError> { o.as_oid() } // @bad con_as_oid
#[cfg(feature = "bad")] pub fn bad2_con_as_oid<'o, 'a>(o: &'o Con<'a>) -> Result<&'o Oid<'static>, BerError> { o.as_oid() } // @bad con_as_oid
#[cfg(feature = "bad")] pub fn bad0_con_as_oid_val<'o, 'a>(o: &'o Con<'a>) -> Result<Oid<'static>, BerError> { o.as_oid_val() } // @bad con_as_oid_val
#[cfg(feature = "bad")] pub fn bad0_con_as_optional<'o, 'a>(o: &'o Con<'a>) -> Result<Option<&'a Obj<'a>>, BerError> { o.as_optional() } // @bad con_as_optional
#[cfg(feature = "bad")] pub fn bad1_con_as_optional<'o, 'a>(o: &'o Con<'a>) -> Result<Option<&'o Obj<'static>>, BerError> { o.as_optional() } // @bad con_as_optional
#[cfg(feature = "bad")] pub fn bad0_con_as_tagged<'o, 'a>(o: &'o Con<'a>) -> Result<(Class, Tag, &'a Obj<'a>), BerError> { o.as_tagged() } // @bad con_as_tagged
#[cfg(feature = "bad")] pub fn bad1_con_as_tagged<'o, 'a>(o: &'o Con<'a>) -> Result<(Class, Tag, &'o Obj<'static>), BerError> { o.as_tagged() } // @bad con_as_tagged
#[cfg(feature = "bad")] pub fn bad0_con_as_bitstring<'o, 'a>(o: &'o Con<'a>) -> Result<BitStringObject<'static>, BerError> { o.as_bitstring() } // @bad con_as_bitstring
#[cfg(feature = "bad")] pub fn bad0_con_as_bitstring_ref<'o, 'a>(o: &'o Con<'a>) -> Result<&'o BitStringObject<'static>, BerError> { o.as_bitstring_ref() } // @bad con_as_bitstring_ref
#[cfg(feature = "bad")] pub fn bad0_con_as_bitslice<'o, 'a>(o: &'o Con<'a>) -> Result<&'static BitSlice<u8, Msb0>, BerError> { o.as_bitslice() } // @bad con_as_bitslice
#[cfg(feature = "bad")] pub fn bad0_con_as_sequence<'o, 'a>(o: &'o Con<'a>) -> Result<&'a Vec<Obj<'a>>, BerError> { o.as_sequence() } // @bad con_as_sequence
#[cfg(feature = "bad")] pub fn bad1_con_as_sequence<'o, 'a>(o: &'o Con<'a>) -> Result<&'o Vec<Obj<'static>>, BerError> { o.as_sequence() } // @bad con_as_sequence
#[cfg(feature = "bad")] pub fn bad0_con_as_set<'o, 'a>(o: &'o Con<'a>) -> Result<&'a Vec<Obj<'a>>, BerError> { o.as_set() } // @bad con_as_set
#[cfg(feature = "bad")] pub fn bad1_con_as_set<'o, 'a>(o: &'o Con<'a>) -> Result<&'o Vec<Obj<'static>>, BerError> { o.as_set() } // @bad con_as_set
#[cfg(feature = "bad")] pub fn bad0_obj_clone<'a>(o: &Obj<'a>) -> Obj<'static> { o.clone() } // @bad obj_clone
#[cfg(feature = "bad")] pub fn bad0_con_clone<'a>(o: &Con<'a>) -> Con<'static> { o.clone() } // @bad con_clone
#[cfg(feature = "bad")] pub fn bad0_obj_into_iter<'a>(o: Obj<'a>) -> Option<Obj<'static>> { o.into_iter().next() } // @bad obj_into_iter
#[cfg(feature = "bad")] pub fn bad0_obj_ref_iter<'a>(o: &'a Obj<'a>) -> Option<&'a Obj<'static>> { o.ref_iter().next() } // @bad obj_ref_iter
#[cfg(feature = "bad")] pub fn bad0_obj_index<'o, 'a>(o: &'o Obj<'a>) -> &'a Obj<'a> { &o[0] } // @bad obj_index
#[cfg(feature = "bad")] pub fn bad1_obj_index<'o, 'a>(o: &'o Obj<'a>) -> &'o Obj<'static> { &o[0] } // @bad obj_index
#[cfg(feature = "bad")] pub fn bad0_obj_content<'a>(o: Obj<'a>) -> Con<'static> { o.content } // @bad obj_content
#[cfg(feature = "bad")] pub fn bad0_obj_header<'a>(o: Obj<'a>) -> Header<'static> { o.header } // @bad obj_header
#[cfg(feature = "bad")] pub fn bad0_from_any<'a>(a: Any<'a>) -> Result<Obj<'static>, BerError> { Obj::try_from(a) } // @bad from_any
#[cfg(feature = "bad")] pub fn bad0_from_any_ref<'o, 'a>(a: &'o Any<'a>) -> Result<Obj<'static>, BerError> { Obj::try_from(a) } // @bad from_any_ref
#[cfg(feature = "bad")] pub fn bad0_from_header<'a>(h: Header<'a>, c: Con<'a>) -> Obj<'static> { Obj::from_header_and_content(h, c) } // @bad from_header
#[cfg(feature = "bad")] pub fn bad0_set_raw_tag<'a>(o: Obj<'a>, t: &'a [u8]) -> Obj<'static> { o.set_raw_tag(Some(t)) } // @bad set_raw_tag
#[cfg(feature = "bad")] pub fn bad0_bs_as_ref<'o, 'a>(o: &'o BitStringObject<'a>) -> &'static [u8] { o.as_ref() } // @bad bs_as_ref
#[cfg(feature = "bad")] pub fn bad0_from_slice<'a>(s: &'a [u8]) -> Obj<'static> { Obj::from_int_slice(s) } // @bad from_slice
#[cfg(feature = "bad")] pub fn bad0_from_seq<'a>(s: Vec<Obj<'a>>) -> Obj<'static> { Obj::from_seq(s) } // @bad from_seq
#[cfg(feature = "bad")] pub fn bad0_outlives_slice<'a>(i: &'a [u8]) -> Option<&'static [u8]> { let (_, o) = parse_ber(i).ok()?; o.as_slice().ok() } // @bad outlives_slice
#[cfg(feature = "bad")] pub fn bad0_outlives_str<'a>(i: &'a [u8]) -> Option<&'static str> { let (_, o) = parse_der(i).ok()?; o.as_str().ok() } // @bad outlives_str
#[cfg(feature = "bad")] pub fn bad0_outlives_oid<'a>(i: &'a [u8]) -> Option<Oid<'static>> { let (_, o) = parse_der(i).ok()?; o.as_oid_val().ok() } // @bad outlives_oid
#[cfg(feature = "bad")] pub fn bad0_outlives_bits<'a>(i: &'a [u8]) -> Option<BitStringObject<'static>> { let (_, o) = parse_der(i).ok()?; o.as_bitstring().ok() } // @bad outlives_bits
#[cfg(feature = "bad")] pub fn bad_local_obj() -> Option<Obj<'static>> { let v = vec![5, 0]; let r = match parse_ber(&v) { Ok((_, o)) => Some(o), _ => None }; r } // @bad local_obj
#[cfg(feature = "bad")] pub fn bad_local_use() -> bool { let o; { let v = vec![5u8, 0]; o = parse_ber(&v); } o.is_ok() } // @bad local_use
