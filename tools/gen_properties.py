#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {})}})

prop("C01", "No input makes a public parsing, access or encoding call panic",
 "For every byte string, and for every object obtained from one or built through the public constructors, no public parser, combinator, accessor, iterator, visitor, printer or encoder call panics: no out-of-bounds access, arithmetic overflow, failed assertion, unwrap of an absent value or unimplemented branch is reachable. Only indexing an object with an absent position, code in caller-supplied callbacks, and indentation widths or visitor start depths near the integer maximum are exempt.",
 ["inputs"], "all input byte strings, all object values, all caller-supplied depths, lengths and tags",
 "The tests run a few hundred fixed byte strings; a panic needs one particular combination of length, tag, flag and remaining bytes.",
 ["src/ber/parser.rs", "src/ber/ber.rs", "src/ber/integer.rs", "src/ber/wrap_any.rs", "src/der/parser.rs", "src/ber/multi.rs", "src/der/multi.rs", "src/ber/serialize.rs", "src/ber/visit.rs", "src/ber/visit_mut.rs", "src/ber/print.rs"],
 [("slice indexing guarded by length checks", "src/ber/parser.rs, src/der/parser.rs"), ("length checks before fixed-size array conversion", "src/ber/integer.rs")])
prop("C02", "Nesting depth is bounded by the caller's budget on every recursive path",
 "Every recursion driven by input bytes consumes one unit of a depth budget that is checked for exhaustion before any deeper level is entered, and an exhausted budget is reported as a depth error, never by deeper recursion or acceptance. Entry points without an explicit depth start with the documented default budget, entry points with one never exceed it, and recursion over already-parsed objects only ever descends into strict sub-objects.",
 ["inputs"], "all inputs of any nesting, all depth budgets, every cycle of the call graph",
 "Stack exhaustion needs inputs nested beyond any test vector; a test can only sample depths.",
 ["src/ber/parser.rs", "src/ber/wrap_any.rs", "src/der/parser.rs", "src/ber/integer.rs", "src/ber/visit.rs", "src/ber/visit_mut.rs", "src/ber/serialize.rs", "src/ber/print.rs"],
 [("MAX_RECURSION default and max_depth parameter", "src/ber/parser.rs"), ("max_depth == 0 checks", "src/ber/wrap_any.rs, src/ber/parser.rs")])
prop("C03", "Parsers return exactly the bytes after the object they consumed",
 "On success the remaining input returned by a parser is the suffix of its input that starts right after the parsed object (header, content, and end-of-contents marker for indefinite length), and the raw content handed out for that object is exactly its content octets.",
 ["inputs"], "all inputs and all lengths, definite and indefinite",
 "Off-by-one framing shows only for particular length/remainder combinations that the fixed vectors do not contain.",
 ["src/ber/parser.rs", "src/ber/wrap_any.rs", "src/ber/multi.rs", "src/der/parser.rs", "src/der/multi.rs"],
 [("content extraction", "src/ber/parser.rs ber_get_object_content"), ("container remainder", "src/ber/multi.rs, src/der/multi.rs")])
prop("C04", "Tags select exactly one content type; typed parsers accept only theirs",
 "A parsed universal object carries the content kind its tag number prescribes, with unrecognised universal tags and all non-universal classes kept as raw unknown content holding the header and the content bytes, and the header that was read is returned with the object. A parser for a specific type succeeds only on an element with that tag number and otherwise reports an unexpected tag.",
 ["inputs"], "all tag numbers, classes, contents; every typed parser",
 "Tests visit some tags with one or two contents each; the mapping has to hold for all tag/class combinations and contents.",
 ["src/ber/wrap_any.rs", "src/ber/parser.rs", "src/der/parser.rs"],
 [("tag to variant dispatch", "src/ber/wrap_any.rs try_berobject_from_any"), ("typed entry points", "src/ber/parser.rs, src/der/parser.rs")])
prop("C05", "DER parsing enforces the DER value constraints, and only those",
 "A DER parser never accepts a BOOLEAN whose content is not one octet equal to 00 or FF, an INTEGER that is empty or has a redundant leading zero octet, a BIT STRING with more than 7 unused bits or nonzero padding bits, a constructed encoding of a bit or character string, or a UTCTime/GeneralizedTime not ending in Z. A value satisfying its constraint is never rejected with a DER-constraint error.",
 ["inputs"], "all contents of every universal type, at every nesting level of SEQUENCE and SET",
 "The constraints quantify over all content octets; tests try one accepted and one rejected value per rule.",
 ["src/der/parser.rs"],
 [("der_read_element_content_as", "src/der/parser.rs"), ("der_read_content_bitstring", "src/der/parser.rs")])
prop("C06", "No DER entry point accepts indefinite length or BER-only nested elements",
 "No DER parser or DER combinator succeeds on an element using the indefinite-length form, and the elements nested in a SEQUENCE or SET parsed as DER are themselves parsed under the DER rules.",
 ["inputs"], "all DER entry points and combinators, all inputs, all nesting levels",
 "Tests check indefinite length on a handful of top-level vectors; every entry point and nesting level needs it.",
 ["src/der/parser.rs", "src/der/multi.rs", "src/der/tagged.rs"],
 [("definite length check", "src/der/parser.rs"), ("DER container", "src/der/multi.rs")])
prop("C07", "Explicit and implicit tagging check the tag and hand over the right content",
 "Explicit tagging succeeds only for a constructed element of non-universal class with the requested tag number; implicit tagging succeeds only for the requested tag number. The inner parser is then called exactly once with exactly the content octets and header of the outer element, its error is returned unchanged, and the result carries the outer header with the inner value.",
 ["inputs", "programs"], "all inputs, tags, and inner parsers, BER and DER variants",
 "Tests use well-formed vectors and a few wrong tags with fixed inner parsers.",
 ["src/ber/tagged.rs", "src/der/tagged.rs", "src/ber/parser.rs", "src/der/parser.rs"],
 [("tag/class/constructed checks", "src/ber/tagged.rs, src/der/tagged.rs")])
prop("C08", "Optional parsers never fail and consume nothing when absent",
 "An optional parser returns success for every input: if the inner parser succeeds its object is wrapped as present, with the inner header and the inner parser's remaining input; if it fails in any way the result is absent and the whole input is returned untouched.",
 ["inputs", "programs"], "all inputs and all inner parsers",
 "Quantifies over every inner parser outcome, including incomplete and failure errors.",
 ["src/ber/parser.rs", "src/der/parser.rs"],
 [("parse_ber_optional and explicit optional", "src/ber/parser.rs")])
prop("C09", "SEQUENCE and SET combinators check the tag and account for all content",
 "A SEQUENCE or SET combinator succeeds only on an element with that tag and runs the caller's parser on exactly the content octets of that element, while a generic container does so for any tag. The OF variants apply the element parser repeatedly from the start of the content, return all elements in order, and succeed only if the whole content was consumed; any element error, including incomplete data, makes the whole parse fail.",
 ["inputs", "programs"], "all inputs, all element parsers, BER and DER, SEQUENCE and SET",
 "Tests use a few element parsers on well-formed data; the contract covers every parser outcome at every element position.",
 ["src/ber/multi.rs", "src/der/multi.rs"],
 [("container combinators", "src/ber/multi.rs, src/der/multi.rs"), ("many0/complete/cut/all_consuming pipeline", "src/ber/multi.rs")])
prop("C10", "Truncated or oversized objects are never accepted",
 "A parser never succeeds when the declared definite content length exceeds the bytes available, nor does a DER parser, or a BER parser for a specific type, when more than the documented maximum object size is declared. Exceeding the size limit produces an invalid-length error rather than a truncated value.",
 ["inputs"], "all declared lengths against all available input sizes",
 "Oversized lengths near the limit cannot be materialised in tests; truncation points are sampled only.",
 ["src/ber/wrap_any.rs", "src/der/parser.rs", "src/ber/parser.rs"],
 [("MAX_OBJECT_SIZE checks", "src/ber/wrap_any.rs, src/der/parser.rs"), ("streaming length checks", "src/ber/parser.rs")])
prop("C11", "Integer accessors return the exact value or an error",
 "Reading an INTEGER as a signed or unsigned 32- or 64-bit number returns exactly the two's-complement value of its content octets whenever it returns a value. A non-negative value is returned whenever it fits the requested type, however many redundant leading zero octets it has, and otherwise too-large is reported; a negative value read as unsigned reports negative, one whose octets number at most the requested width is returned by the signed accessors, and wrapping, truncation or sign change never happens. An ENUMERATED value is returned by the unsigned accessors exactly when it fits, and the big-integer accessors return the exact value of any INTEGER.",
 ["inputs"], "all content octet strings of any length",
 "2^64 values times encodings; tests sample a few dozen.",
 ["src/ber/ber.rs", "src/ber/integer.rs"],
 [("as_i64/as_i32/as_u64/as_u32", "src/ber/ber.rs"), ("array conversion", "src/ber/integer.rs")])
prop("C12", "Bit strings convert to integers and answer bit queries exactly",
 "Reading a BIT STRING as an unsigned integer returns the big-endian value of exactly its used bits when these number at most the width of the requested type or the value fits it, and an error otherwise or when the unused-bit count exceeds the data. Querying bit n reports the n-th bit counted from the most significant bit of the first data byte, and false beyond the data.",
 ["inputs"], "all data strings, unused-bit counts and bit numbers",
 "All lengths x unused-bit counts x bit positions.",
 ["src/ber/parser.rs", "src/ber/ber.rs"],
 [("bitstring_to_u64", "src/ber/parser.rs"), ("BitStringObject::is_set", "src/ber/ber.rs")])
prop("C13", "String objects hold only validated text and exactly the content bytes",
 "An object of a restricted character string type is produced only if the charset check of that very type accepted all of its content octets, those octets are valid UTF-8, and the encoding was primitive; UTF-16 strings are produced only for even-length content that decodes as UTF-16. The text exposed is exactly the content octets.",
 ["inputs"], "all content octet strings for each string type",
 "Tests try a couple of good and bad strings for some of the types.",
 ["src/ber/wrap_any.rs"],
 [("charset and UTF-8 validation", "src/ber/wrap_any.rs")])
prop("C14", "Encoded headers are valid and carry the exact content length",
 "Encoding an object, a tagged object or a header writes the identifier octets for its class, constructed flag and tag number (low and high tag-number form), followed by the length octets: short form below 128, otherwise the minimal long form, or the indefinite marker. When an object is encoded the length written always equals the number of content bytes written after it, whatever length its header carried.",
 ["inputs"], "all classes, tags, lengths and objects",
 "Lengths across the short/long boundaries, all tag numbers and mismatched header lengths are not sampled by tests.",
 ["src/ber/serialize.rs"],
 [("ber_encode_header, encode_length", "src/ber/serialize.rs"), ("ber_encode_object", "src/ber/serialize.rs")])
prop("C15", "Encoding writes exactly the content that was parsed, in order",
 "The content octets written for an object are the ones its value stands for: raw bytes and text verbatim, booleans as 00 or FF, bit strings as unused-bit count then data, the shortest two's-complement octets for an enumerated value, nothing for null and end-of-contents, children of constructed objects each fully encoded and in order, raw bytes for unknown content. Hence re-encoding an object parsed from definite-length minimal-length DER input reproduces its bytes, time values and negative enumerated values excepted.",
 ["inputs"], "all content kinds and values",
 "Tests round-trip a few fixed objects; several content kinds never occur.",
 ["src/ber/serialize.rs"],
 [("content encoder", "src/ber/serialize.rs")])
prop("C16", "Visitors see every element once, in order, with its depth",
 "Visiting an object reports it once to the generic callback and once to the one callback of its content kind, with the exact value stored and the current depth, and for SEQUENCE and SET then visits every child in order at depth plus one. The mutable visitor does the same on the same callbacks and leaves untouched whatever the callbacks do not change.",
 ["inputs", "programs"], "all object trees, all start depths, all visitor implementations",
 "Tests visit one tree with a visitor overriding a few callbacks.",
 ["src/ber/visit.rs", "src/ber/visit_mut.rs"],
 [("visit_ber_bfs", "src/ber/visit.rs"), ("visit_ber_mut_bfs", "src/ber/visit_mut.rs")])
prop("C17", "Typed accessors return the stored value or a type error",
 "Each accessor succeeds exactly for the content kinds it documents and then returns the stored value itself (same bytes, same child, same tag and class); for every other content kind it returns an error. Object-level accessors agree with the content-level ones and with the header stored in the object.",
 ["inputs"], "all content kinds crossed with all accessors",
 "28 content kinds x 20 accessors; tests touch a fraction.",
 ["src/ber/ber.rs"],
 [("as_* accessors", "src/ber/ber.rs")])
prop("C18", "Iterating and indexing an object yields its children in order",
 "Iterating over a SEQUENCE or SET, by value or by reference, yields exactly its children, each once and in order, then ends; by-value iteration over any other object yields the object itself once, and by-reference iteration yields nothing. Indexing returns the child at that position.",
 ["inputs"], "all objects, all child counts, all positions",
 "Tests iterate one two-element sequence.",
 ["src/ber/ber.rs"],
 [("iterators and Index", "src/ber/ber.rs")])
prop("C19", "Objects built from values get the header their content requires",
 "Building an object from content, an OID, an integer slice or a list of objects keeps that content unchanged and gives it a universal-class header with the same tag number that parsing produces this content kind from, constructed exactly for SEQUENCE and SET.",
 ["inputs"], "all content kinds",
 "Tests compare a few constructors against parsed values.",
 ["src/ber/ber.rs"],
 [("from_obj, from_seq, from_set, from_int_slice", "src/ber/ber.rs")])
prop("C20", "Results depend only on the arguments",
 "No library call reads or writes global or thread-local mutable state, performs I/O other than to the writer it is given, or consults time, environment or randomness; parsing the same bytes therefore always gives the same result.",
 ["histories", "schedules"], "all call histories and thread interleavings",
 "Hidden state shows only in particular histories or schedules.",
 ["src"], [("no statics, no interior mutability, no I/O in the call graph", "whole crate")])
prop("C21", "Parsed data borrows from the input: no copies, no unsafe code",
 "The library contains no unsafe code, and every byte or text slice inside a parsed object is a sub-slice of the input buffer whose lifetime the type system ties to that buffer.",
 ["inputs", "programs"], "all inputs and all client programs",
 "Use-after-free and lifetime laundering cannot be excluded by running programs.",
 ["src/lib.rs", "src/ber/ber.rs", "src/ber/wrap_any.rs"],
 [("forbid(unsafe_code) and lifetime parameters", "src/lib.rs, src/ber/ber.rs")])
prop("C22", "Converting a raw element to an object is the same as parsing it",
 "Converting an already-read raw element into an object, by value or by reference, gives the same content and header as parsing the element's encoding would give, including for indefinite-length and non-universal elements, and fails only where that parse would fail.",
 ["inputs"], "all raw elements",
 "Tests convert one or two definite universal elements.",
 ["src/ber/ber.rs", "src/ber/wrap_any.rs"],
 [("TryFrom<Any>", "src/ber/ber.rs")])
prop("C23", "DER and BER agree: DER acceptance implies the same BER result",
 "Whenever a DER parser accepts an element, the corresponding BER parser accepts the same bytes with the same remaining input and the same content kind and value; the DER combinators apply the same tag checks and callback protocol as their BER counterparts.",
 ["inputs", "programs"], "all inputs, every DER/BER pair of entry points",
 "Needs all inputs; tests compare no pairs.",
 ["src/der/parser.rs", "src/der/multi.rs", "src/der/tagged.rs"],
 [("paired entry points", "src/der/*, src/ber/*")])
prop("C24", "The compile-time OID encoder produces the base-128 encoding of every component",
 "For every list of components the OID macro helper emits the first two arcs as forty times the first plus the second and every further component in minimal base-128 with continuation bits on all but its last octet.",
 ["inputs"], "all component lists of any magnitude",
 "Components are unbounded integers; tests encode a handful.",
 ["der-oid-macro/src/lib.rs"], [("encode_components", "der-oid-macro/src/lib.rs")])

prop("C25", "Well-formed elements within the limits are never rejected",
 "Every complete element that fits the input, the depth budget and the size limit and whose content satisfies the rule of its type (in DER, the DER rule) is accepted by the parser for any element, by the parser for its type and by the combinators for its tag whenever the caller's inner parser accepts the content. An error is reported only if the header, the length, the tag, the depth, the content or the inner parser is at fault.",
 ["inputs", "programs"], "all well-formed elements, BER and DER, all inner parsers",
 "Over-strict checks reject only particular lengths, tags or values that the fixed vectors do not contain.",
 ["src/ber/parser.rs", "src/ber/wrap_any.rs", "src/der/parser.rs", "src/ber/multi.rs", "src/der/multi.rs", "src/ber/tagged.rs", "src/der/tagged.rs"],
 [("length, constructed and value checks", "src/ber/wrap_any.rs, src/der/parser.rs"), ("combinator checks", "src/ber/multi.rs, src/ber/tagged.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P))
