#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the statements are reviewed in one place)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

M = "crates/musli/src/"
C = "crates/musli-core/src/"
Z = "crates/musli-zerocopy/src/"

p("P01", "Every value of the data model survives a roundtrip in every format",
  "For every value of the Müsli data model (scalars, strings, bytes, options, sequences, packs, maps, structs, variants, arbitrarily nested), encoding it with storage, wire, descriptive, packed, JSON or value under any encoding options and decoding the bytes with the same format, options and type yields an equal value. The decoder consumes exactly the bytes the encoder produced: bytes that follow the message are left untouched in the reader, so messages can be concatenated. Exempt is only what a format documents it cannot represent: in JSON non-finite floats and an option that holds null, in packed data (which has no tags) options anywhere but at its end.",
  ["inputs", "programs", "configurations"],
  "all type shapes up to a nesting depth, all values over boundary domains of each scalar, all formats, all combinations of integer/float/byte-order/pointer-width options",
  "The repository tests roundtrip a few dozen hand-picked types with default options; bugs hide in combinations (a map in an option in a variant, fixed width with big endian, a length that needs two varint bytes).",
  [M+"storage/en.rs", M+"storage/de.rs", M+"wire/en.rs", M+"wire/de.rs", M+"wire/tag.rs", M+"wire/int.rs", M+"descriptive/en.rs", M+"descriptive/de.rs", M+"packed/encoding.rs", M+"json/en/mod.rs", M+"json/de/mod.rs", M+"value/en.rs", M+"value/de.rs"],
  [("storage encoder/decoder pair", M+"storage/en.rs, de.rs"), ("wire tag and length prefixing", M+"wire/tag.rs, en.rs, de.rs"), ("descriptive tags", M+"descriptive/tag.rs, en.rs, de.rs"), ("JSON encoder/decoder", M+"json/en, json/de")],
  ["Encoding::to_vec / Encoding::decode of each format module", "musli::value::encode / decode"])

p("P02", "Derived Encode/Decode implementations roundtrip under every attribute",
  "For any type deriving Encode and Decode, every value roundtrips in every format that documents support for the representation chosen: named and tuple structs, unit structs, packed and transparent types, enums that are externally, internally, adjacently tagged or untagged, all-unit enums, renamed or numerically tagged fields and variants, generic types, and types with separate Binary and Text representations. Fields left out by skip_encoding_if, or skipped with #[musli(skip)], come back as their default; an unknown variant tag is an error unless a default variant exists, in which case that variant is produced.",
  ["programs", "inputs"],
  "a family of derived types covering every combination of container kind, tagging mode and field kind, all values over small domains, every format, both modes",
  "The attribute space is a product (container x tagging x field attribute x format x mode); the test suite samples single points of it.",
  ["crates/musli-macros/src/en.rs", "crates/musli-macros/src/de.rs", "crates/musli-macros/src/internals/attr.rs", "crates/musli-macros/src/internals/build.rs", M+"macros/mod.rs"],
  [("derive(Encode) expansion", "crates/musli-macros/src/en.rs"), ("derive(Decode) expansion", "crates/musli-macros/src/de.rs"), ("buffered decoding for internally tagged enums", M+"wrap.rs, value/")],
  ["Encoding::to_vec / from_slice on derived types"])

p("P03", "Schemas evolve: fields may be reordered, added with default, or removed",
  "When a message encoded by one version of a struct is decoded by another version, storage, wire, descriptive and JSON accept any order of the fields and a missing field that has a default; wire, descriptive and JSON additionally skip any unknown field whatever its type and position. In each case the shared fields carry exactly the values that were encoded, missing fields carry their default, a missing required field is an error, and the bytes after the message stay in place.",
  ["programs", "histories", "inputs"],
  "all pairs (writer version, reader version) of struct schemas over a small set of fields of every type shape, all orders, all field values over boundary domains",
  "Upgrade stability quantifies over pairs of program versions and over the type and position of the unknown field; tests cover a handful of pairs.",
  [M+"storage/de.rs", M+"wire/de.rs", M+"descriptive/de.rs", M+"json/de/mod.rs", M+"json/de/object_decoder.rs", "crates/musli-macros/src/de.rs", C+"de/skip.rs"],
  [("field loop and unknown-field handling", "crates/musli-macros/src/de.rs"), ("skip in wire", M+"wire/de.rs skip_any"), ("skip in descriptive", M+"descriptive/de.rs skip_any")],
  ["Encoding::to_vec with one type, Encoding::from_slice with another"])

p("P04", "Skipping a value consumes exactly what decoding it would consume",
  "In wire, descriptive and JSON, skipping any encoded value (of any shape, under any options) succeeds and leaves the reader exactly where decoding the value would leave it. A sequence, map or pack that is read only in part still leaves the reader just after the whole container or reports an error; it never leaves the reader in the middle of it (storage records no extent for packs, so there a pack has to be read whole, and both the tag and the value of a variant have to be read or skipped).",
  ["inputs", "programs", "configurations"],
  "all shapes to a nesting depth and boundary values, followed by a sentinel value, for every option combination; all numbers of elements consumed before stopping",
  "A skip that is off by a byte only shows with a specific tag or length form followed by more data.",
  [M+"wire/de.rs", M+"wire/int.rs", M+"descriptive/de.rs", M+"json/parser/parser.rs", M+"json/parser/integer.rs", M+"json/parser/string.rs"],
  [("wire skip_any", M+"wire/de.rs"), ("descriptive skip_any / skip_sequence_remaining", M+"descriptive/de.rs"), ("JSON Parser::skip_any", M+"json/parser")],
  ["Decoder::skip / try_skip", "decode of (Skipped, Sentinel) sequences"])

p("P05", "Decoding arbitrary bytes is total: an error or a value, bounded memory",
  "For every byte string, every target type and every format, decoding terminates and returns either a value or an error: it never panics, overflows an integer, reads outside the input or produces an invalid value (bool other than 0/1, non-UTF-8 str, invalid char, zero NonZero). The memory it requests is bounded by a small multiple of the input length plus a constant, whatever lengths the input claims (for elements that occupy at least one byte, and nesting that fits on the stack).",
  ["inputs", "fault_sequences"],
  "all byte strings up to a length over the full byte alphabet for short lengths and over a boundary alphabet for longer ones; all single-byte substitutions, insertions and deletions of valid messages; a set of target types covering every decode path",
  "Hostile inputs form an astronomically larger space than any test corpus; length fields near the integer maximum and lying length prefixes are specific values that tests do not try.",
  [M+"storage/de.rs", M+"wire/de.rs", M+"descriptive/de.rs", M+"json/parser/slice_parser.rs", M+"json/parser/integer.rs", M+"int/continuation.rs", M+"reader.rs", M+"value/de.rs", C+"internal/size_hint.rs", C+"impls/alloc.rs"],
  [("bounds-checked reading", M+"reader.rs"), ("cautious preallocation", C+"internal/size_hint.rs"), ("length arithmetic in skip", M+"wire/de.rs, descriptive/de.rs")],
  ["Encoding::from_slice on arbitrary bytes", "allocation counters of the process"])

p("P06", "A truncated message is rejected",
  "For every value and every format, decoding any strict prefix of its encoding as the same type reports an error and never a value. For JSON this holds for every document that is delimited (strings, arrays, objects, literals).",
  ["inputs", "fault_sequences"],
  "all shapes and boundary values, all strict prefixes of every encoding, all options",
  "Each message has as many truncation points as bytes; tests truncate none of them.",
  [M+"storage/de.rs", M+"wire/de.rs", M+"descriptive/de.rs", M+"packed/encoding.rs", M+"json/de/mod.rs", M+"reader.rs", M+"int/continuation.rs"],
  [("end-of-buffer detection", M+"reader.rs"), ("varint continuation", M+"int/continuation.rs"), ("JSON end markers", M+"json/de")],
  ["Encoding::from_slice on prefixes"])

p("P07", "Integers have the documented byte representation and never get truncated",
  "Fixed integers are written in exactly their width in the configured byte order; variable integers are little-endian base-128 continuation bytes of minimal length, signed ones zigzagged first; lengths and usize follow the configured pointer width; floats follow the float options. Decoding an encoded integer returns the same number, and decoding a byte sequence that denotes a number outside the target type is an error, never a wrapped or truncated number.",
  ["inputs", "configurations"],
  "all 8 and 16 bit values, all values within distance 2 of every power of two for wider types, all byte strings up to a length as continuation input, all integer/byte-order/width options",
  "Truncation and sign bugs live at specific widths and boundaries; tests use random or small numbers.",
  [M+"int/mod.rs", M+"int/continuation.rs", M+"int/zigzag.rs", M+"options.rs", M+"storage/en.rs", M+"storage/de.rs", M+"wire/int.rs", M+"wire/tag.rs"],
  [("continuation encoding", M+"int/continuation.rs"), ("zigzag", M+"int/zigzag.rs"), ("option bit layout", M+"options.rs")],
  ["storage/packed/wire/descriptive Encoding::to_vec bytes", "Encoding::from_slice results"])

p("P08", "Self-descriptive numbers convert exactly or fail",
  "In the descriptive format, JSON and value, a number encoded from any integer type can be decoded as any other integer type: the result is mathematically equal when it fits in the destination and an error when it does not. Floats decode as the float type they were written as, bit for bit in descriptive and value.",
  ["inputs", "programs"],
  "all ordered pairs of the 12 integer types and every boundary value of the source type; all pairs of float types over boundary bit patterns",
  "There are 144 type pairs times boundary values; tests cover a few pairs with small numbers.",
  [M+"descriptive/integer_encoding.rs", M+"descriptive/de.rs", M+"int/continuation.rs", M+"json/parser/integer.rs", M+"value/de.rs", M+"value/type_hint.rs"],
  [("typed integer decoding", M+"descriptive/integer_encoding.rs"), ("value number conversion", M+"value/de.rs"), ("JSON integer parser", M+"json/parser/integer.rs")],
  ["descriptive/json/value decode as another integer type"])

p("P09", "musli::value::Value stores any value and any self-descriptive message losslessly",
  "Encoding any value into musli::value::Value and decoding it back as the same type yields an equal value. Decoding a self-descriptive message (descriptive or JSON) into Value and re-encoding that Value into the same format gives a message that decodes to the original typed value; in the descriptive format, decoding the Value directly as the type also does.",
  ["inputs", "programs"],
  "all shapes to a nesting depth, boundary values of each scalar, both self-descriptive formats",
  "Losslessness is a statement about every shape; tests convert a few structs.",
  [M+"value/mod.rs", M+"value/en.rs", M+"value/de.rs", M+"value/value.rs", M+"descriptive/de.rs", M+"json/de/mod.rs"],
  [("ValueEncoder", M+"value/en.rs"), ("ValueDecoder", M+"value/de.rs"), ("ValueVisitor", M+"value/value.rs")],
  ["value::encode / value::decode", "descriptive/json from_slice::<Value> and to_vec"])

p("P10", "JSON strings are encoded and decoded exactly as RFC 8259 says",
  "Every string is encoded as a valid JSON string literal that denotes exactly that string, and every valid JSON string literal (raw, every simple escape, \\u escapes in either case, surrogate pairs) decodes to the string it denotes. Unterminated literals, unknown or incomplete escapes, lone or mismatched surrogates, raw control characters below U+0020 in a position JSON forbids, and invalid UTF-8 never decode to a string that differs from what the text denotes and, with the exception of raw control characters, are errors.",
  ["inputs"],
  "all strings of up to three scalar values from an alphabet with every ASCII character and UTF-8 length boundaries; all escape sequences (all 65536 \\uXXXX, all surrogate pair boundaries); all byte strings of bounded length over an escape alphabet",
  "Escapes and surrogates interact pairwise; the space of short literals is far larger than a test table.",
  [M+"json/parser/string.rs", M+"json/en/mod.rs", M+"json/de/mod.rs", M+"str.rs"],
  [("escape parsing", M+"json/parser/string.rs"), ("escape writing", M+"json/en/mod.rs")],
  ["json::to_string / json::from_str of String and &str"])

p("P11", "JSON numbers decode to the number they denote",
  "A JSON number decodes into an integer type exactly when it denotes an integer (fraction and exponent included, as in 1.50e2) that fits the type, and then to that integer; otherwise it is an error. Decoded as f32 or f64 it gives the value nearest to what it denotes, identical to Rust's own parsing, and every finite float encodes to a number that decodes back to the same bits. Whitespace around a number does not matter.",
  ["inputs"],
  "all strings of bounded length over the alphabet of number characters that are valid RFC 8259 numbers (and, for integers, those that are not), all integer types; boundary and halfway floats; extreme exponents",
  "The number grammar has exponent/fraction/zero interactions and overflow boundaries per width that tests sample thinly.",
  [M+"json/parser/integer.rs", M+"json/parser/parser.rs", M+"dec2flt/mod.rs", M+"dec2flt/parse.rs", M+"dec2flt/decimal.rs", M+"dec2flt/lemire.rs", M+"dec2flt/slow.rs", M+"json/en/mod.rs"],
  [("integer parser", M+"json/parser/integer.rs"), ("float parser", M+"dec2flt/"), ("float writer", M+"json/en/mod.rs (ryu)")],
  ["json::from_str of every integer and float type", "json::to_string of floats"])

p("P12", "JSON output is valid JSON and every valid JSON document is understood",
  "Whatever is encoded, the JSON encoder emits one syntactically valid RFC 8259 document (finite floats) that denotes the encoded data. Every valid document, with any whitespace between tokens, decodes to the data it denotes, both dynamically into Value and into matching types; malformed literals, unclosed containers, missing colons and values of the wrong type are errors.",
  ["inputs", "programs"],
  "all JSON documents generated by the grammar up to a number of tokens, with all whitespace placements; all shapes for the encoder",
  "Grammar coverage is combinatorial in nesting, whitespace and token kinds.",
  [M+"json/de/mod.rs", M+"json/de/array_decoder.rs", M+"json/de/object_decoder.rs", M+"json/de/object_pair_decoder.rs", M+"json/de/variant_decoder.rs", M+"json/parser/parser.rs", M+"json/parser/token.rs", M+"json/en/"],
  [("object/array decoders", M+"json/de"), ("tokenizer", M+"json/parser/token.rs"), ("JSON encoders", M+"json/en")],
  ["json::from_slice / from_str::<Value or typed>", "json::to_string"])

p("P13", "Writers deliver every byte or report an error",
  "Encoding the same value into a Vec, an io::Write, a fixed-size buffer or a byte slice produces the same bytes. A destination that is too small, or an io::Write that fails or accepts only part of the data, makes the encode call return an error rather than success with missing bytes, and never writes outside the destination; a destination of exactly the needed size succeeds, and the reported number of bytes written is exact.",
  ["fault_sequences", "inputs"],
  "every destination capacity from zero to the encoded length plus one, every write call index at which the io writer fails or goes short, for every format and a set of values",
  "Each message has one fault point per byte and per write call; tests exercise the successful path only.",
  [M+"writer.rs", M+"fixed.rs", M+"wrap.rs", M+"context/mod.rs", M+"macros/mod.rs", M+"storage/encoding.rs", M+"json/encoding.rs", M+"json/en/mod.rs"],
  [("SliceMutWriter / BufWriter", M+"writer.rs, slice_mut_writer.rs"), ("FixedBytes", M+"fixed.rs"), ("io::Write wrapper", M+"wrap.rs")],
  ["Encoding::encode / to_slice / to_fixed_bytes / to_writer / to_vec"])

p("P14", "The slice allocator never overlaps, corrupts or loses memory",
  "Whatever sequence of allocate, grow, merge and free operations is applied to the stack/slice-backed allocator, every live allocation is aligned, lies inside the buffer, overlaps no other and keeps its contents; a request that cannot be met fails with an error and changes nothing. Memory freed becomes reusable: repeating any history whose allocations are all freed returns to the same state, however often, and everything can then be allocated except for the few headers that manage the most allocations which were alive at the same time.",
  ["histories"],
  "all operation sequences up to a depth over several live allocations of different sizes and alignments, on buffers of several sizes and base alignments",
  "Free-list corruption needs a particular order of allocations, growths and frees; unit tests walk a few fixed orders.",
  [M+"alloc/slice.rs", M+"alloc/default.rs", C+"alloc/mod.rs", C+"alloc/vec.rs"],
  [("region list and free list", M+"alloc/slice.rs Internal"), ("realloc/merge", M+"alloc/slice.rs")],
  ["Allocator::alloc / Alloc::resize / try_merge / drop through Slice"],
  state=[("regions", "occupied header chain", M+"alloc/slice.rs"), ("free_head", "free headers", M+"alloc/slice.rs"), ("occupied", "bytes/regions in use", M+"alloc/slice.rs")])

p("P15", "Vec, String and Box on any allocator behave like their std counterparts",
  "Any sequence of operations on musli's allocator-aware Vec, String and Box gives the same contents, lengths and results as the same sequence on the standard types, with the system allocator as with the slice allocator. Every element is dropped exactly once (also zero-sized and over-aligned ones, and when an operation fails for lack of memory), and a failed operation leaves the contents unchanged.",
  ["histories", "fault_sequences"],
  "all operation sequences up to a depth over drop-counting, zero-sized and byte elements, on the system allocator, the slice allocator and an allocator that fails at any chosen request",
  "Double drops and leaks depend on operation order and on which allocation fails.",
  [C+"alloc/vec.rs", C+"alloc/string.rs", C+"alloc/boxed.rs", C+"alloc/system.rs", C+"alloc/disabled.rs", M+"alloc/slice.rs"],
  [("Vec", C+"alloc/vec.rs"), ("String", C+"alloc/string.rs"), ("Box", C+"alloc/boxed.rs"), ("System", C+"alloc/system.rs")],
  ["musli::alloc::{Vec, String, Box} public methods", "drop counters"])

p("P16", "Running out of allocator memory is an error, never a wrong result",
  "If any single allocation request made through the context's allocator fails during encoding or decoding, the operation either still returns the correct result or returns an error; it does not panic, leak allocator memory, or return a different value. The same context and allocator can be used again afterwards and then give the normal result.",
  ["fault_sequences"],
  "every allocation index of every encode/decode run in a set of workloads (JSON with escapes, buffered enums, Value, tracing contexts), plus slice allocators of every buffer size from zero up",
  "One run has many allocation points; only systematic injection visits each one.",
  [M+"context/mod.rs", M+"context/trace.rs", M+"context/access.rs", M+"alloc/slice.rs", M+"value/value.rs", M+"json/de/mod.rs", C+"alloc/vec.rs"],
  [("allocation in contexts", M+"context/trace.rs"), ("allocation in decoders", M+"value/, json/")],
  ["Encoding::*_with on contexts created with context::new_in(alloc)"])

p("P17", "Errors are reported once, at the right path, and contexts are reusable",
  "When a traced context reports an error, there is exactly one report for the failed operation, its path names the fields, indexes, keys and variants leading to the offending value, and its byte range lies within the input and covers the place of failure. After any success or failure the context can be reused for any other operation and reports only errors of that operation, without stale path elements.",
  ["histories", "inputs"],
  "all failure positions in a family of nested documents, in several formats, and all sequences of successful and failing operations on one context up to a depth",
  "Path bookkeeping is a stack that must balance on every error exit; only histories that reuse a context after each kind of failure show imbalance.",
  [M+"context/mod.rs", M+"context/trace.rs", M+"context/access.rs", M+"context/capture.rs", "crates/musli-macros/src/de.rs", C+"context.rs"],
  [("path stack", M+"context/trace.rs"), ("shared access flags", M+"context/access.rs"), ("enter/leave calls", "crates/musli-macros/src/de.rs, " + C + "impls")],
  ["context::new().with_trace(): report(), errors()"])

p("P18", "Serde types through the bridge behave like native types",
  "Encoding a value through musli::serde and decoding it through musli::serde gives an equal value in every format for every shape the serde data model shares with Müsli, including enums of all four variant kinds, options, maps, tuples, newtypes and internally or untagged serde enums in self-descriptive formats. Serde and native Müsli implementations of the same simple shape interoperate in JSON.",
  ["inputs", "programs"],
  "a family of types deriving both serde and Müsli traits covering every serde data-model item, all values over small domains, all formats",
  "The adapter maps ~30 serde methods onto Müsli's; the test suite covers few of them per format.",
  [M+"serde/mod.rs", M+"serde/ser.rs", M+"serde/de.rs", M+"serde/error.rs"],
  [("Serializer adapter", M+"serde/ser.rs"), ("Deserializer adapter", M+"serde/de.rs")],
  ["#[musli(with = musli::serde)] fields, musli::serde::{encode, decode}"])

p("P19", "Implementations for standard library types roundtrip",
  "Every standard library type for which Müsli implements Encode and Decode (integers, NonZero, Wrapping, strings, C strings, OS strings and paths, boxed/Rc/Arc/Cow values, tuples, arrays, all collections, ranges, Result, Option, network addresses, PhantomData, unit) roundtrips to an equal value in every format and both modes, including as an element of a collection and as a struct field; decoding something which would break the invariant of the type (NonZero, C strings, array lengths) is an error and nothing else is.",
  ["inputs", "programs", "configurations"],
  "every implemented standard type, all values over boundary domains, every format and option set, alone and inside Vec/Option/struct",
  "There are some sixty types times formats and modes; the test suite touches a minority of the cells.",
  [C+"impls/mod.rs", C+"impls/alloc.rs", C+"impls/net.rs", C+"impls/range.rs", C+"impls/tuples.rs", C+"impls/alloc.rs"],
  [("scalar impls", C+"impls/mod.rs"), ("alloc impls", C+"impls/alloc.rs"), ("net impls", C+"impls/net.rs"), ("range impls", C+"impls/range.rs")],
  ["Encoding::to_vec / from_slice over the types"])

p("P20", "Zero-copy buffers store values at aligned offsets and load them back",
  "Whatever sequence of store, store_slice, store_unsized, extend, reserve, request_align, align_in_place, truncate-by-clear and clone operations is applied to an OwnedBuf, or to a SliceMut with enough room, every returned reference is aligned for its type and loads back exactly the stored value for as long as the buffer is not cleared, padding bytes are zero, growth preserves contents, and the two buffer kinds produce the same bytes. After align_in_place the buffer's address satisfies the largest requested alignment.",
  ["histories"],
  "all operation sequences up to a depth over types of alignment 1 to 16 with and without padding, for all byte orders and offset sizes",
  "Alignment and padding depend on the whole history of stores.",
  [Z+"buf/owned_buf.rs", Z+"buf/slice_mut.rs", Z+"buf/padder.rs", Z+"buf/mod.rs", Z+"mem/maybe_uninit.rs"],
  [("alignment and growth", Z+"buf/owned_buf.rs"), ("padding", Z+"buf/padder.rs"), ("SliceMut", Z+"buf/slice_mut.rs")],
  ["OwnedBuf / SliceMut public methods, Buf::load, as_slice, alignment of as_slice().as_ptr()"],
  state=[("len", "bytes stored", Z+"buf/owned_buf.rs"), ("requested", "largest alignment asked for", Z+"buf/owned_buf.rs"), ("align", "alignment of the allocation", Z+"buf/owned_buf.rs")])

p("P21", "Zero-copy loads accept exactly the valid, in-bounds, aligned bytes",
  "Loading a type from a buffer succeeds exactly when the whole value lies inside the buffer, the address is aligned for the type (unless the unaligned load is used) and every byte pattern in it is valid for the field it belongs to (bool, char, NonZero, enum discriminant, nested fields, packed and padded layouts); a successful load equals the stored value. This holds for derived structs of every repr (C, packed, packed(N), transparent), derived enums, arrays, slices and str, for shared, mutable and unaligned loads.",
  ["inputs", "programs"],
  "every byte value at every position of a valid image of each type, every offset and buffer length around the boundaries, every buffer misalignment; all types in the family",
  "Validation must be right for each byte position and layout; a validator that checks the wrong byte passes tests that only use valid data.",
  [Z+"buf/validator.rs", Z+"buf/buf.rs", Z+"traits.rs", Z+"buf/load.rs", "crates/musli-zerocopy-macros/src/zero_copy/mod.rs", "crates/musli-zerocopy-macros/src/zero_copy/num.rs"],
  [("Validator", Z+"buf/validator.rs"), ("bounds/alignment checks", Z+"buf/buf.rs"), ("derive", "crates/musli-zerocopy-macros/src/zero_copy/mod.rs")],
  ["Buf::load, load_at, load_at_mut, load_at_unaligned, ZeroCopy::from_bytes"])

p("P22", "Byte order and offset size are honoured everywhere in zero-copy data",
  "Endian values, references and packed slices written with a byte order and an offset size have exactly that byte order and size in memory, report the same offset, length and value back, and convert between byte orders without changing meaning, for every combination of Little/Big and u8/u16/u32/u64/usize. Indexing, splitting, iterating and coercing a slice reference addresses the same elements as the same operation on the slice it refers to; values that do not fit the offset size are rejected.",
  ["inputs", "configurations"],
  "all byte orders x offset sizes x offsets and lengths over boundary values; all slice operations on all small slices; all 16-bit values for swapping",
  "The native byte order hides missing swaps; only exhaustive cross-checks of the foreign order reveal them.",
  [Z+"endian/endian.rs", Z+"endian/mod.rs", Z+"pointer/ref.rs", Z+"pointer/size.rs", Z+"pointer/coerce.rs", Z+"pointer/coerce_slice.rs", Z+"slice/packed.rs", Z+"slice/binary_search.rs"],
  [("Ref", Z+"pointer/ref.rs"), ("Size", Z+"pointer/size.rs"), ("Packed", Z+"slice/packed.rs"), ("Endian", Z+"endian/endian.rs")],
  ["Ref / Packed / Endian public methods, raw bytes of stored references"])

p("P23", "Stored phf and swiss maps and sets answer exactly like the data they store",
  "For every set of distinct keys and every value assignment, the maps and sets stored with phf and swiss report exactly those entries: get returns the stored value for each stored key and None for every other key, contains agrees with get, and len/is_empty report the number of entries, whether queried through the stored reference or the bound map, for every byte order, and also when other data precedes or follows them in the buffer.",
  ["inputs", "configurations"],
  "all key subsets of a small universe, and key sets of every size up to several hundred, integer and string keys, all byte orders, with different preceding data; every stored key and a set of absent keys are queried",
  "Probe sequences, displacement collisions and group boundaries depend on the particular key set and its size.",
  [Z+"phf/factory.rs", Z+"phf/generator.rs", Z+"phf/hashing.rs", Z+"phf/map.rs", Z+"phf/set.rs", Z+"swiss/factory.rs", Z+"swiss/constructor.rs", Z+"swiss/map.rs", Z+"swiss/set.rs", Z+"swiss/raw/mod.rs", Z+"sip.rs"],
  [("perfect hash generation", Z+"phf/generator.rs"), ("swiss probing", Z+"swiss/constructor.rs, map.rs"), ("hashing", Z+"sip.rs")],
  ["phf::store_map/store_set, swiss::store_map/store_set, MapRef/Map get, contains, len"])

p("P24", "A stored trie is an exact multimap with prefix iteration",
  "After any sequence of insertions, in any order and with repeated keys, a trie built with trie::Builder or trie::store returns for every stored key exactly the values inserted for it in insertion order and no values for any other key; iterating yields every (key, value) pair exactly once, and iterating within a prefix yields exactly the pairs whose key starts with it. Fixed-stack iteration gives the same or reports a stack overflow error.",
  ["histories"],
  "all insertion sequences up to a length over all keys up to a length of a small alphabet, all queries and prefixes over the same universe, both the default and a packed flavor",
  "Splitting and merging nodes depends on the insertion order and on shared prefixes; the tests insert one sorted word list.",
  [Z+"trie/factory.rs", Z+"trie/mod.rs", Z+"trie/walk.rs", Z+"slice/binary_search.rs", Z+"stack/array_stack.rs"],
  [("Builder::insert", Z+"trie/factory.rs"), ("TrieRef::get", Z+"trie/mod.rs"), ("Walk", Z+"trie/walk.rs")],
  ["trie::Builder, trie::store, TrieRef::get / iter / iter_in / values / values_in and *_fixed"])

p("P25", "Corrupted zero-copy archives yield errors, not panics or invalid data",
  "When any bytes of an archive (references, slices, strings, maps, tries and the structures holding them) are altered, loading and querying it through the safe API terminates and yields a valid value or an error: it never panics, reads outside the buffer, or returns data violating its type (such as a non-UTF-8 str).",
  ["inputs", "fault_sequences"],
  "every single-byte substitution over a boundary alphabet and every truncation of a set of archives, all queries on each; all reference offsets and lengths over boundary values",
  "Corruption is a quantifier over every byte of every archive.",
  [Z+"buf/buf.rs", Z+"traits.rs", Z+"pointer/ref.rs", Z+"phf/map.rs", Z+"phf/hashing.rs", Z+"swiss/map.rs", Z+"swiss/raw/mod.rs", Z+"trie/mod.rs", Z+"trie/walk.rs"],
  [("incremental validation", Z+"buf/buf.rs, traits.rs"), ("index checks", Z+"phf/hashing.rs, swiss/map.rs"), ("trie walk", Z+"trie/walk.rs")],
  ["Buf::load of each reference, map get, trie get/iter on corrupted bytes"])

p("P26", "All entry points of an encoding agree",
  "Encoding through to_vec, encode into a writer, to_slice, to_fixed_bytes, to_string or the _with variants gives the same bytes; decoding through from_slice, decode on a slice or on a mutable reference to a slice, from_str or the _with variants gives the same value or fails alike, and decode on a mutable reference advances it by exactly the message. Borrowed results point into the input and equal the owned ones, and a context that has been used before gives the same answers as a fresh one.",
  ["inputs", "configurations", "histories"],
  "all shapes and boundary values in every format, all entry points, valid and malformed inputs, all pairs of consecutive operations on one context",
  "Entry points are thin but separate code paths (for JSON even separate parsers); tests use one of them per format.",
  [M+"macros/mod.rs", M+"storage/encoding.rs", M+"wire/encoding.rs", M+"descriptive/encoding.rs", M+"packed/encoding.rs", M+"json/encoding.rs", M+"json/parser/slice_parser.rs", M+"json/parser/mut_slice_parser.rs", M+"reader.rs"],
  [("Encoding entry points", M+"macros/mod.rs, */encoding.rs"), ("slice and mut slice parsers", M+"json/parser"), ("readers", M+"reader.rs")],
  ["the public functions of each Encoding and format module"])

p("P27", "The bulk fast path for sequences equals element-wise encoding",
  "Sequences and arrays of types with a fixed memory layout may be copied in bulk; this is unobservable: for every element type, container (slice, Vec, VecDeque, array, nested) and option set, the bytes equal those of encoding the elements one by one, bulk-encoded data decodes element-wise and vice versa, bulk decoding rejects what element-wise decoding rejects, and never yields an invalid element.",
  ["inputs", "configurations"],
  "all element types with and without the bulk path (including derived packed structs, NonZero, bool, char, atomics), all lengths up to a bound, all option sets, all byte images of small elements",
  "The fast path triggers only under particular options and types, exactly where the tests' default options do not look.",
  [M+"storage/en.rs", M+"storage/de.rs", M+"options.rs", C+"impls/mod.rs", C+"impls/alloc.rs", C+"impls/alloc.rs", "crates/musli-macros/src/en.rs", "crates/musli-macros/src/de.rs"],
  [("IS_BITWISE_ENCODE / IS_BITWISE_DECODE", C+"impls/mod.rs, crates/musli-macros"), ("encode_slice / decode_slice", M+"storage/en.rs, de.rs"), ("is_native_fixed", M+"options.rs")],
  ["storage and packed Encoding::to_vec / from_slice with fixed options"])

p("P28", "A derived representation has the names and layout its attributes ask for",
  "Deriving Encode and Decode writes a type as documented: a struct is a map from the names of its fields in declaration order, an enum a variant, a map with its tag (internal), a map of tag and content (adjacent) or only its fields (untagged), an enum without any fields its name alone; names are indexes in the Binary mode and identifiers in the Text mode unless name, name_all (converted by words), name(type) or a mode-specific attribute says otherwise; packed, transparent, bytes, with, skip and skip_encoding_if change exactly what they say. Decoding accepts exactly the names and patterns asked for, and puts defaults in place of absent fields only where allowed.",
  ["inputs", "configurations"],
  "all identifiers up to a length over letters of both cases, underscores and digits times all rules; all kinds of types times rules times modes; all names against all patterns; all subsets and orders of present fields",
  "The derive is a compiler: tests look at a few expansions, while users rely on every identifier, attribute combination and mode keeping its name.",
  ["crates/musli-macros/src/internals/name.rs", "crates/musli-macros/src/internals/attr.rs", "crates/musli-macros/src/internals/build.rs", "crates/musli-macros/src/expander.rs", "crates/musli-macros/src/en.rs", "crates/musli-macros/src/de.rs", "crates/musli/help/derives.md"],
  [("NameAll", "crates/musli-macros/src/internals/name.rs"), ("encode_map / encode_enum", "crates/musli-macros/src/en.rs"), ("decode_struct / decode_enum", "crates/musli-macros/src/de.rs")],
  ["#[derive(Encode, Decode)] with the attributes of musli/help/derives.md, through any encoding"])

with open("/verif/properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
