EX = 'exploration'
MC = 'model_checking'
FE = 'fault_enumeration'
CHECKS['P01'] = dict(level=EX, technique='bounded-exhaustive enumeration of shapes x values x options on the real code',
  note='Every shape of the data model up to the depth bound with every boundary value, in every format and every combination of the options (240 sets), roundtripped on the real implementation, alone and in front of a suffix. Exhaustive within those bounds; says nothing about deeper nestings or other values.')
CHECKS['P02'] = dict(level=EX, technique='bounded-exhaustive enumeration of derived types x values x formats on the real code',
  note='About 90 derived types, one per attribute and combination of interest, with every combination of boundary field values in fourteen formats (both modes of each), alone and in front of a suffix; unknown variants with and without a default. Attribute combinations outside the family are not covered.')
CHECKS['P04'] = dict(level=EX, technique='bounded-exhaustive enumeration of shapes x values x partial reads on the real code',
  note='Every shape and boundary value in every skippable format and combination of options is skipped and compared with decoding it, and every container is left after every possible number of elements. Exhaustive within the bounds.')
CHECKS['P06'] = dict(level=FE, technique='exhaustive truncation: every prefix of every enumerated message, decoded on the real code',
  note='Every strict prefix of every message of the shape and derived-type enumerations in 26 format/option sets (leaves and containers: in every combination of options) (a stated subset of positions for messages above 1 KiB). JSON documents ending in a number and optional ends of packed data are excluded because their truncation is legitimate.')
CHECKS['P19'] = dict(level=EX, technique='bounded-exhaustive enumeration of standard types x values x formats on the real code',
  note='Some 150 instantiations of the standard types and of musli::compat with boundary values (all values of the 8 bit ones) in thirteen formats and both modes, borrowed or not, alone, in front of a suffix and nested in a struct, sequence and tuple; every invariant is checked from both sides. Atomics, which have no Encode, are covered by P27.')
CHECKS['P05'] = dict(level=FE, technique='exhaustive short inputs and exhaustive damage to enumerated messages, decoded on the real code between guard pages',
  note='Every short input and every single (and for short messages double) damage to enumerated messages, decoded as some 290 types in up to 26 format/option sets, plus skipping and buffering; memory, panics, overruns, representation invariants and re-encoding are checked on each. Nesting beyond what the inputs hold is not covered.')
CHECKS['P14'] = dict(level=MC, technique='explicit-state breadth-first model checking of the real allocator, restoring memory images; traces replayed from the start',
  note='The states of the real slice allocator (its memory, the buffer and the handles) under every operation, up to the depth and number of live allocations given, for 180 buffers; every history is repeated with all its allocations freed in three orders until a state repeats, which shows that nothing is lost however often. Larger buffers and more live allocations are not covered.')
CHECKS['P15'] = dict(level=EX, technique='exhaustive exploration of operation histories on the real types against std, with every allocation failing in turn',
  note='Every history of operations up to the depth given on two vectors and a box, or two strings, for nine element types, on the system allocator, slices of five sizes, the disabled allocator and two allocators of which every request fails in turn; every element is accounted for. Longer histories are not covered.')
CHECKS['P16'] = dict(level=FE, technique='exhaustive fault injection: every allocation request of enumerated operations fails in turn, on the real code',
  note='Every allocation request made by every enumerated encode and decode operation (derived and standard types, dynamic shapes, tracing and capturing contexts, ten formats) fails alone, and together with all later ones; result, leaks and reuse of the context are checked for each. Two faults apart from each other are not covered.')
CHECKS['P17'] = dict(level=EX, technique='exhaustive enumeration of documents with one bad leaf, of damage to messages, and of operation histories on one context, on the real code',
  note='Every document of 27 nestings of the steps a path can have, each leaf bad in turn in three ways, in five formats: the one error reported, its path and its byte range are compared with what is computed for it. Every damage to derived types: five kinds of context agree. Every history of 14 operations up to the depth on one context. Exhaustive within the bounds.')
CHECKS['P13'] = dict(level=FE, technique='exhaustive fault injection: every way an io::Write can fail or accept less, and every destination size, for enumerated values on the real code',
  note='Every enumerated value and format into every kind of destination, of every size around what is needed; io::Write stand-ins fail, return zero, are interrupted or accept less at every call. The destination between guard pages. Values beyond the enumeration are not covered.')
CHECKS['P26'] = dict(level=EX, technique='bounded-exhaustive enumeration of values, damaged messages and entry points on the real code, all compared with each other',
  note='Every entry point of every format on every enumerated value, every truncation and single damage of the messages and every short input; results, errors, advances and reported positions agree. Exhaustive within the bounds.')
CHECKS['P10'] = dict(level=EX, technique='bounded-exhaustive enumeration of characters and of JSON string literals, decoded on the real code and by a reference reader',
  note='Every Unicode scalar value, every \\u escape and pair around the surrogates, every sequence of tokens and bytes up to the length given, at every alignment, compared with an independent reader of RFC 8259. Longer literals with more than a few interesting places are not covered.')
CHECKS['P11'] = dict(level=EX, technique='bounded-exhaustive enumeration of JSON number texts and of values, decoded on the real code and by exact decimal arithmetic',
  note='Every text over the alphabet of numbers up to the length given, boundary mantissas x fractions x exponents for every integer type, every (thorough: all 2^32) f32 and boundary f64, compared with exact arithmetic and std parsing. Longer texts only around boundaries.')
CHECKS['P03'] = dict(level=EX, technique='bounded-exhaustive enumeration of rearranged, reduced and extended messages on the real code',
  note='For some thirty derived types: every permutation of the fields, every subset left out, unknown fields of every kind of content at every place, values from any evolution of the type; decoded in every format that promises it and compared with what is written. Exhaustive within the family and bounds.')
CHECKS['P07'] = dict(level=EX, technique='exhaustive enumeration of integers and encodings, compared with an independent reference implementation of the formats',
  note='Every 8 and 16 bit integer and boundary integers of every width in every option set (all 240 combinations): the bytes are compared with a reference encoder written from the documentation, every short varint is decoded and compared, and every byte sequence up to a bound. Exhaustive within the bounds.')
CHECKS['P08'] = dict(level=EX, technique='bounded-exhaustive enumeration of pairs of number types x values x places x formats on the real code',
  note='Every ordered pair of the integer types with every boundary value (all of the 8 bit ones, thorough: 16 bit) in nine places of a message in every self-descriptive format and through a buffered value, and floats to and from everything; compared with exact arithmetic.')
CHECKS['P09'] = dict(level=EX, technique='bounded-exhaustive enumeration of shapes, types and values, comparing a buffered value with what it was decoded from on the real code',
  note='Every enumerated shape and derived type decoded directly and through a Value, from every self-descriptive format, and values encoded and decoded without a format, are compared. Recursive types and a known finding of P02 are left out.')
CHECKS['P12'] = dict(level=EX, technique='bounded-exhaustive enumeration of JSON documents and all their single edits, decoded on the real code and by a reference reader',
  note='Every sequence of tokens up to a length, enumerated documents with all whitespace placements, numbers and strings for keys, and every edit of one or two tokens or bytes of them, decoded typed, skipped and as any, and compared with an independent reader of RFC 8259. Documented leniency is accepted and listed in DESIGN.md.')
CHECKS['P27'] = dict(level=EX, technique='bounded-exhaustive enumeration of element types x containers x options x byte images on the real code, compared with handling numbers one by one',
  note='Ninety element types (with and without the bulk path) in slices, vectors, deques split at every place, arrays, nested, referenced and wrapped so that no bulk path applies, in up to 22 option sets; every truncation and every value of every byte of small messages; lengths around what is copied at once. Two known findings concern arrays and units.')
CHECKS['P21'] = dict(level=FE, technique='exhaustive substitution of bytes, offsets and lengths in buffers holding enumerated types, loaded on the real code between guard pages',
  note='Some two hundred types (primitives, derived structs with every repr, packed and ignored fields, enums of every repr and discriminant form, generics) with boundary values: every value of every byte, every offset and every length around a value, and unsized values, compared with an independent description of their layout. Two bytes damaged at once only where they belong to one field.')
CHECKS['P22'] = dict(level=EX, technique='bounded-exhaustive enumeration of byte orders x offset sizes x types x operations on the real code, compared with the bytes the documentation prescribes',
  note='Every byte order and size of offsets with every kind of reference and slice, boundary offsets and lengths, conversions between all orders, coercions, packed slices, and buffers, maps and tries built with each of them. Exhaustive within the bounds; native endianness is that of this machine only.')
CHECKS['P23'] = dict(level=EX, technique='bounded-exhaustive enumeration of sets of keys, stored and queried on the real code, compared with a model',
  note='Every subset of pools of keys up to a size, sequential sets of every length up to a bound, crafted collisions, every kind of key and value, byte order and size of offsets; every key of the pool and keys outside of it are queried in every way. Sets with equal keys are not covered (phf does not support them).')
CHECKS['P24'] = dict(level=EX, technique='exhaustive exploration of insertion histories on the real trie, compared with a model multimap',
  note='Every sequence of insertions of keys over small alphabets up to the length given, in every order, with strings and bytes, byte orders, sizes of offsets and flavours; every lookup and every iteration of every prefix is compared with a model. Longer keys and histories only by family.')
CHECKS['P20'] = dict(level=EX, technique='exhaustive exploration of operation histories on the real buffers, compared with a model, under an allocator that always moves and only aligns as asked',
  note='Every history of operations (storing values of every alignment and size, unsized values and slices, reserving, requesting alignments, aligning, clearing, cloning) up to the depth given on owned and borrowed buffers of every initial size and alignment, with every byte order and size of offsets; content, alignment, length, capacity and memory are compared with a model at every step.')
CHECKS['P25'] = dict(level=FE, technique='exhaustive corruption of enumerated archives (every byte, truncation, displacement, redirection and duplication), queried on the real code between guard pages',
  note='Archives of values, references, slices, packed slices, both kinds of hash table and tries: intact, cut off at every place, moved, every byte to every value, every word to boundary values and every pair of words of small archives; everything that can be asked is asked. split_at documents panics out of bounds and is not asked.')
CHECKS['P18'] = dict(level=EX, technique='bounded-exhaustive enumeration of shapes of the serde data model x values x ways to use serde\'s traits x formats on the real code',
  note='Every shape of the serde data model up to the depth bound (leaves, containers, all four enum variant kinds, recursion, embedding, self-described values, borrowed data, added and reordered fields) with boundary values, through the bridge in every format, with and without lengths known, plus damage and errors raised by the type; types deriving both serde and Musli interoperate in JSON and decode each other. serde(flatten) and formats without options for packed data are outside.')
CHECKS['P28'] = dict(level=EX, technique='bounded-exhaustive enumeration of identifiers x rules, kinds of types x attributes x modes, names x patterns and present fields, on the real derives, compared with an independent description of what is asked for',
  note='Every identifier of up to four characters out of a lower and an uppercase letter, an underscore and a digit (and some in other scripts) under every rule, as a variant and as a field; every kind of struct and enum under every rule in one or both modes; seventy more types with every attribute; every name up to a bound against patterns, every subset and order of fields with defaults. The reference writes the same value by hand through the Encoder trait. Errors at compile time and bounds on generics are outside.')
