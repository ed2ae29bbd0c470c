#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

ST="compiler/src/compiler/structure.rs"; GB="compiler/src/gen/base/structure.rs"; FT="compiler/src/gen/rust/structure.field.template"
RT="runtime/src/"
p("C01","Struct fields are read from exactly their declared bits",
 "A struct's fields occupy consecutive bits of its buffer in declaration order, each exactly its declared width (nested structs included), and the struct's declared size is that total rounded up to whole bytes. For any buffer content, reading any field (raw or plain unsigned accessor) yields exactly the value of those bits: numbered from each byte's least significant bit upwards in a little-endian protocol, from the most significant bit downwards in a big-endian one. Bits outside the field never influence the value read.",
 ["inputs","programs"],"every accepted struct definition (any widths 1..64, any in-byte alignment, any nesting, either byte order) and every buffer content",
 "The tests read back a handful of constants from about ten hand-written structs, whose fields mostly sit on byte boundaries; they cannot cover all widths, offsets, byte orders and buffer contents.",
 [ST,GB,FT,RT+"codec/bits.rs",RT+"codec/bytes.rs"],
 [("bit offset accumulation and byte window of each field",ST),("choice of bit/byte codec, aligned/unaligned variant",GB),("shift and mask in the codecs",RT+"codec/bits.rs")],
 ["generated get_*/get_raw_* accessors","generated SIZE_* constants and FixedSize::SIZE","codec BitCodec/ByteCodec read"],
 [("Location","byte window, in-byte bit offset and width of a field",ST)])
p("C02","Writing a struct field changes that field's bits and nothing else",
 "After writing any value to a struct field (through its raw or its typed setter, at any nesting depth, in either byte order), reading the field back yields that value (raw values truncated to the field's width). Every bit of the buffer outside the field, including neighbouring fields sharing a byte, padding bits and bytes beyond the struct, keeps its previous value. So the final content of a struct depends only on the last write to each field, in any order of writes.",
 ["inputs","programs","histories"],"every accepted struct definition, every initial buffer content and every sequence of field writes",
 "The tests write fields of mostly zeroed stack buffers once, in declaration order; isolation must hold for every neighbour content, width, offset and write order.",
 [FT,GB,RT+"codec/bits.rs",RT+"codec/bytes.rs"],
 [("read-modify-write with reset mask",RT+"codec/bits.rs"),("padding copy in unaligned writes",RT+"codec/bytes.rs")],
 ["generated set_*/set_raw_*/get_*_mut accessors, whole buffer compared"],[])
p("C03","The protocol's declared byte order governs every multi-byte value",
 "In a protocol declared big-endian every multi-byte quantity on the wire is most-significant-byte first: struct fields, array items in structs, scalar message fields and the length prefixes of strings and lists. In a protocol declared little-endian, or with no declared order, all of them are least-significant-byte first. A protocol's order also holds for its types when they are used from a protocol of the other order.",
 ["inputs","programs","configurations"],"every accepted protocol, declared order (big, little, none) and value",
 "The only big-endian protocol in the tests is checked by writing and reading back through the same code, which cannot notice the byte order on the wire.",
 ["compiler/src/compiler/protocol.rs","compiler/src/compiler/message.rs",ST,RT+"codec/bits.rs",RT+"codec/bytes.rs",RT+"message/util/common.rs","compiler/src/gen/rust/util.rs"],
 [("endianness copied from the model into every field","compiler/src/compiler/protocol.rs"),("codec/value type selection","compiler/src/gen/rust/util.rs")],
 ["raw bytes of struct buffers and of encoded messages"],[])
p("C04","Typed integer, boolean and float accessors convert exactly",
 "A signed field of n bits (1..64) reads as the two's-complement value of its bits and accepts every value of -2^(n-1)..2^(n-1)-1, which then reads back unchanged. A boolean field of any width reads true exactly when any of its bits is set, writes 1 for true and 0 for false, and a 32- or 64-bit float field without a view is carried bit-exactly (NaN payloads, infinities and negative zero included).",
 ["inputs","programs"],"every width and position of a signed, boolean or native float field and every bit pattern",
 "The tests try a few constants on 4-, 8-, 16-, 17- and 32-bit signed fields.",
 [FT,ST],
 [("sign-extension arithmetic of the signed view",FT),("threshold derived from the width",ST)],
 ["generated get_*/set_* of signed, boolean and float fields"],[])
p("C05","Float views map the integer range to the declared range within one step",
 "A float-range field of n bits (n up to 32) maps raw 0 to min and raw 2^n-1 to max, linearly in between; a multiplier field reads as raw times the multiplier. Writing any value in the representable range and reading it back gives a value that differs by at most one quantization step (plus floating-point rounding), and writing never touches other fields.",
 ["inputs","programs"],"every width, min<max, multiplier>0 and every value in range",
 "One float-range view with min 0 and one multiplier view are tested on single values.",
 [ST,GB,FT],
 [("coefficients a, b, a_inv, b_inv of the affine map",ST),("getter and setter formulas",FT)],
 ["generated get_*/set_* of viewed float fields"],[("a/b/a_inv/b_inv","affine coefficients baked into the generated accessor",ST)])
p("C06","Enum views yield a variant exactly for declared values",
 "Reading an enum-viewed field yields the variant whose declared value equals the field's raw value, and nothing (no variant) for every other raw value, whatever the gaps between declared values and whatever the width of the field. Writing a variant that fits the field stores its declared value and reads back as the same variant.",
 ["inputs","programs"],"every enum (dense, sparse, single-variant, large values), field width able to hold it and raw value",
 "The tests use one dense enum and three raw values; a sparse enum or a wide field is never tried.",
 [FT,GB,"compiler/src/compiler/enum.rs"],
 [("range check before constructing the variant",FT),("largest variant computation","compiler/src/compiler/enum.rs")],
 ["generated get_*/set_*/set_raw_* of enum-viewed fields"],[])
p("C07","Fixed-size arrays inside structs behave as N independent items",
 "An array field of N items of w bits (w a multiple of 8) has length N, its item i occupies the i-th group of w bits of the field in the protocol's byte order, and random access, iteration and (for byte arrays) the whole-slice view agree with each other. Writing item i changes only item i; an index of N or more is refused (panic) and never reads or writes anything outside the array.",
 ["inputs","programs"],"every item type and width, array length, index and buffer content",
 "One struct with three arrays is written at fixed indices with equal values, which cannot reveal misplaced items.",
 [RT+"codec/arrays.rs",GB,ST],
 [("index to byte window arithmetic",RT+"codec/arrays.rs"),("item width passed to the codec",GB)],
 ["generated array accessors (ArrayCodec get_raw/set_raw/iter_raw/len/as_ref/as_mut)"],[])
p("C08","Messages survive a write/read round trip",
 "For every message type whose payload or list of messages (if any) is its last field, and every value the type can represent, writing succeeds and reading the bytes back yields a value equal in every field. The number of bytes reported by the reader, the number reported by the size helper and the number of bytes written are all equal, and writing the value that was read reproduces the same bytes.",
 ["inputs","programs"],"every accepted message definition of that shape and every representable value (absent/present optionals, empty and maximal strings, lists and payloads, every union case)",
 "About ten fixed messages are round-tripped; sizes, optional/union/list combinations, nesting and boundary lengths are unbounded.",
 ["compiler/src/gen/base/message_from_slice.rs","compiler/src/gen/base/message_write.rs","compiler/src/gen/rust/message.from_slice.template","compiler/src/gen/rust/message.write.template",RT+"message/util/size.rs",RT+"message/util/common.rs",RT+"message/util/string.rs"],
 [("per-field read/advance sequence","compiler/src/gen/rust/message.from_slice.template"),("per-field write sequence","compiler/src/gen/rust/message.write.template"),("counting writer",RT+"message/util/size.rs")],
 ["generated WriteTo::write_to, FromSlice::from_slice, Message::size, util::size_of"],[])
p("C09","Messages have the wire format their schema defines",
 "The bytes of a message are the concatenation of its fields in declaration order with nothing in between: an optional field is one byte 0, or one byte 1 followed by the value; an unbounded string is its UTF-8 bytes and a NUL; a bounded string or list is a length prefix followed by the bytes or items. The prefix is the smallest of 1, 2, 4 or 8 bytes that can hold the declared maximum; structs are their exact buffer bytes, a struct that is one plain 8/16/32/64-bit number is that number, payloads are raw bytes to the end, and a union is just its selected case. Conversely, bytes of that form decode to exactly those values (any non-zero optional marker meaning present).",
 ["inputs","programs"],"every accepted message definition and value",
 "Tests only compare values that went through both the writer and the reader, so a symmetric change of the wire format is invisible to them.",
 ["compiler/src/compiler/message.rs",ST,RT+"message/util/common.rs",RT+"message/util/string.rs",RT+"message/util/list_base.rs","compiler/src/gen/rust/message.write.template"],
 [("prefix width from the declared maximum",ST),("optional marker",RT+"message/util/common.rs")],
 ["bytes emitted by WriteTo; values decoded from independently built bytes"],[])
p("C10","Decoding arbitrary bytes never panics, never over-reads, never guesses",
 "For every message type (whose list items are not empty structures or messages) and every input byte sequence, decoding (with or without offsets, including iterating the lists of the result and reading every field) ends with a value or an error: no panic, no arithmetic overflow, no unbounded iteration, also for huge or contradictory length prefixes. A reported size never exceeds the input length. An input is accepted exactly when it starts with a well-formed encoding, and then the decoded value is the one that encoding denotes.",
 ["inputs","programs"],"every accepted message definition and every byte sequence",
 "No test feeds the decoder anything but bytes the encoder just produced.",
 [RT+"message/util/string.rs",RT+"message/util/array.rs",RT+"message/util/list.rs",RT+"message/util/common.rs","compiler/src/gen/rust/message.from_slice.template","compiler/src/gen/rust/union.template"],
 [("bounds checks before slicing",RT+"message/util"),("error propagation in generated readers","compiler/src/gen/rust/message.from_slice.template")],
 ["FromSlice::from_slice, FromSliceWithOffsets, list iterators, catch_unwind around them"],[])
p("C11","Truncated and corrupted messages are reported as what they are",
 "Decoding any strict prefix of a valid message that has no payload tail reports a truncated input, either at once or when its list of messages is iterated. A string that is not valid UTF-8 is reported as such, and a discriminant that selects no declared case is reported as an invalid discriminant carrying that value. Bytes following a self-delimiting message neither change its value nor its reported size.",
 ["inputs","programs","fault_sequences"],"every message definition, every valid message, every cut point, corrupted string position, undeclared discriminant and trailing bytes",
 "No test truncates or corrupts a message.",
 [RT+"message/util/string.rs",RT+"message/util/array.rs",RT+"message/util/list.rs",RT+"message/util/common.rs","compiler/src/gen/rust/union.template","compiler/src/gen/rust/structure.template"],
 [("Truncated checks",RT+"message/util"),("UTF-8 validation",RT+"message/util/string.rs"),("default match arm of the union reader","compiler/src/gen/rust/union.template")],
 ["error value returned by from_slice and by list iteration"],[])
p("C12","Field offsets tile the message exactly",
 "Decoding with offsets accepts and rejects the same inputs as plain decoding and yields the same value and size. The reported field ranges start at 0, are contiguous in declaration order and end at the reported size, and each field's range holds exactly that field's encoding. The offsets of a nested message are relative to that message's first byte, exist exactly when the nested message is present, and list iteration with offsets yields the same items as plain iteration.",
 ["inputs","programs"],"every accepted message definition and every input byte sequence",
 "One message is checked at one value.",
 ["compiler/src/gen/rust/message.offsets.template","compiler/src/gen/rust/message_offsets.rs",RT+"message/util/common.rs",RT+"message/util/list.rs"],
 [("start/end bookkeeping","compiler/src/gen/rust/message.offsets.template"),("Optional offsets",RT+"message/util/common.rs")],
 ["FromSliceWithOffsets::from_slice_with_offsets, List::iter_offsets"],[])
p("C13","A union's case is decided by its discriminant, on read and on write",
 "Reading a union yields the case declared for the discriminant's value (through nested discriminant paths, enum names, unsigned, negative and boolean cases alike), with exactly that case's content; an undeclared value is an error. Setting the discriminant from a union value and then writing and reading yields the same case, and sets only the discriminant field's bits. Writing a union whose case does not match the discriminant, including cases without content, is refused with an invalid-discriminant error and is never emitted.",
 ["inputs","programs"],"every accepted union definition, every case/discriminant pairing and every discriminant buffer",
 "The tests pair each case of one enum-discriminated union with its own discriminant; mismatches, nested paths and signed discriminants are never executed.",
 ["compiler/src/gen/rust/union.rs","compiler/src/gen/rust/union.template","compiler/src/compiler/union.rs"],
 [("case value resolution","compiler/src/compiler/union.rs"),("discriminant check on write","compiler/src/gen/rust/union.template"),("discriminant path","compiler/src/gen/rust/union.rs")],
 ["generated union from_slice/write_to/set_discriminant/as_*/is_*, observed through messages"],[])
p("C14","Message lists hold exactly the items written, in order",
 "A list built by appending items one by one or in batches reports the number of items appended, and after writing and reading the enclosing message it yields exactly those items in order and then ends. This holds for lists nested inside list items at any depth, and an item that cannot be written is refused and leaves the list as it was. Iterating a list whose bytes are truncated or corrupt yields the intact leading items and then an error, and ends within as many steps as the list has items.",
 ["inputs","programs","histories"],"every list item type, item count (0 up to the prefix limit), nesting depth and append history",
 "Two- and three-item lists are tested once; nested lists inside list items and corrupt lists are not.",
 [RT+"message/util/list.rs",RT+"message/util/list_base.rs","compiler/src/compiler/message.rs","compiler/src/gen/base/message_from_slice.rs"],
 [("length counter and data buffer kept in step",RT+"message/util/list_base.rs"),("iterator remaining count",RT+"message/util/list.rs"),("embedded flag selecting the self-delimiting list reader","compiler/src/compiler/message.rs")],
 ["generated list types: write_item/write_items/len/iter/iter_offsets"],
 [("embedded","message is used inside a list, so its own lists must delimit themselves","compiler/src/compiler/message.rs")])
p("C15","Struct arrays in messages expose the same items through every access path",
 "An array of (non-empty) structs over a byte buffer is accepted exactly when the buffer length equals the item count times the item size. Random access, iteration, mutable access and mutable iteration all address the same items: item i is the i-th consecutive struct-sized piece, there are exactly as many as the reported length, and a mutation through one path is seen by all others and changes no other item. Appending struct items one by one produces the same bytes as filling a buffer in place, and an out-of-range index panics instead of touching other data.",
 ["inputs","programs","histories"],"every item struct, count, index, buffer content and sequence of accesses",
 "Arrays of four items of one struct are tested.",
 [RT+"message/util/array.rs",RT+"message/util/list_base.rs",RT+"message/macros.rs"],
 [("index arithmetic",RT+"message/util/array.rs"),("length check in from_parts",RT+"message/util/array.rs")],
 ["generated array wrappers: from_parts/get/get_mut/iter/iter_mut/write_item/write_items/to_ref/len, decoded arrays"],[])
p("C16","Output errors are reported and never corrupt what was written before",
 "If the output fails at any byte while a message is being written, the write returns that I/O error and what reached the output is a prefix of the message's encoding. If the output accepts data in arbitrarily small pieces or is interrupted, the bytes written are identical to those written in one go. A write that reports success has delivered the whole encoding.",
 ["fault_sequences","inputs","programs"],"every message type and value, every failure position and every short-write/interruption schedule",
 "All tests write into a growable in-memory vector, which never fails or writes short.",
 ["compiler/src/gen/rust/message.write.template",RT+"message/util/string.rs",RT+"message/util/list_base.rs",RT+"message/util/common.rs","compiler/src/gen/rust/structure.template","compiler/src/gen/rust/union.template"],
 [("write_all with error propagation at every step",RT+"message/util")],
 ["fault-injecting std::io::Write under WriteTo::write_to"],[])
p("C17","Values a message cannot represent are refused, not mangled",
 "Whenever writing a message reports success, reading the bytes back yields the value that was written. In particular a string or list longer than its length prefix can express and an unbounded string containing a NUL character make the write fail with an error.",
 ["inputs","programs"],"every message type and every value constructible through the API, representable or not",
 "No test writes an over-long string or list or a string with an embedded NUL.",
 [RT+"message/util/string.rs",RT+"message/util/list_base.rs"],
 [("conversion of a length into its prefix type",RT+"message/util/string.rs")],
 ["result of WriteTo::write_to and the bytes emitted"],[])
p("C18","No safe use of the library or generated code has undefined behaviour",
 "Whatever the bytes in the buffers and whatever the order of safe calls (field reads and writes, message decoding and encoding, list and array access), the runtime and the generated code never execute undefined behaviour: no invalid enum or boolean values, no out-of-bounds or misaligned access, no aliasing violation, no uninitialised read. The generated code offers a safe API, so this must not depend on the input being well-formed.",
 ["inputs","programs","histories"],"every accepted schema, every buffer content and every sequence of safe calls",
 "Plain test runs cannot see undefined behaviour, and the tests never read an undeclared enum value below the largest one.",
 [FT,"compiler/src/gen/rust/structure.template",RT+"codec/bits.rs",RT+"codec/bytes.rs",RT+"message/util/list.rs",RT+"message/util/array.rs"],
 [("checks in front of transmute",FT),("unsafe codec calls on bounds-checked slices",FT)],
 ["Miri and AddressSanitizer runs of the generated code under the workloads of the other properties"],[])
p("C19","The compiler answers every schema text with a result, never a crash",
 "For every file content (any bytes, any JSON5 text, any field values) loading, importing, compiling and generating ends with generated code or an error value; it never panics, overflows or loops. Unreadable files, invalid text and missing or mistyped members are reported as I/O or model errors, and schema mistakes as compiler errors.",
 ["inputs","configurations"],"every file content and every combination of loaded and imported protocols",
 "All test schemas are valid; no test loads a malformed one.",
 ["compiler/src/interface.rs",ST,"compiler/src/compiler/union.rs","compiler/src/compiler/message.rs","compiler/src/compiler/enum.rs","compiler/src/gen/template.rs"],
 [("validation before arithmetic on widths",ST),("discriminant path resolution","compiler/src/compiler/union.rs")],
 ["Loader::load/import/compile, Protoc::generate under catch_unwind"],[])
p("C20","Ill-formed schemas are rejected with an error naming the mistake",
 "A schema is rejected, with the error kind that describes the mistake, whenever it refers to an undefined type, enum, field, protocol or import; puts a second payload-like or other variable-sized field after a payload-like field; uses a width outside 1..64, a float without a view at a width other than 32 or 64, or a view on a type it does not apply to; has an enum without variants; or lays out an array or nested struct that is not on byte boundaries. The same holds for a union with an unknown case, a float discriminant, a discriminant path that does not end at a scalar field, or one attached to a field of another type. Nothing is generated for a rejected schema.",
 ["inputs","programs"],"every schema containing at least one of these mistakes, at any position, in an otherwise arbitrary schema",
 "No test loads an ill-formed schema.",
 ["compiler/src/compiler/message.rs",ST,"compiler/src/compiler/union.rs","compiler/src/compiler/enum.rs","compiler/src/compiler/protocol.rs","compiler/src/compiler/error.rs"],
 [("validation in from_model constructors","compiler/src/compiler")],
 ["error returned by Loader::compile"],[])
p("C21","Every well-formed schema is accepted and its generated code compiles",
 "A schema whose names are distinct legal identifiers, whose references resolve, whose widths, alignments and views are valid and whose payload-like fields come last is accepted, for every combination of field kinds, optional flags, byte order, imports and nesting. The Rust code generated for it compiles against the runtime library and offers the accessors, readers and writers for every declared field.",
 ["programs","configurations"],"every well-formed schema",
 "Only the features used by the twelve test schemas are ever compiled.",
 ["compiler/src/gen/rust","compiler/src/gen/base","compiler/src/compiler",RT+"message"],
 [("templates and type expressions","compiler/src/gen/rust/util.rs"),("generic parameters of messages and unions","compiler/src/gen/rust/util.rs")],
 ["Loader::compile result; rustc run on the generated umbrella"],[])
p("C22","Code generation is a deterministic function of the schemas",
 "Compiling the same schemas with the same options produces byte-identical files and the same list of protocol names and entry files, on every run, in every process, and regardless of what an earlier generation left in the output directory or of which other protocols are generated alongside. Variants are emitted in value order, and all other declarations in schema order.",
 ["inputs","histories","configurations"],"every accepted schema set, repeated runs, pre-populated output directories",
 "Each schema is generated once per build into whatever directory cargo provides.",
 ["compiler/src/interface.rs","compiler/src/gen","compiler/src/compiler/enum.rs"],
 [("sorting of enum variants","compiler/src/compiler/enum.rs"),("ordered vectors next to the lookup maps","compiler/src/compiler/protocol.rs")],
 ["files written by Protoc::generate"],[])
p("C23","Imported types mean the same as in their own protocol",
 "A type imported from another protocol (struct, enum, union or message) is referenced by the exact path under which that protocol was imported, and nothing is generated for it again. It has the same layout, wire format and meaning as in its own protocol, so data written through the importing protocol is readable through the defining one and vice versa; chains of imports behave alike. A name that was not imported is not visible, and locally declared types are never redirected by an import of a different name.",
 ["programs","configurations"],"every set of protocols importing from each other, every import path and every kind of imported type",
 "One import chain over enums, structs, one union and one message is compiled, with one base path per protocol.",
 ["compiler/src/compiler/protocol.rs","compiler/src/compiler/util.rs","compiler/src/util.rs","compiler/src/gen/rust"],
 [("type path map","compiler/src/compiler/util.rs"),("import lookup order","compiler/src/compiler/protocol.rs")],
 ["generated code compiled next to its imports and exercised across protocols; Loader::compile result"],[])
p("C24","Output options select exactly the requested parts",
 "Generation writes exactly one file per selected, non-empty part (messages, message readers, message writers, structures, enums, unions) under a directory named after the protocol, plus an entry file that declares one module named after the protocol and includes exactly the files written by this run. Disabling a part removes its file from the entry and changes no other file; nothing is written outside that directory. Reader and writer code is produced only when asked for, the build-script helper announces each generated protocol's entry file exactly once, and a file that cannot be written makes the generation fail. The same selection, and files in sub-folders, work for any generator, also when generating again.",
 ["configurations","programs","histories"],"every combination of the six switches, every schema, and repeated generation into one directory",
 "All tests use one combination of the switches.",
 ["compiler/src/interface.rs","compiler/src/gen/mod.rs","compiler/src/gen/rust/mod.rs","compiler/src/build_script.rs"],
 [("file filter by type","compiler/src/interface.rs"),("umbrella generation","compiler/src/gen/rust/mod.rs")],
 ["directory contents after Protoc::generate; stdout of generate_rust"],[])
p("C25","Templates render by exact substitution",
 "Rendering fragments of a template yields their lines in order, each terminated by a newline, with every variable replaced by its current value (passed through its case function if it has one), doubled braces turned into single ones, and everything else unchanged; nested fragments are addressed by their dotted path and contribute nothing to the enclosing one. A value is inserted verbatim, never re-interpreted, and a scope's variables never leak into the template or other scopes. Unknown fragments, variables and functions, stray pops, text outside fragments and invalid UTF-8 are reported as errors.",
 ["inputs","histories"],"every template text, variable assignment and render/scope sequence",
 "One fragment of one built-in template is rendered once.",
 ["compiler/src/gen/template.rs"],
 [("tokenizer","compiler/src/gen/template.rs"),("scoped variable maps","compiler/src/gen/template.rs")],
 ["gen::template::Template/Scope public API"],[])
p("C26","The Swift runtime and generator follow the same wire format as Rust",
 "For the same schema and value, the Swift runtime and generated Swift code read and write the same bytes as the Rust ones.",
 ["inputs","programs"],"every schema and value",
 "The Swift tests run only under Xcode and cover single constants.",
 ["Swift/BP3DProto","compiler/src/gen/swift"],
 [("Swift codecs","Swift/BP3DProto/codec"),("Swift generator (not exported)","compiler/src/gen/swift/mod.rs")],[],[])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
