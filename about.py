"""What each check does, in words: used for the evidence and for MANIFEST.json."""

WORLDS = "Schemas are generated from VERIF_SEED (families bits, srand, sview, sarr, mbasic, mlist, munion, mimport, mrand), compiled by the code under test, and the generated Rust is compiled with a driver; "

# property: (technique, level note, rule)
ABOUT = {
    "C01": ("runtime monitor over generated structs: bit-level reference decoder as oracle, debug and release builds",
            "every width 1..64 at every bit offset in both byte orders, plus random structs and nesting; buffers are random, one-hot and one-cold",
            WORLDS + "each field of each struct is read from hostile and random buffers and compared with the bits an independent reference extracts. Distinct: field type, width, offset in the byte, byte order and nesting depth."),
    "C02": ("runtime monitor over write histories: shadow bit buffer as oracle, guard bytes around the buffer",
            "every width at every offset in both orders; random histories of raw and typed writes at every nesting depth",
            WORLDS + "sequences of field writes run against a shadow buffer; after each the whole buffer, guard bytes included, is compared. Distinct: width, offset, byte order and depth of the field written."),
    "C03": ("runtime monitor: wire bytes compared with an independent encoder per byte order",
            "struct fields, array items, scalars, prefixes, and types used across protocols of different order",
            WORLDS + "multi-byte fields, items, scalars and prefixes are written and the bytes compared with a reference encoder; types of one order are used in protocols of the other. Distinct: kind of value, width, offset and the two orders involved."),
    "C04": ("runtime monitor: exact integer, boolean and float conversion against wide reference arithmetic",
            "exhaustive for narrow fields, boundary and random values for wide ones",
            WORLDS + "each typed accessor is compared with two's-complement, boolean and bit-exact float references. Distinct: width, offset, byte order and type."),
    "C05": ("runtime monitor: float views against reference arithmetic with an error bound derived per field",
            "exhaustive raw values for narrow fields, endpoints and random values for wide ones; views whose step is below the precision of f32 are excluded where counted",
            WORLDS + "view reads and writes are compared with exact linear maps; neighbouring fields are watched. Distinct: width, offset, byte order and view bounds."),
    "C06": ("runtime monitor: enum views against the declared variant table",
            "every raw value of fields up to 9 (thorough 12) bits, declared values, neighbours and random values of wider ones",
            WORLDS + "raw values are put in enum-viewed fields and the variant read compared with the table; variants are written and read back. Distinct: width, offset, byte order and enum."),
    "C07": ("runtime monitor: shadow array per field, guard bytes, panic monitor for out-of-range indices, debug and release builds",
            "all item widths and types; indices at, just beyond and far beyond the end, and those that wrap",
            WORLDS + "items are read and written through every access path against a shadow array. Distinct: width, length, offset, byte order and item type."),
    "C08": ("runtime monitor: write/read/write round trips over generated values",
            "random and boundary values of every field kind; lists, nested and optional content",
            WORLDS + "values are written, read back and compared field by field, with the three sizes and the bytes of a second write. Distinct: encodings."),
    "C09": ("runtime monitor: independent reference encoder and decoder as oracle",
            "random values and lengths around every prefix boundary",
            WORLDS + "bytes written are compared with a reference encoding and reference encodings (with any presence marker) are decoded. Distinct: encodings."),
    "C10": ("runtime monitor with reference decoder, panic monitor and step bound over hostile inputs, debug (overflow checks) and release builds",
            "random bytes, mutated valid messages, contradictory and huge lengths",
            WORLDS + "hostile inputs are decoded plainly and with offsets, lists iterated and every field read; verdict, value and size are compared with a reference decoder. Distinct: message type, verdict and the way the input was made, over inputs seen."),
    "C11": ("runtime monitor: fault injection into valid messages (truncation at every byte, bad UTF-8, undeclared discriminants, trailing bytes)",
            "every prefix of each message",
            WORLDS + "every strict prefix of a message is decoded, strings and discriminants are damaged one at a time, bytes appended. Distinct: encodings and damaged sites."),
    "C12": ("runtime monitor: trace of field offsets checked against the reference layout",
            "valid and hostile inputs; nested and optional messages; list iteration with offsets",
            WORLDS + "decoding with offsets is compared with plain decoding, ranges must tile the message and match the reference layout. Distinct: encodings, message types and verdicts."),
    "C13": ("runtime monitor: reference case selection on every discriminant value, write refusal monitor",
            "every discriminant value of fields up to 12 bits, declared values and neighbours of wider ones; all cases against all discriminants",
            WORLDS + "unions are read under each discriminant, discriminants are set from values, and every mismatch must be refused with nothing emitted. Distinct: union, case and role."),
    "C14": ("runtime monitor: conservation and order of list items against the appended history, damaged lists included, debug and release builds",
            "lists of structs and messages nested in each other; truncation and corruption inside items",
            WORLDS + "lists are built item by item and in batches and read back; damaged lists must give the intact leading items, an error and an end. Distinct: encodings and list sites."),
    "C15": ("runtime monitor: four access paths against one shadow sequence, debug and release builds",
            "every item count and buffer length near the exact one",
            WORLDS + "struct arrays over byte buffers are accessed by index, iteration, mutable access and mutable iteration. Distinct: array type, count and item size."),
    "C16": ("runtime monitor with injected output faults at every byte offset, short writes and interruptions",
            "every error position of each message up to the budget",
            WORLDS + "messages are written to outputs that fail, fill up, accept little or are interrupted; error and bytes are compared with the encoding. Distinct: message type and fault position."),
    "C17": ("runtime monitor: refusal oracle for values that cannot be represented",
            "lengths around every prefix maximum, NUL at every kind of position",
            WORLDS + "strings, lists and arrays that do not fit, and NULs, are written; success obliges the bytes to read back equal. Distinct: sites and lengths."),
    "C18": ("Miri (undefined-behaviour interpreter) and AddressSanitizer over the runtime and generated code",
            "hostile buffers of exact size, every accessor, decoder, encoder and array path; only paths that ran are judged, and Miri runs few rounds per schema",
            WORLDS + "drivers call every safe entry point on random, hostile and too small buffers under Miri and under ASan with debug assertions. Distinct: fields (offset, width, order, depth), message types and input kinds."),
    "C19": ("crash and hang monitor over generated, mutated and hostile schema files, in child processes with memory and time limits",
            "noise, odd values of every member, corrupted and truncated schemas, deep nesting, large counts, unreadable files",
            "Schema files are made from VERIF_SEED and given to load, import, compile and generate; a panic, abort, stack overflow, or a run alone of more than 60 s is a violation, as is the wrong kind of error for unreadable or mistyped input. Distinct: file contents."),
    "C20": ("runtime monitor: one planted mistake per schema, the error kind is the oracle",
            "every kind of mistake named in the statement, planted in random schemas at random places",
            "A well-formed random schema gets exactly one mistake; compilation must answer the error that names it and nothing may be generated. Distinct: schemas."),
    "C21": ("runtime monitor: the compiler and rustc as observers of generated well-formed schemas in every notation",
            "well-formed by construction; names colliding with derived names are listed as known findings",
            "Well-formed schemas must be accepted, the generated code must compile together with a driver that uses every declared field, and the same schema in another JSON5 notation must give the same code. Distinct: schemas."),
    "C22": ("runtime monitor: byte comparison of repeated generations across processes, hash seeds, leftovers and neighbours",
            "several processes and several generations in one process per schema",
            "Schemas are generated again in other processes, over leftovers, beside other protocols and fewer; all files, names and the order of declarations are compared. Distinct: outputs."),
    "C23": ("runtime monitor: cross-protocol reads and writes, and exact reference paths in the generated tokens",
            "chains of imports, both byte orders, import paths of several forms",
            WORLDS + "data is exchanged between the importing and the defining protocol; references in generated tokens must be the import path; names that were not imported must be refused. Distinct: struct and message pairs, schemas."),
    "C24": ("runtime monitor: directory snapshots before and after generation for all 64 option sets, with output faults",
            "all option sets per schema, leftovers, build-script processes, relative directories, unwritable files",
            "For each schema all option sets are generated into clean and littered directories and the whole tree is compared with what the options select. Distinct: schema, options and leftovers."),
    "C25": ("runtime monitor: reference renderer over generated templates and scope histories",
            "well-formed, malformed and random templates; unspecified corner cases of malformed text excluded",
            "Templates, assignments and render sequences are generated and compared with a reference renderer; noise must give errors, not panics. Distinct: templates and rendered outputs."),
}

ASSUMPTIONS = [
    "The reference model in harness/vir is right about the format; it was written from the documentation and the code's intent.",
    "What was not executed is not judged: random schemas, values and inputs within the stated families.",
]
