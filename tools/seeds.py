"""The planted bugs (tools/mkseed.py writes them to seeded/). No check reads this."""

SEEDS = []
B = "runtime/src/codec/bits.rs"
BY = "runtime/src/codec/bytes.rs"
ARR = "runtime/src/codec/arrays.rs"
STRUCT_T = "compiler/src/gen/rust/structure.template"
FIELD_T = "compiler/src/gen/rust/structure.field.template"
OFFS_T = "compiler/src/gen/rust/message.offsets.template"
READ_T = "compiler/src/gen/rust/message.from_slice.template"
WRITE_T = "compiler/src/gen/rust/message.write.template"
UNION_T = "compiler/src/gen/rust/union.template"
CS = "compiler/src/compiler/structure.rs"
CM = "compiler/src/compiler/message.rs"
CU = "compiler/src/compiler/union.rs"
CP = "compiler/src/compiler/protocol.rs"
COMMON = "runtime/src/message/util/common.rs"
LIST = "runtime/src/message/util/list.rs"
LISTB = "runtime/src/message/util/list_base.rs"
MARR = "runtime/src/message/util/array.rs"
STR = "runtime/src/message/util/string.rs"
SIZE = "runtime/src/message/util/size.rs"


def seed(id, property, needs, breaks, edits, main, schemas=None, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, schemas=schemas, **kw))


def struct(name, *fields):
    return '{ name: "%s", fields: [%s] }' % (name, ", ".join(fields))


def fld(name, ty, bits, extra=""):
    return '{ name: "%s", info: { type: "%s", bits: %d }%s }' % (name, ty, bits, extra and ", " + extra)


def msg(name, *fields):
    return '{ name: "%s", fields: [%s] }' % (name, ", ".join(fields))


def m(name, info, optional=False):
    return '{ name: "%s", info: { %s }%s }' % (name, info, ", optional: true" if optional else "")


def item(name, ty, optional=False):
    return m(name, 'type: "item", item_type: "%s"' % ty, optional)


def string(name, max_len=None, optional=False):
    return m(name, 'type: "string"' + ("" if max_len is None else ", max_len: %d" % max_len), optional)


def lst(name, ty, max_len, optional=False):
    return m(name, 'type: "list", max_len: %d, item_type: "%s"' % (max_len, ty), optional)


def proto(name="p", order=None, imports=None, enums=None, structs=None, unions=None, messages=None):
    out = ['name: "%s"' % name]
    if order:
        out.append('endianness: "%s"' % order)
    for k, v in (("imports", imports), ("enums", enums), ("structs", structs), ("unions", unions), ("messages", messages)):
        if v:
            out.append("%s: [%s]" % (k, ",\n  ".join(v)))
    return "{ " + ",\n  ".join(out) + " }"


U8 = struct("U8", fld("v", "unsigned", 8))
U16 = struct("U16", fld("v", "unsigned", 16))
U32 = struct("U32", fld("v", "unsigned", 32))
PAIR = struct("Pair", fld("a", "unsigned", 8), fld("b", "unsigned", 16))

# ---------------------------------------------------------------- structures

seed("c01-one-bit-tail", "C01", "a structure whose fields end exactly one bit into its last byte",
     "the last byte is not counted in the declared size",
     [(CS, "            byte_size: if last_bit_offset % 8 != 0 {\n                (last_bit_offset / 8) + 1\n            } else {\n                last_bit_offset / 8\n            }\n        })",
       "            byte_size: (last_bit_offset + 6) / 8\n        })")],
     """
fn main() {
    assert_eq!(p::SIZE_S, 2);
}
""", {"p": proto(structs=[struct("S", fld("a", "unsigned", 8), fld("b", "boolean", 1))])}, also=["C09"])

seed("c02-upper-half", "C02", "writing a little endian bit field of 33 to 63 bits whose bytes are exactly 8, with other fields in the upper half",
     "the neighbours in the upper 4 bytes are reset to zero",
     [(B, "        let reset_mask = !(mask << BIT_OFFSET);", "        let reset_mask = !(mask << BIT_OFFSET) & if BIT_OFFSET == 0 { usize::MAX } else { u32::MAX as usize };")],
     """
fn main() {
    let mut buf = [0xffu8; 8];
    p::S::new(&mut buf[..]).set_raw_b(0);
    assert_eq!(buf[7], 0xf0);
}
""", {"p": proto(structs=[struct("S", fld("a", "unsigned", 4), fld("b", "unsigned", 56), fld("c", "unsigned", 4))])})

seed("c02-no-truncate", "C02", "writing a raw value wider than its field to a bit field that is not the last of its bytes",
     "the excess bits of the value end up in the next field",
     [(B, "        let value = (value & T::from_usize(mask)) << T::from_usize(BIT_OFFSET);",
       "        let value = value << T::from_usize(BIT_OFFSET);")],
     """
fn main() {
    let mut buf = [0u8; 1];
    p::S::new(&mut buf[..]).set_raw_a(0xff);
    assert_eq!(buf[0], 0x07);
}
""", {"p": proto(structs=[struct("S", fld("a", "unsigned", 3), fld("b", "unsigned", 5))])})

seed("c03-varchar-prefix", "C03", "a big endian protocol with a bounded string of more than 255 bytes at most",
     "the length prefix of bounded strings is little endian whatever the protocol declares",
     [("compiler/src/gen/base/message_from_slice.rs", """        FieldType::VarcharString(v) => gen_optional::<U>(field.optional, template.scope()
            .var("codec", U::get_value_type(field.endianness, v.ty)).render("", &["varchar"]).unwrap()),""",
       """        FieldType::VarcharString(v) => gen_optional::<U>(field.optional, template.scope()
            .var("codec", U::get_value_type(crate::model::protocol::Endianness::Little, v.ty)).render("", &["varchar"]).unwrap()),""")],
     """
use bp3d_proto::message::WriteTo;
fn main() {
    let mut out = Vec::new();
    p::M::write_to(&p::M { s: "ab" }, &mut out).unwrap();
    assert_eq!(out, [0, 2, b'a', b'b']);
}
""", {"p": proto(order="big", messages=[msg("M", string("s", 1000))])}, also=["C09"])

seed("c03-array-codec", "C03", "an array of multi-byte items in a structure of a big endian protocol",
     "array items are little endian whatever the protocol declares",
     [("compiler/src/gen/rust/util.rs", '            Endianness::Big => "bp3d_proto::codec::ByteCodecBE"\n', '            Endianness::Big => "bp3d_proto::codec::ByteCodecLE"\n')],
     """
fn main() {
    let buf = [0x12u8, 0x34, 0x56, 0x78];
    assert_eq!(p::S::new(&buf[..]).get_a().get_raw(1), 0x5678);
}
""", {"p": proto(order="big", structs=[struct("S", fld("a", "unsigned", 16, "array_len: 2"))])}, also=["C07"])

seed("c04-signed-64", "C04", "a signed 64 bits field that holds the smallest value, i64::MIN",
     "64 bits signed fields go through the sign extension of odd widths, which overflows for i64::MIN",
     [(CS, "if ty == SimpleType::Signed && bit_size != 8 && bit_size != 16 && bit_size != 32 && bit_size != 64 {\n                    let max_value = 1 << (bit_size - 1);",
       "if ty == SimpleType::Signed && bit_size != 8 && bit_size != 16 && bit_size != 32 {\n                    let max_value: usize = 1 << (bit_size - 1);")],
     """
fn main() {
    let buf = i64::MIN.to_le_bytes();
    assert_eq!(p::S::new(&buf[..]).get_v(), i64::MIN);
}
""", {"p": proto(structs=[struct("S", fld("v", "signed", 64))])})

seed("c04-wide-bool", "C04", "a boolean of more than one bit in which the lowest bit is not set",
     "a boolean is only true when its raw value is exactly 1",
     [(FIELD_T, "        if self.get_raw_{name}() != 0 {{", "        if self.get_raw_{name}() == 1 {{")],
     """
fn main() {
    let buf = [0x40u8];
    assert!(p::S::new(&buf[..]).get_v());
}
""", {"p": proto(structs=[struct("S", fld("v", "boolean", 8))])})

seed("c05-narrow-inverse", "C05", "a float range field of more than 24 bits",
     "the inverse factor is rounded to single precision, so writing is off by many steps",
     [(CS, "                let a_inv = 1.0 / a;\n                let b_inv = -b * a_inv;", "                let a_inv = (1.0 / a) as f32 as f64;\n                let b_inv = -b * a_inv;")],
     """
fn main() {
    let mut buf = [0u8; 4];
    p::S::new(&mut buf[..]).set_v(0.9);
    let v = p::S::new(&buf[..]).get_v();
    assert!((v - 0.9).abs() <= 3.0 / ((1u64 << 30) as f64), "{}", v);
}
""", {"p": proto(structs=[struct("S", fld("v", "float", 30, 'view: { type: "float-range", min: 0.0, max: 3.0 }'), fld("w", "unsigned", 2))])})

seed("c05-single-precision", "C05", "a float view on a field of 25 to 31 bits",
     "the field is exposed as f32, which cannot tell neighbouring steps apart",
     [(CS, "map_numeric(ty, Self::Int32, Self::UInt32, Self::Float64)", "map_numeric(ty, Self::Int32, Self::UInt32, Self::Float32)")],
     """
fn main() {
    let mut buf = [0u8; 4];
    p::S::new(&mut buf[..]).set_raw_v(0x3fff_fff1);
    let v: f64 = p::S::new(&buf[..]).get_v().into();
    assert_eq!(v, 0x3fff_fff1 as f64);
}
""", {"p": proto(structs=[struct("S", fld("v", "float", 30, 'view: { type: "float-multiplier", multiplier: 1.0 }'), fld("w", "unsigned", 2))])})

seed("c06-wide-variant", "C06", "an enum with a variant of more than 32 bits, written to a field wide enough for it",
     "the upper half of the variant's value is cut off when it is written",
     [(FIELD_T, "        self.set_raw_{name}(value as {raw_type});\n        self\n    }}\n#fragment pop\n#fragment push view_transmute",
       "        self.set_raw_{name}(value as u32 as {raw_type});\n        self\n    }}\n#fragment pop\n#fragment push view_transmute")],
     """
fn main() {
    let mut buf = [0u8; 5];
    p::S::new(&mut buf[..]).set_v(p::E::Big);
    assert_eq!(p::S::new(&buf[..]).get_v(), Some(p::E::Big));
}
""", {"p": proto(enums=['{ name: "E", variants: { Small: 1, Big: 4294967298 } }'],
                 structs=[struct("S", fld("v", "unsigned", 40, 'view: { type: "enum", name: "E" }'))])})

seed("c07-iter-chunks", "C07", "iterating an array whose items are 24, 40, 48 or 56 bits wide",
     "iteration steps by the size of the item's integer type instead of the width of an item",
     [(ARR, "    pub fn iter_raw(&self) -> impl Iterator<Item = Item> + '_ {\n        let byte_size = ITEM_BIT_SIZE / 8;",
       "    pub fn iter_raw(&self) -> impl Iterator<Item = Item> + '_ {\n        let byte_size = size_of::<Item>();")],
     """
fn main() {
    let buf = [1u8, 0, 0, 2, 0, 0, 3, 0, 0];
    let s = p::S::new(&buf[..]);
    assert_eq!(s.get_a().iter_raw().collect::<Vec<_>>(), [1, 2, 3]);
}
""", {"p": proto(structs=[struct("S", fld("a", "unsigned", 24, "array_len: 3"))])})

seed("c07-length", "C07", "an array whose items are 24, 40, 48 or 56 bits wide",
     "the reported length counts items of the integer type's size",
     [(ARR, "        let byte_size = ITEM_BIT_SIZE / 8;\n        self.buffer.as_ref().len() / byte_size", "        self.buffer.as_ref().len() / size_of::<Item>()")],
     """
fn main() {
    let buf = [1u8, 0, 0, 2, 0, 0, 3, 0, 0];
    assert_eq!(p::S::new(&buf[..]).get_a().len(), 3);
}
""", {"p": proto(structs=[struct("S", fld("a", "unsigned", 24, "array_len: 3"))])})

# ---------------------------------------------------------------- messages

seed("c08-char-count", "C08", "a bounded string with characters outside of ASCII, followed by another field",
     "the reader reports a size in characters instead of bytes, so the following fields are read from the wrong place",
     [(STR, "        Ok(Message::new(size + string.len(), string))", "        Ok(Message::new(size + string.chars().count(), string))")],
     """
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let mut out = Vec::new();
    p::M::write_to(&p::M { s: "\\u{e9}", v: 5 }, &mut out).unwrap();
    let r = p::M::from_slice(&out).unwrap();
    assert_eq!(r.size(), out.len());
    assert_eq!(r.into_inner().v, 5);
}
""", {"p": proto(structs=[U8], messages=[msg("M", string("s", 100), item("v", "U8"))])}, also=["C09", "C12"])

seed("c08-size-of", "C08", "the size helper on a message with a payload or list of at least 8 KiB",
     "the size counter pretends to buffer: it accepts at most 8192 bytes of a large write but counts all of it",
     [(SIZE, "        self.0 += buf.len();\n        Ok(buf.len())", "        self.0 += buf.len();\n        Ok(buf.len().min(8192))")],
     """
use bp3d_proto::message::util::size_of;
fn main() {
    let data = vec![0u8; 10000];
    assert_eq!(size_of(&p::M { data: &data }).unwrap(), 10000);
}
""", {"p": proto(messages=[msg("M", m("data", 'type: "payload"'))])})

seed("c09-prefix-boundary", "C09", "a declared maximum of exactly 255, 65535 or 4294967295",
     "the prefix is one size too large for maxima that just fit",
     [(CS, "} else if max_value > u8::MAX as usize {", "} else if max_value >= u8::MAX as usize {")],
     """
use bp3d_proto::message::WriteTo;
fn main() {
    let mut out = Vec::new();
    p::M::write_to(&p::M { s: "a" }, &mut out).unwrap();
    assert_eq!(out, [1, b'a']);
}
""", {"p": proto(messages=[msg("M", string("s", 255))])})

seed("c09-optional-marker", "C09", "an optional field whose marker byte is neither 0 nor 1",
     "a present value is skipped when its marker is not exactly 1",
     [(COMMON, "            let b = slice[0] > 0;\n            if b {\n                let msg = T::from_slice(&slice[1..])?;",
       "            let b = slice[0] == 1;\n            if b {\n                let msg = T::from_slice(&slice[1..])?;")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let r = p::M::from_slice(&[2, 7]).unwrap();
    assert_eq!(r.into_inner().v, Some(7));
}
""", {"p": proto(structs=[U8], messages=[msg("M", item("v", "U8", True))])}, also=["C12"])

seed("c10-optional-empty", "C10", "decoding with offsets when the input ends right before an optional message",
     "the marker byte is read without checking that there is one: panic",
     [(COMMON, """    fn from_slice_with_offsets(slice: &'a [u8]) -> crate::message::Result<Message<(Self::Output, Self::Offsets)>> {
        if slice.len() < 1 {
            Err(Error::Truncated)
        } else {
            let b = slice[0] > 0;""", """    fn from_slice_with_offsets(slice: &'a [u8]) -> crate::message::Result<Message<(Self::Output, Self::Offsets)>> {
        {
            let b = slice[0] > 0;""")],
     """
use bp3d_proto::message::FromSliceWithOffsets;
fn main() {
    assert!(p::M::from_slice_with_offsets(&[1]).is_err());
}
""", {"p": proto(structs=[U8], messages=[msg("I", item("v", "U8")), msg("M", item("a", "U8"), item("i", "I", True))])}, also=["C12"])

seed("c10-unterminated", "C10", "an unbounded string whose terminator is missing at the end of the input",
     "the string is accepted and a size of one byte more than the input is reported; what follows panics",
     [(STR, """            .ok_or(Error::Truncated)?.map_err(|_| Error::InvalidUtf8)?;""",
       """            .unwrap_or_else(|| std::str::from_utf8(slice)).map_err(|_| Error::InvalidUtf8)?;""")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    assert!(p::M::from_slice(b"abc").is_err());
}
""", {"p": proto(messages=[msg("M", string("s"))])}, also=["C11"])

seed("c11-utf8-kind", "C11", "a bounded string whose bytes end inside a multi-byte character",
     "invalid UTF-8 in a complete input is reported as a truncated input",
     [(STR, "        let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;",
       "        let string = std::str::from_utf8(subslice).map_err(|e| match e.error_len() {\n            None => Error::Truncated,\n            Some(_) => Error::InvalidUtf8\n        })?;")],
     """
use bp3d_proto::message::{Error, FromSlice};
fn main() {
    assert!(matches!(p::M::from_slice(&[1, 0xc3, 7, 7, 7]), Err(Error::InvalidUtf8)));
}
""", {"p": proto(messages=[msg("M", string("s", 100))])})

seed("c11-unchecked-utf8", "C11", "a bounded string of invalid UTF-8 that starts with an ASCII character",
     "only the first byte of a bounded string is validated",
     [(STR, "        let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;",
       "        let string = match subslice.first() {\n            Some(v) if v.is_ascii() && subslice.len() > 16 => unsafe { std::str::from_utf8_unchecked(subslice) },\n            _ => std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?\n        };")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let mut v = vec![b'a'; 21];
    v[0] = 20;
    v[10] = 0xff;
    assert!(p::M::from_slice(&v).is_err());
}
""", {"p": proto(messages=[msg("M", string("s", 100))])}, also=["C10"])

seed("c12-absent-size", "C12", "decoding with offsets a message with an optional nested message that is absent and not last",
     "the marker byte of an absent message is not counted when decoding with offsets",
     [(COMMON, "                Ok(Message::new(1, (None, None)))", "                Ok(Message::new(0, (None, None)))")],
     """
use bp3d_proto::message::{FromSlice, FromSliceWithOffsets};
fn main() {
    let buf = [0, 5, 6];
    let a = p::M::from_slice(&buf).unwrap().into_inner();
    let b = p::M::from_slice_with_offsets(&buf).unwrap().into_inner().0;
    assert_eq!(a.b, b.b);
}
""", {"p": proto(structs=[U8], messages=[msg("I", item("v", "U8")), msg("M", item("i", "I", True), item("b", "U8"))])})

seed("c12-union-start", "C12", "the offset of a union field",
     "the range of a union is empty: its start is taken after the union was read",
     [(OFFS_T, """from_slice(&slice[byte_offset..], &__{on_name})?;
        offsets.{name}.start = byte_offset;
        byte_offset += {name}_msg.size();
""", """from_slice(&slice[byte_offset..], &__{on_name})?;
        byte_offset += {name}_msg.size();
        offsets.{name}.start = byte_offset;
""")],
     """
use bp3d_proto::message::FromSliceWithOffsets;
fn main() {
    let o = p::M::from_slice_with_offsets(&[1, 0, 7]).unwrap().into_inner().1;
    assert_eq!((o.u.start, o.u.end), (2, 3));
}
""", {"p": proto(structs=[U8, struct("H", fld("t", "unsigned", 8), fld("z", "unsigned", 8))],
                 unions=['{ name: "U", discriminant: "H.t", cases: [{ name: "A", case: "1", item_type: "U8" }] }'],
                 messages=[msg("M", item("h", "H"), m("u", 'type: "union", on: "h", item_type: "U"'))])})

seed("c12-iter-offsets", "C12", "iterating with offsets a list with two or more items",
     "the last item of a list is not yielded when iterating with offsets, unless it is the only one",
     [(LIST, """    fn next(&mut self) -> Option<Self::Item> {
        if self.len == 0 {
            return None;
        }
        let msg = match Item::from_slice_with_offsets(&self.data[..]) {""", """    fn next(&mut self) -> Option<Self::Item> {
        if self.len == 0 || self.data.len() <= 1 && self.len > 1 {
            return None;
        }
        let msg = match Item::from_slice_with_offsets(&self.data[..]) {""")],
     """
use bp3d_proto::message::{FromSlice, FromSliceWithOffsets};
fn main() {
    let buf = [3u8, 1];
    let l = p::M::from_slice(&buf).unwrap().into_inner().l;
    assert_eq!(l.iter().count(), l.iter_offsets().count());
}
""", {"p": proto(structs=[U8], messages=[msg("I", item("v", "U8")), msg("M", lst("l", "I", 10))])})

seed("c13-prefix-name", "C13", "a discriminant path that names a field after another field whose name starts the same",
     "the first field whose name starts with the path's part is taken as discriminant",
     [(CU, "                .find(|(_, v)| v.name() == sub)", "                .find(|(_, v)| v.name().starts_with(sub))")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let r = p::M::from_slice(&[9, 1, 7]).unwrap().into_inner();
    assert_eq!(*r.u.as_a().unwrap().v, 7u8) ;
}
""".replace("*r.u.as_a().unwrap().v", "r.u.as_a().unwrap().get_v()"),
     {"p": proto(structs=[U8, struct("H", fld("type2", "unsigned", 8), fld("type", "unsigned", 8))],
                 unions=['{ name: "U", discriminant: "H.type", cases: [{ name: "A", case: "1", item_type: "U8" }] }'],
                 messages=[msg("M", item("h", "H"), m("u", 'type: "union", on: "h", item_type: "U"'))])})

seed("c13-write-mismatch", "C13", "writing a union whose content does not match a discriminant that another case declares, with an empty encoding",
     "a mismatching discriminant is only refused when it is smaller than the case",
     [(UNION_T, "            Self::{name}(v) => if discriminant == {case} {{", "            Self::{name}(v) => if discriminant >= {case} {{")],
     """
use bp3d_proto::message::WriteTo;
fn main() {
    let h = [2u8, 0];
    let v = [7u8];
    let mut out = Vec::new();
    assert!(p::M::write_to(&p::M { h: p::H::new(&h[..]), u: p::U::A(p::U8::new(&v[..])) }, &mut out).is_err());
}
""", {"p": proto(structs=[U8, struct("H", fld("t", "unsigned", 8), fld("z", "unsigned", 8))],
                 unions=['{ name: "U", discriminant: "H.t", cases: [{ name: "A", case: "1", item_type: "U8" }, { name: "B", case: "2", item_type: "U8" }] }'],
                 messages=[msg("M", item("h", "H"), m("u", 'type: "union", on: "h", item_type: "U"'))])})

seed("c14-batch-length", "C14", "appending a batch of items to a list that already has items",
     "the length is set to the size of the last batch",
     [(LISTB, "                for item in items {\n                    self.write_item(item)?;\n                }\n",
       "                for item in items {\n                    Item::write_to(item, &mut self.data)?;\n                }\n                self.len = items.len();\n")],
     """
use bp3d_proto::message::util::List;
fn main() {
    let mut l: p::ML<Vec<u8>> = List::new(Vec::new());
    l.write_item(&p::I { v: 1 }).unwrap();
    l.write_items(&[p::I { v: 2 }, p::I { v: 3 }]).unwrap();
    assert_eq!(l.len(), 3);
}
""", {"p": proto(structs=[U8], messages=[msg("I", item("v", "U8")), msg("M", lst("l", "I", 10))])}, also=["C15"])

seed("c14-embedded", "C14", "a list of messages that only have optional fields, one of them a list",
     "the inner list is not delimited, so it swallows the items that follow",
     [(CM, "        self.embedded.get()\n", "        self.embedded.get() && !self.fields.iter().all(|v| v.optional)\n")],
     """
use bp3d_proto::message::{FromSlice, WriteTo};
use bp3d_proto::message::util::List;
fn main() {
    let mut a: p::InnerL<Vec<u8>> = List::new(Vec::new());
    a.write_items(&[p::I { v: 1 }, p::I { v: 2 }]).unwrap();
    let mut l: p::ML<Vec<u8>> = List::new(Vec::new());
    l.write_items(&[p::Inner { l: Some(a.to_ref()) }, p::Inner { l: Some(a.to_ref()) }]).unwrap();
    let mut out = Vec::new();
    p::M::write_to(&p::M { l: l.to_ref() }, &mut out).unwrap();
    let r = p::M::from_slice(&out).unwrap().into_inner();
    let v: Vec<Vec<u8>> = r.l.iter().map(|v| v.unwrap().l.unwrap().iter().map(|v| v.unwrap().v).collect()).collect();
    assert_eq!(v, [[1, 2], [1, 2]]);
}
""", {"p": proto(structs=[U8], messages=[msg("I", item("v", "U8")), msg("Inner", lst("l", "I", 10, True)), msg("M", lst("l", "Inner", 10))])}, also=["C08"])

seed("c15-trailing", "C15", "reading an array of structures that is followed by other bytes",
     "the array keeps the rest of the input, so iteration yields more items than its length",
     [(MARR, "            let data = &slice[control_size..total_size];", "            let data = &slice[control_size..];")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let r = p::M::from_slice(&[1, 1, 2, 3, 4, 5, 6]).unwrap().into_inner();
    assert_eq!(r.a.iter::<p::Pair<&[u8]>>().count(), 1);
}
""", {"p": proto(structs=[PAIR], messages=[msg("M", lst("a", "Pair", 10))])}, also=["C08", "C17"])

seed("c15-iter-mut", "C15", "mutable iteration over an array of structures of a single byte",
     "mutable iteration steps by at least 2 bytes",
     [(MARR, "self.data.as_mut().chunks_mut(Item::SIZE)", "self.data.as_mut().chunks_mut(Item::SIZE.max(2))")],
     """
fn main() {
    let mut buf = vec![0u8; 4];
    let mut a = p::MA::from_parts(&mut buf[..], 4).unwrap();
    assert_eq!(a.iter_mut().count(), 4);
}
""", {"p": proto(structs=[U8], messages=[msg("M", lst("a", "U8", 10))])})

seed("c16-short-write", "C16", "an output that accepts less than it is given when a payload is written",
     "the rest of a payload is lost and success is reported",
     [(COMMON, "        out.write_all(input)?;\n        Ok(())", "        let _ = out.write(input)?;\n        Ok(())")],
     """
use bp3d_proto::message::WriteTo;
struct One(Vec<u8>);
impl std::io::Write for One {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend(b.first());
        Ok(b.len().min(1))
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut out = One(Vec::new());
    p::M::write_to(&p::M { data: b"abc" }, &mut out).unwrap();
    assert_eq!(out.0, b"abc");
}
""", {"p": proto(messages=[msg("M", m("data", 'type: "payload"'))])})

seed("c16-swallowed", "C16", "an output that fails exactly at the terminator of an unbounded string that ends the message",
     "the failure to write the terminator is ignored and success is reported",
     [(STR, "        out.write_all(&[0x0])?;\n        Ok(())", "        let _ = out.write_all(&[0x0]);\n        Ok(())")],
     """
use bp3d_proto::message::WriteTo;
fn main() {
    let mut buf = [0u8; 3];
    assert!(p::M::write_to(&p::M { s: "abc" }, &mut buf[..]).is_err());
}
""", {"p": proto(messages=[msg("M", string("s"))])})

seed("c17-trimmed", "C17", "an unbounded string that ends with a NUL character",
     "trailing NUL characters are dropped and success is reported",
     [(STR, "    fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {\n        if input.as_bytes().contains(&0x0) {",
       "    fn write_to<W: Write>(text: &Self::Input, mut out: W) -> Result<(), Error> {\n        let input = text.trim_end_matches('\\0');\n        if input.as_bytes().contains(&0x0) {")],
     """
use bp3d_proto::message::WriteTo;
fn main() {
    let mut out = Vec::new();
    assert!(p::M::write_to(&p::M { s: "abc\\0" }, &mut out).is_err());
}
""", {"p": proto(messages=[msg("M", string("s"))])})

seed("c18-over-read", "C18", "an array of 24, 40, 48 or 56 bits items (or such a field) at the end of its allocation",
     "8 bytes are copied whatever the size of the value: the read runs over the end of the buffer",
     [(BY, "    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {\n        let mut data = [0; 8];\n        data[..buffer.len()].copy_from_slice(buffer);\n        Self::read_aligned::<T>(&data)\n    }\n\n    fn read<",
       "    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {\n        let mut data = [0u8; 8];\n        std::ptr::copy_nonoverlapping(buffer.as_ptr(), data.as_mut_ptr(), 8);\n        data[buffer.len()..].fill(0);\n        Self::read_aligned::<T>(&data)\n    }\n\n    fn read<")],
     """
fn main() {
    let buf = vec![1u8, 2, 3].into_boxed_slice();
    assert_eq!(p::S::new(&*buf).get_raw_v(), 0x030201);
}
""", {"p": proto(structs=[struct("S", fld("v", "unsigned", 24))])},
     cargo=["+nightly", "run", "--target", "x86_64-unknown-linux-gnu"], env={"RUSTFLAGS": "-Zsanitizer=address"})

seed("c18-unchecked-field", "C18", "a nested structure read through a buffer shorter than the structure",
     "the bounds of nested structures are not checked any more: out-of-bounds read in safe code",
     [(FIELD_T, "        {type_name}::new(&self.data.as_ref()[{start}..{end}])", "        {type_name}::new(unsafe {{ self.data.as_ref().get_unchecked({start}..{end}) }})")],
     """
fn main() {
    let buf = vec![1u8].into_boxed_slice();
    let r = std::panic::catch_unwind(|| p::S::new(&*buf).get_i().get_raw_v());
    assert!(r.is_err());
}
""", {"p": proto(structs=[U16, struct("S", fld("a", "unsigned", 8), '{ name: "i", info: { type: "struct", item_type: "U16" } }')])},
     cargo=["run", "--release"])

# ---------------------------------------------------------------- compiler

COMPILE = """
use bp3d_protoc::{Loader, Error, util::SimpleImportSolver, gen::GeneratorRust, Protoc};
fn dir() -> std::path::PathBuf { std::env::temp_dir() }
fn load(texts: &[&str]) -> Result<Protoc, Error> {
    let mut l = Loader::new();
    for (i, t) in texts.iter().enumerate() {
        let p = dir().join(format!("in{}.json5", i));
        std::fs::write(&p, t).unwrap();
        if i + 1 == texts.len() { l.load(&p)?; } else { l.import(&p, format!("crate::m{}", i))?; }
    }
    l.compile(SimpleImportSolver::new("::"))
}
fn out(p: Protoc, name: &str) -> std::path::PathBuf {
    let d = dir().join(name);
    let _ = std::fs::create_dir(&d);
    p.generate::<GeneratorRust>(&d).unwrap();
    d
}
"""

seed("c19-missing-import", "C19", "importing a name which the other protocol does not have",
     "an undefined imported name panics instead of being reported",
     [(CP, 'let msg = r.messages_by_name.get(&v.type_name).ok_or(Error::UndefinedReference(format!("{}::{}", v.protocol, v.type_name)))?;',
       'let msg = &r.messages_by_name[&v.type_name];')],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a' }", "{ name: 'b', imports: [{ protocol: 'a', type: 'X' }] }"]).is_err());
}
""", also=["C20"])

seed("c19-zero-enum", "C19", "an enum without variants",
     "an enum without variants panics instead of being reported",
     [("compiler/src/compiler/enum.rs", "let largest = variants.last().map(|(_, v)| *v).ok_or(Error::ZeroEnum)?;", "let largest = variants[variants.len() - 1].1;")],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a', enums: [{ name: 'E', variants: {} }] }"]).is_err());
}
""", also=["C20"])

seed("c20-string-after-payload", "C20", "a string or array after a payload",
     "variable-sized fields after a payload are accepted, although they can never be read back",
     [(CM, "if dyn_sized_elem_count > 0 && (field.size.is_dyn_sized || field.size.is_element_dyn_sized) {",
       "if dyn_sized_elem_count > 0 && (field.size.is_dyn_sized && field.size.is_element_dyn_sized) {")],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a', messages: [{ name: 'M', fields: [{ name: 'p', info: { type: 'payload' } }, { name: 's', info: { type: 'string' } }] }] }"]).is_err());
}
""")

seed("c20-view-type", "C20", "a float multiplier view on an integer field",
     "the view is accepted (and ignored or mixed up) on types it does not apply to",
     [(CS, """            Some(StructFieldView::FloatMultiplier { multiplier }) => {
                if ty != SimpleType::Float {
                    return Err(Error::UnsupportedViewType(ty));
                }
""", """            Some(StructFieldView::FloatMultiplier { multiplier }) => {
                if ty == SimpleType::Boolean {
                    return Err(Error::UnsupportedViewType(ty));
                }
""")],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 }, view: { type: 'float-multiplier', multiplier: 2.0 } }] }] }"]).is_err());
}
""")

seed("c21-array-last", "C21", "a string or another array after an array of structures",
     "arrays of structures are treated like payloads, so valid schemas are rejected",
     [(CM, """                            size: SizeInfo {
                                is_element_dyn_sized: false,
                                is_dyn_sized: true
                            },
                            endianness: proto.endianness
                        })
                    },
                    Referenced::Message(item_type) => {""", """                            size: SizeInfo {
                                is_element_dyn_sized: true,
                                is_dyn_sized: true
                            },
                            endianness: proto.endianness
                        })
                    },
                    Referenced::Message(item_type) => {""")],
     COMPILE + """
fn main() {
    load(&["{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 } }, { name: 'w', info: { type: 'unsigned', bits: 8 } }] }], messages: [{ name: 'M', fields: [{ name: 'p', info: { type: 'list', max_len: 10, item_type: 'S' } }, { name: 's', info: { type: 'string' } }] }] }"]).unwrap();
}
""")

seed("c21-payload-lifetime", "C21", "a message whose only borrowed field is a payload",
     "the generated message lacks its lifetime parameter and does not compile",
     [("compiler/src/gen/rust/util.rs", "            FieldType::Payload => true,\n", "            FieldType::Payload => v.optional,\n")],
     """
fn main() {
    let m = p::M { v: 1, data: b"x" };
    assert_eq!(m.data, b"x");
}
""", {"p": proto(structs=[U8], messages=[msg("M", item("v", "U8"), m("data", 'type: "payload"'))])})

seed("c22-hash-order", "C22", "a protocol with several unions, generated twice",
     "unions are emitted in the order of a hash map, which differs on every run",
     [("compiler/src/gen/rust/mod.rs", "let decl_unions = proto.unions.iter().map(|v|", "let decl_unions = proto.unions_by_name.values().filter(|v| proto.unions.iter().any(|u| u.name == v.name)).map(|v|")],
     COMPILE + """
fn main() {
    let mut t = String::from("{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 } }] }], unions: [");
    for i in 0..8 { t += &format!("{{ name: 'U{}', discriminant: 'S.v', cases: [{{ name: 'A', case: '1' }}] }},", i); }
    t += "] }";
    let first = std::fs::read(out(load(&[&t]).unwrap(), "o0").join("a/unions.rs")).unwrap();
    for i in 1..8 {
        let v = std::fs::read(out(load(&[&t]).unwrap(), &format!("o{}", i)).join("a/unions.rs")).unwrap();
        assert!(v == first);
    }
}
""")

seed("c22-stale", "C22", "generating into a directory that holds a file of the same name and the same length from an earlier generation",
     "a file is not rewritten when its length did not change, so the old code stays",
     [("compiler/src/gen/mod.rs", "            std::fs::write(&path, self.data)?;", "            if std::fs::metadata(&path).map(|v| v.len() as usize != self.data.len()).unwrap_or(true) {\n                std::fs::write(&path, self.data)?;\n            }")],
     COMPILE + """
fn main() {
    let t = |v: u32| format!("{{ name: 'a', enums: [{{ name: 'E', variants: {{ A: {} }} }}] }}", v);
    out(load(&[&t(1)]).unwrap(), "o");
    let d = out(load(&[&t(2)]).unwrap(), "o");
    assert!(std::fs::read_to_string(d.join("a/enums.rs")).unwrap().contains("A = 2"));
}
""")

seed("c23-enum-path", "C23", "an imported enum used as a view in the importing protocol",
     "imported enums are referred to without the path of their protocol",
     [(CP, "                                proto.enums_by_name.insert(v.type_name, vv.clone());\n                                proto.type_path_by_name.add(vv.name.clone(), type_path);\n",
       "                                proto.enums_by_name.insert(v.type_name, vv.clone());\n                                let _ = type_path;\n")],
     COMPILE + """
fn main() {
    let d = out(load(&["{ name: 'a', enums: [{ name: 'E', variants: { A: 1 } }] }",
        "{ name: 'b', imports: [{ protocol: 'a', type: 'E' }], structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 }, view: { type: 'enum', name: 'E' } }] }] }"]).unwrap(), "o");
    assert!(std::fs::read_to_string(d.join("b/structures.rs")).unwrap().contains("crate::m0::E"));
}
""", also=["C21"])

seed("c23-first-registration", "C23", "two protocols imported under different paths",
     "every imported type is referenced under the path of one protocol",
     [("compiler/src/util.rs", "        let import_path = self.import_map.get(protocol).map(|(k, _)| k)?;",
       "        let import_path = self.import_map.iter().filter(|(k, _)| k.starts_with(protocol)).map(|(_, (k, _))| k).min()?;")],
     COMPILE + """
fn main() {
    let d = out(load(&["{ name: 'ab', enums: [{ name: 'F', variants: { A: 1 } }] }", "{ name: 'a', enums: [{ name: 'E', variants: { A: 1 } }] }",
        "{ name: 'b', imports: [{ protocol: 'a', type: 'E' }], structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 }, view: { type: 'enum', name: 'E' } }] }] }"]).unwrap(), "o");
    assert!(std::fs::read_to_string(d.join("b/structures.rs")).unwrap().contains("crate::m1::E"));
}
""")

seed("c24-offsets-file", "C24", "generating with readers switched off",
     "the offsets (reader code) are written and included although readers were not asked for",
     [("compiler/src/gen/rust/mod.rs", 'File::new(FileType::MessageReading, "messages_offsets.rs", decl_messages_code_offsets),', 'File::new(FileType::Message, "messages_offsets.rs", decl_messages_code_offsets),')],
     COMPILE + """
fn main() {
    let d = out(load(&["{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 } }] }], messages: [{ name: 'M', fields: [{ name: 'v', info: { type: 'item', item_type: 'S' } }] }] }"]).unwrap(), "o");
    assert!(!d.join("a/messages_offsets.rs").exists());
}
""")

seed("c24-wrong-flag", "C24", "switching off unions while messages stay on",
     "set_use_unions also switches messages off",
     [("compiler/src/interface.rs", "                    FileType::Message => self.use_messages,", "                    FileType::Message => self.use_messages && (self.use_unions || self.use_structs),")],
     COMPILE + """
fn main() {
    let p = load(&["{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 } }] }], messages: [{ name: 'M', fields: [{ name: 'v', info: { type: 'item', item_type: 'S' } }] }] }"]).unwrap();
    let d = out(p.set_use_unions(false).set_use_structs(false), "o");
    assert!(d.join("a/messages.rs").exists());
}
""")

seed("c25-lower-ascii", "C25", "a variable with letters outside of ASCII and the lower function",
     "only ASCII letters are converted",
     [("compiler/src/gen/template.rs", '.add("lower", |v| v.to_lowercase().into())', '.add("lower", |v| v.to_ascii_lowercase().into())')],
     """
use bp3d_protoc::gen::template::Template;
fn main() {
    let mut t = Template::compile(b"#fragment push a\\n{v:lower}\\n#fragment pop\\n").unwrap();
    t.var("v", "\\u{c9}A");
    assert_eq!(t.render("", &["a"]).unwrap(), "\\u{e9}a\\n");
}
""")

seed("c25-first-value", "C25", "setting a number variable of a scope a second time",
     "the first value is kept",
     [("compiler/src/gen/template.rs", "self.variables.insert(key, value.to_string().into());", (1, "self.variables.entry(key).or_insert_with(|| value.to_string().into());"))],
     """
use bp3d_protoc::gen::template::Template;
fn main() {
    let t = Template::compile(b"#fragment push a\\n{v}\\n#fragment pop\\n").unwrap();
    let mut s = t.scope();
    s.var_d("v", 1);
    s.var_d("v", 2);
    assert_eq!(s.render("", &["a"]).unwrap(), "2\\n");
}
""")
