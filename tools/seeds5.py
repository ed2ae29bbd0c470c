"""More planted bugs (see seeds.py). No check reads this."""
from seeds4 import *

seed("c11-nul-utf8", "C11", "an unbounded string that ends inside a multi-byte character",
     "the error is a truncated input instead of invalid UTF-8",
     [(STR, "            .ok_or(Error::Truncated)?.map_err(|_| Error::InvalidUtf8)?;",
       "            .ok_or(Error::Truncated)?.map_err(|e| match e.error_len() { None => Error::Truncated, Some(_) => Error::InvalidUtf8 })?;")],
     """
use bp3d_proto::message::{Error, FromSlice};
fn main() {
    assert!(matches!(p::M::from_slice(&[0x61, 0xE2, 0x82, 0]), Err(Error::InvalidUtf8)));
}
""", {"p": proto(messages=[msg("M", string("s"))])})

seed("c21-deep-path", "C21", "a discriminant four structures deep",
     "the case is checked and encoded against another field of the innermost structure",
     [(CU, "            leaf_index: index_list.last().map(|v| *v).unwrap(),",
       "            leaf_index: index_list.get(3).or(index_list.last()).map(|v| *v).unwrap().min(leaf.fields.len() - 1),"),
      (CU, "            leaf: leaf.clone(),", "            leaf: if index_list.len() > 3 { root.clone() } else { leaf.clone() },")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let _ = p::U::A;
    let b = [1u8, 2];
    assert!(p::M::from_slice(&b).is_ok());
}
""", {"p": proto(structs=[struct("D", fld("w", "unsigned", 8), fld("k", "unsigned", 8)),
        struct("C", fld("n", "unsigned", 8)),
        '{ name: "E1", fields: [{ name: "d", info: { type: "struct", item_type: "D" } }] }',
        '{ name: "E2", fields: [{ name: "d", info: { type: "struct", item_type: "E1" } }] }',
        '{ name: "E3", fields: [{ name: "d", info: { type: "struct", item_type: "E2" } }] }'],
        unions=['{ name: "U", discriminant: "E3.d.d.d.k", cases: [{ name: "A", case: "2" }] }'],
        messages=[msg("M", item("d", "E3"), m("u", 'type: "union", on: "d", item_type: "U"'))])})

seed("c16-error-kind", "C16", "an output that accepts nothing any more inside a string",
     "the I/O error is reported as a truncated input",
     [(STR, """        out.write_all(input.as_bytes())?;
        out.write_all(&[0x0])?;""", """        out.write_all(input.as_bytes()).map_err(|e| match e.kind() { std::io::ErrorKind::WriteZero => Error::Truncated, _ => e.into() })?;
        out.write_all(&[0x0])?;""")],
     """
use bp3d_proto::message::{Error, WriteTo};
fn main() {
    let mut buf = [0u8; 2];
    assert!(matches!(p::M::write_to(&p::M { s: "hello" }, &mut buf[..]), Err(Error::Io(_))));
}
""", {"p": proto(messages=[msg("M", string("s"))])})

seed("c20-optional-nested", "C20", "a string after an optional message that ends with a payload",
     "only messages that are always there are looked into for payloads",
     [(CM, "                            size: r.size,\n", "                            size: SizeInfo { is_element_dyn_sized: r.size.is_element_dyn_sized && !value.optional.unwrap_or_default(), ..r.size },\n")],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a', messages: [{ name: 'I', fields: [{ name: 'p', info: { type: 'payload' } }] }, { name: 'M', fields: [{ name: 'i', info: { type: 'item', item_type: 'I' }, optional: true }, { name: 's', info: { type: 'string' } }] }] }"]).is_err());
}
""")

seed("c20-same-name", "C20", "an imported union used with a local structure that has the name of the union's discriminant structure",
     "structures are told apart by their name only",
     [(CM, "!Rc::ptr_eq(&r.discriminant.root, v)", "r.discriminant.root.name != v.name")],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a', structs: [{ name: 'D', fields: [{ name: 'k', info: { type: 'unsigned', bits: 8 } }] }], unions: [{ name: 'U', discriminant: 'D.k', cases: [{ name: 'A', case: '1' }] }] }",
        "{ name: 'b', imports: [{ protocol: 'a', type: 'U' }], structs: [{ name: 'D', fields: [{ name: 'w', info: { type: 'unsigned', bits: 16 } }, { name: 'k', info: { type: 'unsigned', bits: 8 } }] }], messages: [{ name: 'M', fields: [{ name: 'd', info: { type: 'item', item_type: 'D' } }, { name: 'u', info: { type: 'union', on: 'd', item_type: 'U' } }] }] }"]).is_err());
}
""", extra=True)

seed("c24-lower-module", "C24", "a protocol whose name has upper case letters",
     "the module of the entry file is in lower case",
     [(RMOD, 'format!("pub mod {} {{\\n", proto_name)', 'format!("pub mod {} {{\\n", proto_name.to_ascii_lowercase())')],
     COMPILE + """
fn main() {
    let d = out(load(&["{ name: 'MixedCase', enums: [{ name: 'E', variants: { A: 1 } }] }"]).unwrap(), "o");
    let found = std::fs::read_dir(d.join("MixedCase")).unwrap().chain(std::fs::read_dir(&d).unwrap()).filter_map(|e| std::fs::read_to_string(e.unwrap().path()).ok()).any(|t| t.contains("pub mod MixedCase {"));
    assert!(found);
}
""")

seed("c15-short-buffer", "C15", "an array built over a buffer that is longer than its items",
     "the buffer is accepted although its length is not the item count times the item size",
     [(MARR, "Some(data.as_ref().len()) == len.checked_mul(Item::SIZE)", "len.checked_mul(Item::SIZE).is_some_and(|v| v <= data.as_ref().len() && data.as_ref().len() - v < Item::SIZE)")],
     """
use bp3d_proto::message::util::Array;
use bp3d_proto::message::util::ValueLE;
fn main() {
    let b = [0u8; 7];
    assert!(Array::<_, ValueLE<u8>, p::Pair<&[u8]>>::from_parts(&b[..], 2).is_none());
}
""", {"p": proto(structs=[PAIR])}, extra=True)

seed("c12-second-iter", "C12", "iterating with offsets a list with an item that cannot be read",
     "a broken item is skipped when iterating with offsets",
     [(LIST, """            return None;
        }
        let msg = match Item::from_slice_with_offsets(&self.data[..]) {""", """            return None;
        }
        if self.len > 1 && self.data.is_empty() {
            self.len = 0;
            return None;
        }
        let msg = match Item::from_slice_with_offsets(&self.data[..]) {""")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let m = p::M::from_slice(&[3, 1]).unwrap().into_inner();
    assert_eq!(m.l.iter().count(), m.l.iter_offsets().count());
}
""", {"p": proto(structs=[U8], messages=[msg("I", item("v", "U8")), msg("M", lst("l", "I", 10))])}, also=["C11", "C14"], extra=True)

seed("c07-last-index", "C07", "reading an item at an index just behind the last item",
     "the index wraps to an empty item instead of being refused",
     [(ARR, "        C::read::<Item>(&self.buffer.as_ref()[pos..end])", "        let buffer = self.buffer.as_ref();\n        C::read::<Item>(&buffer[pos..end.min(buffer.len())])")],
     """
fn main() {
    let b = [1u8; 6];
    let s = p::S::new(&b[..]);
    assert!(std::panic::catch_unwind(|| s.get_a().get_raw(2)).is_err());
}
""", {"p": proto(structs=[struct("S", fld("a", "unsigned", 24, "array_len: 2"))])})

seed("c20-wide-boolean", "C20", "a boolean of more than 64 bits",
     "the width of a boolean is not limited",
     [(CS, "        if bit_size == 0 || bit_size > 64 {\n", "        if bit_size == 0 || (bit_size > 64 && ty != SimpleType::Boolean) {\n")],
     COMPILE + """
fn main() {
    let r = std::panic::catch_unwind(|| load(&["{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'boolean', bits: 72 } }] }] }"]).is_err());
    assert!(matches!(r, Ok(true)));
}
""", extra=True)
