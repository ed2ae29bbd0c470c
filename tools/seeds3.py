"""Still more planted bugs (see seeds.py). No check reads this."""
from seeds2 import *
MACROS = "runtime/src/message/macros.rs"
RMSG = "compiler/src/gen/rust/message.rs"
RENUM = "compiler/src/gen/rust/enum.rs"
REC = struct("Rec", fld("a", "unsigned", 16), fld("b", "unsigned", 8))

seed("c07-many-items", "C07", "iterating an array field of more than 65535 items",
     "iteration stops after 65535 items",
     [(ARR, "        self.buffer.as_ref().chunks(byte_size).map(", "        self.buffer.as_ref().chunks(byte_size).take(u16::MAX as usize).map(")],
     """
fn main() {
    let buf = vec![7u8; 70000];
    assert_eq!(p::S::new(&buf[..]).get_a().iter_raw().count(), 70000);
}
""", {"p": proto(structs=[struct("S", fld("a", "unsigned", 8, "array_len: 70000"))])})

seed("c14-big-batch", "C14", "appending a batch of more than 1024 items at once",
     "the items after the first 1024 of a batch are dropped",
     [(LISTB, "                for item in items {", "                for item in items.iter().take(1024) {")],
     """
fn main() {
    use bp3d_proto::message::util::{Array, ValueLE};
    let bytes = [0u8; 3];
    let items: Vec<p::Rec<&[u8]>> = (0..1500).map(|_| p::Rec::new(&bytes[..])).collect();
    let mut l = Array::<Vec<u8>, ValueLE<u16>, p::Rec<&[u8]>>::new(Vec::new());
    l.write_items(&items).unwrap();
    assert_eq!(l.len(), 1500);
}
""", {"p": proto(structs=[REC])}, also=["C15"])

seed("c14-batch-rollback", "C14", "a batch of items of which one after the first cannot be written",
     "the count is set back to what it was before the batch, but the items already written stay in the list",
     [(LISTB, "                    self.write_item(item)?;\n                }", "                    if let Err(e) = self.write_item(item) {\n                        self.len = before;\n                        return Err(e);\n                    }\n                }"),
      (LISTB, "                for item in items {", "                let before = self.len;\n                for item in items {")],
     """
fn main() {
    use bp3d_proto::message::{FromSlice, WriteTo, util::{List, ValueLE}};
    let mut l = List::<Vec<u8>, ValueLE<u8>, p::I>::new(Vec::new());
    assert!(l.write_items(&[p::I { s: "first" }, p::I { s: "nul \\0" }]).is_err());
    l.write_item(&p::I { s: "second" }).unwrap();
    let m = p::M { l: l.to_ref() };
    let mut out = Vec::new();
    p::M::write_to(&m, &mut out).unwrap();
    let r = p::M::from_slice(&out).unwrap().into_inner();
    let last = r.l.iter().map(|v| v.unwrap().s).last();
    assert_eq!(last, Some("second"));
}
""", {"p": proto(messages=[msg("I", string("s")), msg("M", lst("l", "I", 200))])})

seed("c22-alongside", "C22", "two protocols with enums of the same name, generated by the same process",
     "the code of an enum depends on which other protocols were generated before",
     [(RENUM, '    template.var("variants", code.join("")).render("", &["enum"]).unwrap()',
       """    let variants = code.join("");
    thread_local! {
        static DONE: std::cell::RefCell<std::collections::HashMap<(String, usize), String>> = Default::default();
    }
    DONE.with(|d| d.borrow_mut().entry((e.name.clone(), e.variants.len()))
        .or_insert_with(|| template.var("variants", variants).render("", &["enum"]).unwrap()).clone())""")],
     COMPILE + """
fn main() {
    let t = |n: &str| format!("{{ name: 'a', enums: [{{ name: 'E', variants: {{ {}: 1, B: 2 }} }}] }}", n);
    out(load(&[&t("First")]).unwrap(), "one");
    let o = out(load(&[&t("Second")]).unwrap(), "two");
    assert!(std::fs::read_to_string(o.join("a/enums.rs")).unwrap().contains("Second"));
}
""")

seed("c23-array-alias", "C23", "a message with a list of structures imported from another protocol",
     "the alias of the list names the type as if it were local",
     [(RMSG, 'FieldType::Array(v) => Some(template.var("item_type", type_path_by_name.get(&v.item_type.name))', 'FieldType::Array(v) => Some(template.var("item_type", &*v.item_type.name)')],
     COMPILE + """
fn main() {
    let o = out(load(&["{ name: 'a', structs: [{ name: 'Rec', fields: [{ name: 'v', info: { type: 'unsigned', bits: 24 } }] }] }",
        "{ name: 'b', imports: [{ protocol: 'a', type: 'Rec' }], messages: [{ name: 'M', fields: [{ name: 'l', info: { type: 'list', max_len: 10, item_type: 'Rec' } }] }] }"]).unwrap(), "o");
    let t = std::fs::read_to_string(o.join("b/messages.rs")).unwrap().replace(' ', "").replace('\\n', "");
    assert_eq!(t.matches("Rec").count(), t.matches("crate::m0::Rec").count());
}
""")

seed("c16-interrupted", "C16", "an output that is interrupted in the middle of the items of a list",
     "an interruption is reported as a failure of the write",
     [(LISTB, "                out.write_all(input.data.as_ref())?;\n", "                let mut data = input.data.as_ref();\n                while !data.is_empty() {\n                    let n = out.write(data)?;\n                    if n == 0 {\n                        return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into());\n                    }\n                    data = &data[n..];\n                }\n")],
     """
use std::io::Write;
struct Slow(Vec<u8>, bool);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = !self.1;
        if self.1 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(1);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    use bp3d_proto::message::{WriteTo, util::{Array, ValueLE}};
    let l = Array::<&[u8], ValueLE<u8>, p::Rec<&[u8]>>::from_parts(&[1, 2, 3][..], 1).unwrap();
    let mut out = Slow(Vec::new(), false);
    p::M::write_to(&p::M { l }, &mut out).unwrap();
    assert_eq!(out.0, [1, 1, 2, 3]);
}
""", {"p": proto(structs=[REC], messages=[msg("M", lst("l", "Rec", 200))])})

seed("c18-uninit", "C18", "writing a little-endian field of 3, 5, 6 or 7 bytes, under an interpreter: the behaviour is undefined, the result is right",
     "a scratch array is declared initialised before its contents are",
     [(BY, "        let mut data = [0; 8];\n        data[..buffer.len()].copy_from_slice(buffer);\n        Self::write_aligned", "        let mut data: [u8; 8] = std::mem::MaybeUninit::<[u8; 8]>::uninit().assume_init();\n        data[..buffer.len()].copy_from_slice(buffer);\n        Self::write_aligned")],
     """
fn main() {
    let mut buf = [0u8; 3];
    p::S::new(&mut buf[..]).set_raw_v(0x010203);
    assert_eq!(buf, [3, 2, 1]);
}
""", {"p": proto(structs=[struct("S", fld("v", "unsigned", 24))])}, cargo=["+nightly", "miri", "run"])

seed("c22-kept-entry", "C22", "an output directory that holds the entry file of an earlier generation",
     "an existing entry file is kept, so the result depends on what was there",
     [(IFACE, "                std::fs::write(&umbrella_path, umbrella).map_err(Error::Io)?;", "                if !umbrella_path.exists() {\n                    std::fs::write(&umbrella_path, umbrella).map_err(Error::Io)?;\n                }")],
     COMPILE + """
fn main() {
    let t = "{ name: 'a', enums: [{ name: 'E', variants: { A: 1 } }], structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 24 } }] }] }";
    let o = out(load(&[t]).unwrap().set_use_structs(false), "o");
    out(load(&[t]).unwrap(), "o");
    assert!(std::fs::read_to_string(o.join("a/umbrella.rs")).unwrap().contains("structures.rs"));
}
""", also=["C24"])

seed("c03-inherited-order", "C03", "a protocol without a declared order that imports from a big-endian one",
     "an undeclared byte order is taken over from the first import",
     [(CP, "            endianness: value.endianness.unwrap_or(Endianness::Little),", """            endianness: value.endianness.unwrap_or_else(|| value.imports.iter().flatten()
                .find_map(|v| solver.get_protocol_by_name(&v.protocol)).map(|v| v.endianness).unwrap_or(Endianness::Little)),""")],
     COMPILE + """
fn main() {
    let o = out(load(&["{ name: 'a', endianness: 'big', enums: [{ name: 'E', variants: { A: 1 } }] }",
        "{ name: 'b', imports: [{ protocol: 'a', type: 'E' }], structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 16 } }] }] }"]).unwrap(), "o");
    let t = std::fs::read_to_string(o.join("b/structures.rs")).unwrap();
    assert!(t.contains("CodecLE") && !t.contains("CodecBE"));
}
""", extra=True)

seed("c15-wrapper-batch", "C15", "appending more than 255 structures at once through the wrapper type of an array",
     "the wrapper appends the first 255 only",
     [(MACROS, "                self.0.write_items(items)", "                self.0.write_items(&items[..items.len().min(u8::MAX as usize)])")],
     """
bp3d_proto::generate_array_wrapper!(Recs, p::Rec, bp3d_proto::message::util::ValueLE<u16>);
fn main() {
    let bytes = [0u8; 3];
    let items: Vec<p::Rec<&[u8]>> = (0..300).map(|_| p::Rec::new(&bytes[..])).collect();
    let mut l = Recs::new(Vec::new());
    l.write_items(&items).unwrap();
    assert_eq!(l.len(), 300);
}
""", {"p": proto(structs=[REC])})

seed("c20-undefined-content", "C20", "a union case whose content is of an undefined type",
     "the case is treated as one without content",
     [(CU, "        let item_type = value.item_type.map(|v| Referenced::lookup(proto, &v).ok_or_else(|| Error::UndefinedReference(v)))\n            .transpose()?;", "        let item_type = value.item_type.and_then(|v| Referenced::lookup(proto, &v));")],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 } }] }], unions: [{ name: 'U', discriminant: 'S.v', cases: [{ name: 'A', case: '1', item_type: 'Nope' }] }] }"]).is_err());
}
""")

seed("c20-optional-string", "C20", "an optional string after a payload",
     "only fields that are always there are counted as following a payload",
     [(CM, "            if dyn_sized_elem_count > 0 && (field.size.is_dyn_sized || field.size.is_element_dyn_sized) {", "            if dyn_sized_elem_count > 0 && !field.optional && (field.size.is_dyn_sized || field.size.is_element_dyn_sized) {")],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a', messages: [{ name: 'M', fields: [{ name: 'p', info: { type: 'payload' } }, { name: 's', info: { type: 'string' }, optional: true }] }] }"]).is_err());
}
""")

seed("c25-repeated", "C25", "rendering several fragments at once of which two give the same text",
     "a fragment that renders to the same text as an earlier one is left out",
     [(TPL, "            rendered.push(sub_rendered);", "            if !rendered.contains(&sub_rendered) {\n                rendered.push(sub_rendered);\n            }")],
     """
use bp3d_protoc::gen::template::Template;
fn main() {
    let t = Template::compile(b"#fragment push a\\nx\\n#fragment pop\\n#fragment push b\\nx\\n#fragment pop\\n").unwrap();
    assert_eq!(t.render("", &["a", "b"]).unwrap(), "x\\nx\\n");
}
""")

seed("c09-32-bit-prefix", "C09", "a declared maximum length of exactly 2^32 - 1",
     "the prefix takes 8 bytes where 4 would do",
     [(CS, "if max_value > u32::MAX as usize {", "if max_value >= u32::MAX as usize {")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let r = p::M::from_slice(&[1, 0, 0, 0, b'x']).unwrap();
    assert_eq!(r.into_inner().s, "x");
}
""", {"p": proto(messages=[msg("M", string("s", 0xFFFFFFFF))])})

seed("c01-nested-tail", "C01", "fields after a nested structure whose bits do not fill its last byte",
     "the next field starts at the next whole byte",
     [(CS, "                    loc: Location::from_model(r.bit_size, last_bit_offset)\n                }), next_bit_offset))", "                    loc: Location::from_model(r.bit_size, last_bit_offset)\n                }), next_bit_offset.max(last_bit_offset + if r.bit_size > 32 { r.byte_size * 8 } else { 0 })))")],
     """
fn main() {
    let mut buf = [0u8; 6];
    buf[4] = 0b1110_0000;
    assert_eq!(p::S::new(&buf[..]).get_raw_b(), 7);
}
""", {"p": proto(structs=[struct("In", fld("a", "unsigned", 37)), '{ name: "S", fields: [{ name: "n", info: { type: "struct", item_type: "In" } }, { name: "b", info: { type: "unsigned", bits: 3 } }] }'])}, extra=True)
