"""More planted bugs (see seeds.py). No check reads this."""
from seeds import *
from seeds import SEEDS as _OLD
IFACE = "compiler/src/interface.rs"
GMOD = "compiler/src/gen/mod.rs"
RMOD = "compiler/src/gen/rust/mod.rs"
RUTIL = "compiler/src/gen/rust/util.rs"
BSTRUCT = "compiler/src/gen/base/structure.rs"
BREAD = "compiler/src/gen/base/message_from_slice.rs"
BMSG = "compiler/src/gen/base/message.rs"
OFFS = "compiler/src/gen/rust/message_offsets.rs"
RUNION = "compiler/src/gen/rust/union.rs"
TPL = "compiler/src/gen/template.rs"
CUTIL = "compiler/src/compiler/util.rs"
SOLVER = "compiler/src/util.rs"
BUILD = "compiler/src/build_script.rs"
ENUM = "compiler/src/compiler/enum.rs"

seed("c04-signed-24", "C04", "a negative value in a signed field of 24, 40, 48 or 56 bits",
     "signed fields whose width is a multiple of 8 are never sign extended",
     [(CS, "if ty == SimpleType::Signed && bit_size != 8 && bit_size != 16 && bit_size != 32 && bit_size != 64 {",
       "if ty == SimpleType::Signed && bit_size % 8 != 0 {")],
     """
fn main() {
    let buf = [0xffu8; 3];
    assert_eq!(p::S::new(&buf[..]).get_v(), -1);
}
""", {"p": proto(structs=[struct("S", fld("v", "signed", 24))])})

seed("c05-digits", "C05", "a float range whose step is small: many bits over a narrow range",
     "the factor is written into the generated code with 9 decimals only",
     [(BSTRUCT, """.var("a", format!("{:?}", a))""", """.var("a", format!("{:.10}", a))""")],
     """
fn main() {
    let buf = [0xffu8; 4];
    assert!((p::S::new(&buf[..]).get_v() - 1.0).abs() < 1e-6);
}
""", {"p": proto(structs=[struct("S", fld("v", "float", 32, 'view: { type: "float-range", min: 0.0, max: 1.0 }'))])})

seed("c07-item-width", "C07", "an array of items of 40, 48 or 56 bits",
     "the width of an item above 32 bits is rounded up to 64",
     [(CS, "        self.loc.bit_size / self.array_len\n", "        match self.loc.bit_size / self.array_len {\n            v if v > 32 => 64,\n            v => v\n        }\n")],
     """
fn main() {
    let buf = [1u8, 0, 0, 0, 0, 2, 0, 0, 0, 0, 3, 0, 0, 0, 0];
    assert_eq!(p::S::new(&buf[..]).get_a().get_raw(1), 2);
}
""", {"p": proto(structs=[struct("S", fld("a", "unsigned", 40, "array_len: 3"))])})

seed("c12-offsets-optional", "C12", "decoding with offsets when an optional message is absent",
     "the offsets of an absent message exist (all zero)",
     [(COMMON, "                Ok(Message::new(1, (None, None)))", "                Ok(Message::new(1, T::from_slice_with_offsets(&[]).map(|v| v.into_inner()).map(|(_, o)| (None, Some(o))).unwrap_or((None, None))))")],
     """
use bp3d_proto::message::FromSliceWithOffsets;
fn main() {
    let (_, o) = p::M::from_slice_with_offsets(&[0]).unwrap().into_inner();
    assert!(o.e_offsets.is_none());
}
""", {"p": proto(structs=[PAIR], messages=[msg("E", m("d", 'type: "payload"')), msg("M", item("e", "E", True))])})

seed("c13-case-fold", "C13", "two discriminant fields of the same structure whose names differ in case only",
     "the union follows the first of them",
     [(CM, "find_map(|(k, v)| if v.name == on {", "find_map(|(k, v)| if v.name.eq_ignore_ascii_case(&on) {")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let r = p::M::from_slice(&[1, 0, 2, 0, 9, 9]).unwrap().into_inner();
    assert!(r.u.as_b().is_some());
}
""", {"p": proto(structs=[struct("D", fld("k", "unsigned", 8), fld("x", "unsigned", 8)), PAIR, struct("Q", fld("a", "unsigned", 8), fld("b", "unsigned", 8))],
                 unions=['{ name: "U", discriminant: "D.k", cases: [{ name: "A", case: "1", item_type: "Pair" }, { name: "B", case: "2", item_type: "Q" }] }'],
                 messages=[msg("M", item("d", "D"), item("D", "D"), m("u", 'type: "union", on: "D", item_type: "U"'))])})

seed("c16-marker", "C16", "an output that accepts nothing or is interrupted exactly at the marker of a present optional field",
     "the marker may be lost while success is reported",
     [(COMMON, "                out.write_all(&[0x1])?;", "                let _ = out.write(&[0x1])?;")],
     """
use bp3d_proto::message::WriteTo;
fn main() {
    let mut buf = [0u8; 0];
    assert!(p::M::write_to(&p::M { s: Some("") , }, &mut buf[..]).is_err());
    struct Full(bool, Vec<u8>);
    impl std::io::Write for Full {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.0 { self.0 = false; return Err(std::io::ErrorKind::Interrupted.into()); }
            self.1.extend(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let mut o = Full(true, Vec::new());
    p::M::write_to(&p::M { s: Some("a") }, &mut o).unwrap();
    assert_eq!(o.1, [1, b'a', 0]);
}
""", {"p": proto(messages=[msg("M", string("s", None, True))])})

seed("c18-bool-marker", "C18", "an optional field whose marker byte is neither 0 nor 1",
     "the marker byte is reinterpreted as a bool: undefined behaviour for 2 to 255",
     [(COMMON, "            let b = slice[0] > 0;", (0, "            let b: bool = unsafe { std::mem::transmute(slice[0]) };"))],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    for k in 1..=255u8 {
        let input = [k, b'a', 0];
        let _ = p::M::from_slice(&input).map(|v| v.into_inner().s.map(|s| s.len()));
    }
}
""", {"p": proto(messages=[msg("M", string("s", None, True))])}, cargo=["+nightly", "miri", "run"])

seed("c18-trusted-len", "C18", "iterating an array that was filled item by item through a mutable slice",
     "the iterator trusts the count instead of the buffer: out-of-bounds read",
     [(MARR, "            data: self.data.as_ref().chunks(Item::SIZE),", "            data: unsafe { std::slice::from_raw_parts(self.data.as_ref().as_ptr(), self.len * Item::SIZE) }.chunks(Item::SIZE),")],
     """
fn main() {
    let mut buf = vec![0u8; 2].into_boxed_slice();
    let mut a = p::MA::new(&mut buf[..]);
    let b = [7u8, 8];
    a.write_items(&[p::Q::from(&b[..])]).unwrap();
    let v: Vec<u8> = a.iter().map(|v| v.get_raw_a()).collect();
    std::hint::black_box(v);
}
""", {"p": proto(structs=[struct("Q", fld("a", "unsigned", 8), fld("b", "unsigned", 8))], messages=[msg("M", lst("a", "Q", 10))])},
     cargo=["+nightly", "run", "--target", "x86_64-unknown-linux-gnu"], env={"RUSTFLAGS": "-Zsanitizer=address"})

seed("c20-enum-signed", "C20", "an enum view on a signed field",
     "the view is accepted on signed integers",
     [(CS, "                if ty != SimpleType::Unsigned {", "                if ty != SimpleType::Unsigned && ty != SimpleType::Signed {")],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a', enums: [{ name: 'E', variants: { A: 1 } }], structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'signed', bits: 8 }, view: { type: 'enum', name: 'E' } }] }] }"]).is_err());
}
""")

seed("c22-variant-order", "C22", "an enum with variants in several orders of declaration",
     "variants are emitted in the order of a hash map",
     [("compiler/src/gen/rust/enum.rs", "    let mut code = e.variants.iter().map(|(k, v)|", "    let mut code = e.variants_map.iter().map(|(k, v)|")],
     COMPILE + """
fn main() {
    let t = "{ name: 'a', enums: [{ name: 'E', variants: { A: 1, B: 2, C: 3, D: 4, F: 5, G: 6 } }] }";
    let first = std::fs::read(out(load(&[t]).unwrap(), "o0").join("a/enums.rs")).unwrap();
    for i in 1..8 {
        let v = std::fs::read(out(load(&[t]).unwrap(), &format!("o{}", i)).join("a/enums.rs")).unwrap();
        assert!(v == first);
    }
}
""")

seed("c23-shadowed", "C23", "a local type whose name ends with the name of an imported type",
     "an imported type shadows by suffix",
     [(CUTIL, "        match self.type_path_by_name.get(item_type) {\n            None => item_type,", "        match self.type_path_by_name.get(item_type).or_else(|| self.type_path_by_name.get(item_type.trim_start_matches(\"My\"))) {\n            None => item_type,")],
     COMPILE + """
fn main() {
    let d = out(load(&["{ name: 'a', enums: [{ name: 'E', variants: { A: 1 } }] }",
        "{ name: 'b', imports: [{ protocol: 'a', type: 'E' }], enums: [{ name: 'MyE', variants: { B: 1 } }], structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 }, view: { type: 'enum', name: 'MyE' } }] }] }"]).unwrap(), "o");
    assert!(!std::fs::read_to_string(d.join("b/structures.rs")).unwrap().contains("crate::m0::E"));
}
""")

seed("c24-stale-module", "C24", "generating fewer parts than an earlier generation in the same directory",
     "a part which was switched off is still included when its file is there",
     [(IFACE, "            let umbrella = T::generate_umbrella(&name, iter.iter().map(|v| &**v))", "            let old = out_path.join(\"unions.rs\");\n            let old = if !self.use_unions && old.exists() { Some(old) } else { None };\n            let umbrella = T::generate_umbrella(&name, iter.iter().chain(old.iter()).map(|v| &**v))")],
     COMPILE + """
fn main() {
    let t = "{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 } }] }], unions: [{ name: 'U', discriminant: 'S.v', cases: [{ name: 'X', case: '1' }] }] }";
    out(load(&[t]).unwrap(), "o");
    let d = out(load(&[t]).unwrap().set_use_unions(false), "o");
    assert!(!std::fs::read_to_string(d.join("a/umbrella.rs")).unwrap().contains("unions.rs"));
}
""")

seed("c25-colon", "C25", "a case function on a variable whose value is empty",
     "a variable with an empty value keeps the value of the template",
     [(TPL, "    pub fn var(&mut self, key: &'variable str, value: impl Into<Cow<'variable, str>>) -> &mut Self {\n        self.variables.insert(key, value.into());\n        self\n    }\n\n    pub fn var_d(&mut self, key: &'variable str, value: impl ToString) -> &mut Self {\n        self.variables.insert(key, value.to_string().into());\n        self\n    }\n\n    pub fn render_to_var",
       "    pub fn var(&mut self, key: &'variable str, value: impl Into<Cow<'variable, str>>) -> &mut Self {\n        let value = value.into();\n        if !(value.is_empty() && self.variables.contains_key(key)) {\n            self.variables.insert(key, value);\n        }\n        self\n    }\n\n    pub fn var_d(&mut self, key: &'variable str, value: impl ToString) -> &mut Self {\n        self.variables.insert(key, value.to_string().into());\n        self\n    }\n\n    pub fn render_to_var")],
     """
use bp3d_protoc::gen::template::Template;
fn main() {
    let mut t = Template::compile(b"#fragment push a\\n<{v}>\\n#fragment pop\\n").unwrap();
    t.var("v", "x");
    let mut s = t.scope();
    s.var("v", "");
    assert_eq!(s.render("", &["a"]).unwrap(), "<>\\n");
}
""")

seed("c25-nested-prefix", "C25", "rendering several fragments of a path when one has the same name at the top",
     "a fragment missing under the path is looked for at the top",
     [(TPL, "let fragment = self.fragments.get(&*name).ok_or_else(|| Error::FragmentNotFound(String::from(&*name)))?;", "let fragment = self.fragments.get(&*name).or_else(|| self.fragments.get(name.rsplit('.').next()?)).ok_or_else(|| Error::FragmentNotFound(String::from(&*name)))?;")],
     """
use bp3d_protoc::gen::template::Template;
fn main() {
    let t = Template::compile(b"#fragment push a\\nx\\n#fragment pop\\n#fragment push b\\ny\\n#fragment pop\\n").unwrap();
    assert!(t.render("b", &["a"]).is_err());
}
""")

seed("c02-straddle", "C02", "writing a field that straddles one more byte than its type has",
     "the aligned writer is used, so the part of the field in the last byte is lost",
     [(RUTIL, """        match raw_field_byte_size != field.loc.byte_size {
            true => "write_unaligned",""", """        match raw_field_byte_size > field.loc.byte_size {
            true => "write_unaligned",""")],
     """
fn main() {
    let mut buf = [0u8; 2];
    p::S::new(&mut buf[..]).set_raw_b(3);
    assert_eq!(buf, [0x80, 0x01]);
}
""", {"p": proto(structs=[struct("S", fld("a", "unsigned", 7), fld("b", "unsigned", 2), fld("c", "unsigned", 7))])})

seed("c04-signed-63", "C04", "a signed field of 63 bits",
     "the largest positive value is one bit short",
     [(CS, "                    let max_value = 1 << (bit_size - 1);", "                    let max_value = 1 << (bit_size - 1).min(61);")],
     """
fn main() {
    let buf = [0xffu8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x3f];
    assert_eq!(p::S::new(&buf[..]).get_v(), (1 << 62) - 1);
}
""", {"p": proto(structs=[struct("S", fld("v", "signed", 63))])})

seed("c06-16-bits", "C06", "writing a variant above 65535",
     "variants are written through 16 bits",
     [(BSTRUCT, """            .var_d("enum_largest", e.largest).render("setters", &["view_enum"]).unwrap(),""",
       """            .var("raw_type", if e.largest > 65535 { "u16 as _" } else { "_" }).render("setters", &["view_enum"]).unwrap(),""")],
     """
fn main() {
    let mut buf = [0u8; 4];
    p::S::new(&mut buf[..]).set_v(p::E::B);
    assert_eq!(buf, 70000u32.to_le_bytes());
}
""", {"p": proto(enums=['{ name: "E", variants: { A: 0, B: 70000 } }'],
                 structs=[struct("S", fld("v", "unsigned", 32, 'view: { type: "enum", name: "E" }'))])})

seed("c08-empty-nested", "C08", "an empty list of messages inside a list item, with a length prefix of 2 bytes or more, followed by another item",
     "the size of an empty list is one byte whatever its prefix",
     [(LIST, "Ok(Message::new(total_size + control_size, unsafe", "Ok(Message::new(total_size + if len == 0 { 1 } else { control_size }, unsafe")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let r = p::M::from_slice(&[2, 0, 0, 1, 0, 7]).unwrap().into_inner();
    let v: Vec<usize> = r.l.iter().map(|v| v.unwrap().l.len()).collect();
    assert_eq!(v, [0, 1]);
}
""", {"p": proto(structs=[U8], messages=[msg("I", item("v", "U8")), msg("L", lst("l", "I", 1000)), msg("M", lst("l", "L", 10))])}, also=["C14"])

seed("c11-padding", "C11", "an unbounded string followed by bytes that are all zero",
     "zero bytes after the string count as part of it",
     [(STR, "        Ok(Message::new(string.len() + 1, string))", "        let rest = &slice[string.len()..];\n        Ok(Message::new(string.len() + rest.iter().all(|v| *v == 0).then_some(rest.len()).unwrap_or(1), string))")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let r = p::M::from_slice(b"abc\\0\\0").unwrap();
    assert_eq!(r.size(), 4);
}
""", {"p": proto(messages=[msg("M", string("s"))])})

seed("c12-empty-nested", "C12", "decoding with offsets an optional message that takes no bytes, followed by another field",
     "a present message counts for at least one byte",
     [(COMMON, "                let msg = T::from_slice_with_offsets(&slice[1..])?;\n                let size = msg.size();", "                let msg = T::from_slice_with_offsets(&slice[1..])?;\n                let size = msg.size().max(1);")],
     """
use bp3d_proto::message::FromSliceWithOffsets;
fn main() {
    let (v, _) = p::M::from_slice_with_offsets(&[1, b'x', 0]).unwrap().into_inner();
    assert_eq!(v.s, "x");
}
""", {"p": proto(messages=[msg("E", m("d", 'type: "payload"')), msg("F"), msg("M", item("e", "F", True), string("s"))])})

seed("c14-silent-end", "C14", "iterating a list that is truncated exactly between two items",
     "iteration ends without an error",
     [(LIST, "        if self.len == 0 {", (0, "        if self.len == 0 || self.data.is_empty() {"))],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let r = p::M::from_slice(&[2, 7]).unwrap().into_inner();
    assert_eq!(r.l.iter().count(), 2);
}
""", {"p": proto(structs=[U8], messages=[msg("I", item("v", "U8")), msg("M", lst("l", "I", 10))])}, also=["C10", "C11"])

seed("c20-union-payload", "C20", "a string after a union of which only some cases end with a payload",
     "a union is treated like a payload only if all its cases are",
     [(CU, "        let is_element_dyn_sized = cases.iter().any(", "        let is_element_dyn_sized = cases.iter().all(")],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a', messages: [{ name: 'N', fields: [{ name: 'p', info: { type: 'payload' } }] }] }",
        "{ name: 'b', imports: [{ protocol: 'a', type: 'N' }], structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 } }, { name: 'w', info: { type: 'unsigned', bits: 8 } }] }], unions: [{ name: 'U', discriminant: 'S.v', cases: [{ name: 'X', case: '1', item_type: 'N' }, { name: 'Y', case: '2' }] }], messages: [{ name: 'M', fields: [{ name: 's', info: { type: 'item', item_type: 'S' } }, { name: 'u', info: { type: 'union', on: 's', item_type: 'U' } }, { name: 't', info: { type: 'string' } }] }] }"]).is_err());
}
""")

seed("c01-far-field", "C01", "a field that starts after the first 65536 bytes of its structure",
     "byte offsets are kept in 16 bits",
     [(CS, "        let byte_offset = bit_offset / 8;", "        let byte_offset = (bit_offset / 8) as u16 as usize;")],
     """
fn main() {
    let mut buf = vec![0u8; 65537];
    buf[65536] = 7;
    assert_eq!(p::S::new(&buf[..]).get_raw_b(), 7);
}
""", {"p": proto(structs=[struct("S", fld("a", "unsigned", 8, "array_len: 65536"), fld("b", "unsigned", 8))])}, also=["C02"])

seed("c10-prealloc", "C10", "a list of messages inside a list item with a huge length prefix",
     "memory for as many items as the prefix claims is reserved before reading any",
     [(LIST, "        let mut total_size: usize = 0;", "        let (mut total_size, mut sizes) = (0usize, Vec::<usize>::with_capacity(len));"),
      (LIST, "            total_size += msg.size();\n        }\n", "            sizes.push(msg.size());\n            total_size += sizes[sizes.len() - 1];\n        }\n")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let input = [1u8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff];
    let r = p::M::from_slice(&input).unwrap().into_inner();
    assert!(r.l.iter().next().unwrap().is_err());
}
""", {"p": proto(structs=[U8], messages=[msg("I", item("v", "U8")), msg("L", lst("l", "I", 5000000000)), msg("M", lst("l", "L", 10))])})

seed("c19-unknown-union", "C19", "a message field of a union that does not exist",
     "an undefined union panics instead of being reported",
     [(CM, "                let r = proto.unions_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;", "                let r = &proto.unions_by_name[&item_type];")],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 8 } }, { name: 'w', info: { type: 'unsigned', bits: 8 } }] }], messages: [{ name: 'M', fields: [{ name: 's', info: { type: 'item', item_type: 'S' } }, { name: 'u', info: { type: 'union', on: 's', item_type: 'U' } }] }] }"]).is_err());
}
""", also=["C20"])

seed("c21-list-lifetime", "C21", "a message whose only borrowed field is a list of messages that borrow nothing",
     "the generated message lacks its lifetime parameter and does not compile",
     [("compiler/src/gen/rust/util.rs", "            FieldType::List(_) => true,\n", "            FieldType::List(v) => Self::from_message(&v.item_type).has_lifetime,\n")],
     """
fn main() {
    let m: Option<p::M> = None;
    assert!(m.is_none());
}
""", {"p": proto(structs=[U8], messages=[msg("I", item("v", "U8")), msg("M", lst("l", "I", 10))])})

seed("c24-ignored-failure", "C24", "a directory stands where a file has to be written",
     "some failures to write a file are ignored",
     [(IFACE, "                    Err(e) => Some(Err(e))\n", "                    Err(e) => match e.kind() {\n                        std::io::ErrorKind::IsADirectory => None,\n                        _ => Some(Err(e))\n                    }\n")],
     COMPILE + """
fn main() {
    let t = "{ name: 'a', enums: [{ name: 'E', variants: { A: 1 } }] }";
    std::fs::create_dir_all(dir().join("o/a/enums.rs")).unwrap();
    assert!(load(&[t]).unwrap().generate::<GeneratorRust>(dir().join("o")).is_err());
}
""")
