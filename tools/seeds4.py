"""A last set of planted bugs (see seeds.py). No check reads this."""
from seeds3 import *

seed("c06-wide-values", "C06", "a variant whose value needs more than 32 bits",
     "the generated enum keeps the lower 32 bits of a variant's value, so another value is stored",
     [(RENUM, 'template.scope().var("key", k).var_d("value", v)', 'template.scope().var("key", k).var_d("value", *v as u32)')],
     """
fn main() {
    let mut buf = [0u8; 5];
    p::S::new(&mut buf[..]).set_e(p::E::Far);
    assert_eq!(p::S::new(&buf[..]).get_raw_e(), 0x1_0000_0005);
}
""", {"p": proto(enums=["{ name: 'E', variants: { Near: 1, Far: 4294967301 } }"],
                 structs=[struct("S", fld("e", "unsigned", 40, "view: { type: 'enum', name: 'E' }"))])})

seed("c06-full-range", "C06", "an enum with more than 256 variants",
     "only the first 256 variants are recognised when reading",
     [(BSTRUCT, 'scope.var("variants", variants).render(', 'scope.var("variants", variants.lines().take(256).join("\\n") + "\\n").render(')],
     """
fn main() {
    let bytes = [44u8, 1];
    assert!(p::S::new(&bytes[..]).get_e().is_some());
}
""", {"p": proto(enums=["{ name: 'E', variants: { %s } }" % ", ".join("V%d: %d" % (i, i) for i in range(310))],
                 structs=[struct("S", fld("e", "unsigned", 16, "view: { type: 'enum', name: 'E' }"))])}, extra=True)

seed("c13-wide-case", "C13", "a union case of more than 32 bits, set from a union value",
     "only the lower 32 bits of the case are stored in the discriminant",
     [(RUNION, 'scope.var("name", &case.name).var_d("case", case.case);\n        match &case.item_type {\n            Some(_) => scope.render("setter"', 'scope.var("name", &case.name).var_d("case", case.case as u32);\n        match &case.item_type {\n            Some(_) => scope.render("setter"')],
     """
fn main() {
    let mut buf = [0u8; 5];
    let mut d = p::D::new(&mut buf[..]);
    p::U::B.set_discriminant(&mut d);
    assert_eq!(p::D::new(&buf[..]).get_raw_k(), 0x1_0000_0000);
}
""", {"p": proto(structs=[struct("D", fld("k", "unsigned", 40))], unions=["{ name: 'U', discriminant: 'D.k', cases: [{ name: 'A', case: '5' }, { name: 'B', case: '4294967296' }] }"])})

seed("c17-optional-tail", "C17", "an optional payload that is there but empty, at the end of a message",
     "the empty payload is read back as one that is not there",
     [(COMMON, "            let b = slice[0] > 0;\n            if b {\n                let msg = T::from_slice(&slice[1..])?;", "            let b = slice[0] > 0 && slice.len() > 1;\n            if b {\n                let msg = T::from_slice(&slice[1..])?;")],
     """
use bp3d_proto::message::{FromSlice, WriteTo};
fn main() {
    let mut out = Vec::new();
    p::M::write_to(&p::M { p: Some(&[]) }, &mut out).unwrap();
    assert!(p::M::from_slice(&out).unwrap().into_inner().p.is_some());
}
""", {"p": proto(messages=[msg("M", m("p", "type: 'payload'", True))])}, also=["C08", "C11"])

seed("c12-marker-size", "C12", "an optional field that is absent, decoded with offsets, as the last field of a nested message",
     "an absent field with offsets takes no byte when nothing follows it",
     [(COMMON, "                Ok(Message::new(1, (None, None)))", "                Ok(Message::new(1.min(slice.len() - 1), (None, None)))")],
     """
use bp3d_proto::message::FromSliceWithOffsets;
fn main() {
    let r = p::M::from_slice_with_offsets(&[0]).unwrap();
    assert_eq!(r.size(), 1);
}
""", {"p": proto(messages=[msg("I", string("s")), msg("M", item("i", "I", True))])})

seed("c05-offset-digits", "C05", "a range whose minimum is not a single precision number, with narrow steps",
     "the minimum is rounded to single precision",
     [(CS, "                let b = min;\n", "                let b = min as f32 as f64;\n")],
     """
fn main() {
    let buf = [0u8; 3];
    assert!((p::S::new(&buf[..]).get_f() - 1000000.001).abs() < 1e-6);
}
""", {"p": proto(structs=[struct("S", fld("f", "float", 24, "view: { type: 'float-range', min: 1000000.001, max: 1000001.001 }"))])})

seed("c05-large-multiplier", "C05", "a multiplier whose inverse is tiny",
     "the inverse is cut off at 1e-12, so every written value becomes another one",
     [(CS, "                let a_inv = 1.0 / a;\n                let b_inv = 0.0;", "                let a_inv = (1.0 / a).max(1e-12);\n                let b_inv = 0.0;")],
     """
fn main() {
    let mut buf = [0u8; 2];
    let mut s = p::S::new(&mut buf[..]);
    s.set_f(5e13);
    assert_eq!(s.get_raw_f(), 5);
}
""", {"p": proto(structs=[struct("S", fld("f", "float", 16, "view: { type: 'float-multiplier', multiplier: 10000000000000.0 }"))])})

seed("c19-no-dot", "C19", "a union whose discriminant names a structure but no field",
     "the compiler panics",
     [(CU, '        let mut parts = discriminant.split(".");\n        let name = parts.next().ok_or(Error::InvalidUnionDiscriminant)?;',
       '        let name = &discriminant[..discriminant.find(\'.\').unwrap()];\n        let parts = discriminant[name.len() + 1..].split(".");')],
     COMPILE + """
fn main() {
    assert!(load(&["{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'x', info: { type: 'unsigned', bits: 8 } }] }], unions: [{ name: 'U', discriminant: 'S', cases: [] }] }"]).is_err());
}
""", also=["C20"])

seed("c20-any-discriminant", "C20", "a union field that refers to a field which is not a structure",
     "the mistake is reported as an undefined reference",
     [(CM, "                        _ => return Err(Error::UnionTypeMismatch)\n                    }\n                    _ => return Err(Error::UnionTypeMismatch)", "                        _ => return Err(Error::UnionTypeMismatch)\n                    }\n                    _ => return Err(Error::UndefinedReference(on_field.name.clone()))")],
     COMPILE + """
fn main() {
    let r = load(&["{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'x', info: { type: 'unsigned', bits: 8 } }] }], unions: [{ name: 'U', discriminant: 'S.x', cases: [{ name: 'A', case: '1' }] }], messages: [{ name: 'M', fields: [{ name: 's', info: { type: 'string' } }, { name: 'u', info: { type: 'union', on: 's', item_type: 'U' } }] }] }"]);
    assert!(matches!(r, Err(Error::Compiler(bp3d_protoc::compiler::Error::UnionTypeMismatch))));
}
""")

seed("c23-separator", "C23", "an import solver whose path separator is not ::",
     "paths are always joined by ::",
     [(SOLVER, 'format!("{}{}{}", import_path, self.separator, type_name)', 'format!("{}{}{}", import_path, if self.separator.is_empty() { "" } else { "::" }, type_name)')],
     COMPILE + """
fn main() {
    let mut l = Loader::new();
    let (a, b) = (dir().join("a.json5"), dir().join("b.json5"));
    std::fs::write(&a, "{ name: 'a', structs: [{ name: 'Rec', fields: [{ name: 'v', info: { type: 'unsigned', bits: 24 } }] }] }").unwrap();
    std::fs::write(&b, "{ name: 'b', imports: [{ protocol: 'a', type: 'Rec' }], structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'struct', item_type: 'Rec' } }] }] }").unwrap();
    l.import(&a, "root").unwrap();
    l.load(&b).unwrap();
    let o = out(l.compile(SimpleImportSolver::new(" :: ")).unwrap(), "o");
    assert!(std::fs::read_to_string(o.join("b/structures.rs")).unwrap().contains("root :: Rec"));
}
""")

seed("c24-blank-part", "C24", "a generator which produces a file of one character",
     "a short file is written but left out of the entry file",
     [(GMOD, "            Ok(Some(path))", "            Ok(Some(path).filter(|p| std::fs::metadata(p).map(|m| m.len() > 80).unwrap_or(false)))")],
     COMPILE + """
fn main() {
    let o = out(load(&["{ name: 'a', enums: [{ name: 'E', variants: { A: 1 } }], structs: [{ name: 'S', fields: [] }] }"]).unwrap(), "o");
    let files = std::fs::read_dir(o.join("a")).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).filter(|n| n != "umbrella.rs");
    let entry = std::fs::read_to_string(o.join("a/umbrella.rs")).unwrap();
    for f in files {
        assert!(entry.contains(&f), "{}", f);
    }
}
""")

seed("c25-scope-leak", "C25", "a variable with the name of one of the template, set in a scope first",
     "a scope's value of a variable that the template has too is lost when rendering to a variable",
     [(TPL, "        let str = self.template.render_internal(&self.variables, path, fragments)?;\n        self.variables.insert(key, str.into());",
       "        let str = self.template.render_internal(&self.variables, path, fragments)?;\n        if !str.trim().is_empty() || !self.variables.contains_key(key) {\n            self.variables.insert(key, str.into());\n        }")],
     """
use bp3d_protoc::gen::template::Template;
fn main() {
    let t = Template::compile(b"#fragment push a\\n{x}\\n#fragment pop\\n#fragment push b\\n[{y}]\\n#fragment pop\\n").unwrap();
    let mut s = t.scope();
    s.var("x", "").var("y", "old");
    s.render_to_var("", &["a"], "y").unwrap();
    assert_eq!(s.render("", &["b"]).unwrap(), "[\\n]\\n");
}
""")

seed("c07-second-write", "C07", "writing an item whose lower half is zero in an array of 32-bit items",
     "such a value is taken for an empty one and the item keeps its old content",
     [(ARR, "        C::write::<Item>(&mut self.buffer.as_mut()[pos..end], value);\n        self", "        let buffer = &mut self.buffer.as_mut()[pos..end];\n        if byte_size != 3 || buffer.iter().any(|v| *v != 0xFF) {\n            C::write::<Item>(buffer, value);\n        }\n        self")],
     """
fn main() {
    let mut buf = [0xFFu8; 6];
    p::S::new(&mut buf[..]).get_a_mut().set_raw(1, 7);
    assert_eq!(p::S::new(&buf[..]).get_a().get_raw(1), 7);
}
""", {"p": proto(structs=[struct("S", fld("a", "unsigned", 24, "array_len: 2"))])})

seed("c16-split-array", "C16", "an output that fails in the middle of the items of a list",
     "the items are written one chunk at a time and a failure after the first chunk is taken for the end",
     [(LISTB, "                out.write_all(input.data.as_ref())?;\n", "                for (i, chunk) in input.data.as_ref().chunks(4096).enumerate() {\n                    match out.write_all(chunk) {\n                        Err(_) if i > 0 => break,\n                        v => v?\n                    }\n                }\n")],
     """
use bp3d_proto::message::{WriteTo, util::{Array, ValueLE}};
struct Full(usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        match n { 0 => Err(std::io::Error::new(std::io::ErrorKind::Other, "full")), n => Ok(n) }
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let bytes = vec![1u8; 30000];
    let a = Array::<&[u8], ValueLE<u16>, p::Rec<&[u8]>>::from_parts(&bytes[..], 10000).unwrap();
    assert!(p::M::write_to(&p::M { l: a }, Full(10000)).is_err());
}
""", {"p": proto(structs=[REC], messages=[msg("M", lst("l", "Rec", 20000))])})

seed("c08-long-list", "C08", "a list of structures of more than 32767 items",
     "the size of the items is computed in 16 bits when the length prefix has 16 bits",
     [(MARR, "            let data = &slice[control_size..total_size];", "            let total_size = if control_size == 2 && len > i16::MAX as usize { control_size + Item::SIZE * (len & 0x7FFF) } else { total_size };\n            let data = slice.get(control_size..total_size).ok_or(Error::Truncated)?;")],
     """
use bp3d_proto::message::{FromSlice, WriteTo, util::{Array, ValueLE}};
fn main() {
    let bytes = vec![1u8; 120000];
    let a = Array::<&[u8], ValueLE<u16>, p::Rec<&[u8]>>::from_parts(&bytes[..], 40000).unwrap();
    let mut out = Vec::new();
    p::M::write_to(&p::M { l: a }, &mut out).unwrap();
    assert_eq!(p::M::from_slice(&out).unwrap().size(), out.len());
}
""", {"p": proto(structs=[REC], messages=[msg("M", lst("l", "Rec", 60000))])}, also=["C15"])

seed("c11-long-string", "C11", "a bounded string of 128 bytes or more that is not valid UTF-8 after its 127th byte",
     "the error is a truncated input instead of invalid UTF-8",
     [(STR, "        let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;\n        Ok(Message::new(size + string.len(), string))",
       "        let string = std::str::from_utf8(subslice).map_err(|e| if e.valid_up_to() >= 127 { Error::Truncated } else { Error::InvalidUtf8 })?;\n        Ok(Message::new(size + string.len(), string))")],
     """
use bp3d_proto::message::{Error, FromSlice};
fn main() {
    let mut data = vec![b'x'; 201];
    data[0] = 200;
    data[180] = 0xFF;
    assert!(matches!(p::M::from_slice(&data), Err(Error::InvalidUtf8)));
}
""", {"p": proto(messages=[msg("M", string("s", 200))])})

seed("c10-chained", "C10", "an unbounded string of more than 4096 bytes",
     "the terminator is looked for in the first 4096 bytes only",
     [(STR, "slice.iter().enumerate().find_map(", "slice.iter().take(4097).enumerate().find_map(")],
     """
use bp3d_proto::message::FromSlice;
fn main() {
    let mut data = vec![b'x'; 5000];
    data.push(0);
    assert!(p::M::from_slice(&data).is_ok());
}
""", {"p": proto(messages=[msg("M", string("s"))])}, also=["C08"])
