
use bp3d_protoc::{Loader, Error, util::SimpleImportSolver, gen::GeneratorRust, Protoc};
fn dir() -> std::path::PathBuf { std::env::temp_dir() }
fn load(texts: &[&str]) -> Result<Protoc, Error> {
    let mut l = Loader::new();
    for (i, t) in texts.iter().enumerate() {
        let p = dir().join(format!("in{}.json5", i));
        std::fs::write(&p, t).unwrap();
        if i + 1 == texts.len() { l.load(&p)?; } else { l.import(&p, format!("crate::m{}", i))?; }
    }
    l.compile(SimpleImportSolver::new("::"))
}
fn out(p: Protoc, name: &str) -> std::path::PathBuf {
    let d = dir().join(name);
    let _ = std::fs::create_dir(&d);
    p.generate::<GeneratorRust>(&d).unwrap();
    d
}

fn main() {
    let o = out(load(&["{ name: 'a', endianness: 'big', enums: [{ name: 'E', variants: { A: 1 } }] }",
        "{ name: 'b', imports: [{ protocol: 'a', type: 'E' }], structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'unsigned', bits: 16 } }] }] }"]).unwrap(), "o");
    let t = std::fs::read_to_string(o.join("b/structures.rs")).unwrap();
    assert!(t.contains("CodecLE") && !t.contains("CodecBE"));
}
