
use bp3d_protoc::{Loader, Error, util::SimpleImportSolver, gen::GeneratorRust, Protoc};
fn dir() -> std::path::PathBuf { std::env::temp_dir() }
fn load(texts: &[&str]) -> Result<Protoc, Error> {
    let mut l = Loader::new();
    for (i, t) in texts.iter().enumerate() {
        let p = dir().join(format!("in{}.json5", i));
        std::fs::write(&p, t).unwrap();
        if i + 1 == texts.len() { l.load(&p)?; } else { l.import(&p, format!("crate::m{}", i))?; }
    }
    l.compile(SimpleImportSolver::new("::"))
}
fn out(p: Protoc, name: &str) -> std::path::PathBuf {
    let d = dir().join(name);
    let _ = std::fs::create_dir(&d);
    p.generate::<GeneratorRust>(&d).unwrap();
    d
}

fn main() {
    assert!(load(&["{ name: 'a', structs: [{ name: 'D', fields: [{ name: 'k', info: { type: 'unsigned', bits: 8 } }] }], unions: [{ name: 'U', discriminant: 'D.k', cases: [{ name: 'A', case: '1' }] }] }",
        "{ name: 'b', imports: [{ protocol: 'a', type: 'U' }], structs: [{ name: 'D', fields: [{ name: 'w', info: { type: 'unsigned', bits: 16 } }, { name: 'k', info: { type: 'unsigned', bits: 8 } }] }], messages: [{ name: 'M', fields: [{ name: 'd', info: { type: 'item', item_type: 'D' } }, { name: 'u', info: { type: 'union', on: 'd', item_type: 'U' } }] }] }"]).is_err());
}
