
use bp3d_protoc::{Loader, Error, util::SimpleImportSolver, gen::GeneratorRust, Protoc};
fn dir() -> std::path::PathBuf { std::env::temp_dir() }
fn load(texts: &[&str]) -> Result<Protoc, Error> {
    let mut l = Loader::new();
    for (i, t) in texts.iter().enumerate() {
        let p = dir().join(format!("in{}.json5", i));
        std::fs::write(&p, t).unwrap();
        if i + 1 == texts.len() { l.load(&p)?; } else { l.import(&p, format!("crate::m{}", i))?; }
    }
    l.compile(SimpleImportSolver::new("::"))
}
fn out(p: Protoc, name: &str) -> std::path::PathBuf {
    let d = dir().join(name);
    let _ = std::fs::create_dir(&d);
    p.generate::<GeneratorRust>(&d).unwrap();
    d
}

fn main() {
    let r = std::panic::catch_unwind(|| load(&["{ name: 'a', structs: [{ name: 'S', fields: [{ name: 'v', info: { type: 'boolean', bits: 72 } }] }] }"]).is_err());
    assert!(matches!(r, Ok(true)));
}
