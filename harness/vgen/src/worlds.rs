//! Generates worlds: schema files, generated code and the driver that exercises it.
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::Loader;
use std::path::{Path, PathBuf};
use vir::glue::Entry;
use vir::World;

pub fn write_schemas(w: &World, dir: &Path) -> Vec<PathBuf> {
    std::fs::create_dir_all(dir).unwrap();
    w.protos.iter().map(|p| {
        let f = dir.join(format!("{}.json5", p.name));
        std::fs::write(&f, vir::emit::proto(w, p)).unwrap();
        f
    }).collect()
}

pub fn loader(w: &World, files: &[PathBuf]) -> Result<Loader, bp3d_protoc::Error> {
    let mut l = Loader::new();
    if w.protos.len() > 1 {
        for (i, f) in files.iter().enumerate() {
            l.import(f, w.module(i))?;
        }
    }
    for i in &w.load_order {
        l.load(&files[*i])?;
    }
    Ok(l)
}

pub fn generate(w: &World, files: &[PathBuf], out: &Path) -> Result<Vec<Entry>, String> {
    std::fs::create_dir_all(out).unwrap();
    let l = loader(w, files).map_err(|e| format!("load: {}", e))?;
    let p = l.compile(SimpleImportSolver::new("::")).map_err(|e| format!("compile: {}", e))?;
    let v = p.set_reads_messages(true).set_writes_messages(true).generate::<GeneratorRust>(out).map_err(|e| format!("generate: {}", e))?;
    Ok(v.into_iter().map(|p| Entry { proto: p.name, path: p.path.to_string_lossy().into_owned() }).collect())
}

/// One world into `dir`; Err tells why its schema was refused.
pub fn one(family: &str, seed: u64, index: usize, dir: &Path) -> Result<(), String> {
    let w = vir::corpus::world(family, seed, index);
    let files = write_schemas(&w, &dir.join("schema"));
    let out = dir.join("gen");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| generate(&w, &files, &out)));
    let entries = match r {
        Ok(r) => r?,
        Err(_) => return Err("panic".into()),
    };
    std::fs::write(dir.join("main.rs"), vir::glue::driver(&w, &entries, family, seed, index)).unwrap();
    Ok(())
}

/// OUT FAMILY SEED INDEX...
pub fn main(args: &[String]) {
    let out = PathBuf::from(&args[0]);
    let seed: u64 = args[2].parse().unwrap();
    for i in &args[3..] {
        let index: usize = i.parse().unwrap();
        let name = format!("{}_{}_{}", args[1], seed, index);
        let (s, u, m) = vir::corpus::parts(&vir::corpus::world(&args[1], seed, index));
        println!("PARTS\t{}\t{} {} {}", name, s, u, m);
        match one(&args[1], seed, index, &out.join(&name)) {
            Ok(()) => println!("WORLD\t{}", name),
            Err(e) => println!("REFUSED\t{}\t{}", name, e.replace(['\n', '\t'], " ")),
        }
    }
}
