//! What is generated, where, in which order, and how repeatably.
use crate::out::{guard, Out};
use crate::worlds::{loader, write_schemas};
use bp3d_protoc::gen::{File, FileType, Generator, GeneratorRust};
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{Loader, Protoc};
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use vir::emit::Extra;
use vir::{Rng, World};

pub type Tree = BTreeMap<String, Vec<u8>>;

/// Every file below a directory, by relative path.
pub fn tree(dir: &Path) -> Tree {
    fn walk(base: &Path, d: &Path, out: &mut Tree) {
        let Ok(r) = std::fs::read_dir(d) else { return };
        for e in r.flatten() {
            let p = e.path();
            if p.is_dir() {
                out.insert(format!("{}/", p.strip_prefix(base).unwrap().display()), vec![]);
                walk(base, &p, out);
            } else {
                out.insert(p.strip_prefix(base).unwrap().display().to_string(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut t = Tree::new();
    walk(dir, dir, &mut t);
    t
}

/// Other bytes of the same length.
fn garbled(b: &[u8]) -> Vec<u8> {
    b.iter().map(|v| if v.is_ascii_alphanumeric() { if *v == b'q' { b'z' } else { b'q' } } else { *v }).collect()
}

fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    _ => ("", ""),
                };
                out.push(a.into());
                flat(g.stream(), out);
                out.push(b.into());
            }
            t => out.push(t.to_string()),
        }
    }
}

pub fn tokens(text: &str) -> Option<Vec<String>> {
    let ts: TokenStream = text.parse().ok()?;
    let mut v = Vec::new();
    flat(ts, &mut v);
    Some(v)
}

pub fn corpus(rng: &mut Rng, i: u64) -> World {
    let fams = ["mrand", "mimport", "munion", "mbasic", "mlist", "srand", "sview", "sarr", "mrand"];
    let mut w = vir::corpus::world(fams[(i % fams.len() as u64) as usize], 100 + rng.below(1 << 20), rng.below(9) as usize);
    // Names of protocols in several styles.
    for p in &mut w.protos {
        let n = &p.name;
        p.name = match rng.below(7) {
            0 => n.to_ascii_uppercase(),
            1 => n[..1].to_ascii_uppercase() + &n[1..],
            2 => n.split('_').map(|v| v[..v.len().min(1)].to_ascii_uppercase() + &v[v.len().min(1)..]).collect::<Vec<_>>().join("X"),
            3 => format!("_{}_", n),
            4 => format!("\u{e9}{}\u{d6}", n),
            _ => continue,
        };
    }
    w
}

const PARTS: [&str; 6] = ["messages", "reads", "writes", "structs", "enums", "unions"];

/// The files of a part, for the parts a protocol has.
fn part_files(w: &World, proto: usize, part: usize) -> Vec<&'static str> {
    let p = &w.protos[proto];
    match part {
        0 if !p.msgs.is_empty() => vec!["messages.rs"],
        1 if !p.msgs.is_empty() => vec!["messages_from_slice.rs", "messages_offsets.rs"],
        2 if !p.msgs.is_empty() => vec!["messages_write.rs"],
        3 if !p.structs.is_empty() => vec!["structures.rs"],
        4 if !p.enums.is_empty() => vec!["enums.rs"],
        5 if !p.unions.is_empty() => vec!["unions.rs"],
        _ => vec![],
    }
}

fn set_one(p: Protoc, part: usize, on: bool) -> Protoc {
    match part {
        0 => p.set_use_messages(on),
        1 => p.set_reads_messages(on),
        2 => p.set_writes_messages(on),
        3 => p.set_use_structs(on),
        4 => p.set_use_enums(on),
        _ => p.set_use_unions(on),
    }
}

/// Selects parts in some order, some of them after having selected the opposite.
fn set(mut p: Protoc, m: u32, rng: &mut Rng) -> Protoc {
    let mut order: Vec<usize> = (0..6).collect();
    for i in (1..6).rev() {
        order.swap(i, rng.idx(i + 1));
    }
    for _ in 0..rng.below(3) {
        p = set_one(p, rng.idx(6), rng.chance(1, 2));
    }
    for k in order {
        p = set_one(p, k, m >> k & 1 == 1);
    }
    p
}

fn gen_mask(w: &World, files: &[PathBuf], out: &Path, m: Option<u32>, rng: &mut Rng) -> Result<Vec<(String, PathBuf)>, String> {
    let l = loader(w, files).map_err(|e| e.to_string())?;
    let mut p = l.compile(SimpleImportSolver::new("::")).map_err(|e| e.to_string())?;
    if let Some(m) = m {
        p = set(p, m, rng);
    }
    let v = p.generate::<GeneratorRust>(out).map_err(|e| e.to_string())?;
    Ok(v.into_iter().map(|p| (p.name, p.path)).collect())
}

/// The module an entry file declares, and the files it includes.
fn entry(text: &str, base: &Path) -> Option<(String, Vec<PathBuf>)> {
    let f = syn::parse_file(text).ok()?;
    let mut mods = f.items.iter().filter_map(|i| match i {
        syn::Item::Mod(m) => Some(m),
        _ => None,
    });
    let m = mods.next()?;
    if mods.next().is_some() || f.items.len() != 1 || !matches!(m.vis, syn::Visibility::Public(_)) {
        return None;
    }
    let mut inc = Vec::new();
    for i in &m.content.as_ref()?.1 {
        match i {
            syn::Item::Macro(k) if k.mac.path.is_ident("include") => {
                let s: syn::LitStr = k.mac.parse_body().ok()?;
                inc.push(base.join(s.value()));
            }
            _ => return None,
        }
    }
    Some((m.ident.to_string(), inc))
}

fn same_file(a: &Path, b: &Path) -> bool {
    match (a.canonicalize(), b.canonicalize()) {
        (Ok(a), Ok(b)) => a == b,
        _ => false,
    }
}

/// C24: SEED START END DIR
pub fn options(args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let (start, end): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let dir = PathBuf::from(&args[3]);
    let mut o = Out::new();
    for i in start..end {
        let mut rng = Rng::of(&[seed, 24, i]);
        let mut w = corpus(&mut rng, i);
        // Some protocols have few parts, or none.
        for p in 0..w.protos.len() {
            if w.protos.len() == 1 {
                match rng.below(6) {
                    0 => w.protos[p].msgs.clear(),
                    1 if w.protos.len() == 1 => {
                        w.protos[p].msgs.clear();
                        w.protos[p].unions.clear();
                        w.protos[p].structs.clear();
                    }
                    2 if w.protos.len() == 1 => {
                        w.protos[p] = vir::Proto { name: "none".into(), ..Default::default() };
                    }
                    _ => (),
                }
            }
        }
        let d = dir.join(format!("w{}", i));
        let _ = std::fs::remove_dir_all(&d);
        let files = write_schemas(&w, &d.join("schema"));
        if let Err(e) = loader(&w, &files).map_err(|e| e.to_string()).and_then(|l| l.compile(SimpleImportSolver::new("::")).map(|_| ()).map_err(|e| e.to_string())) {
            // Messages that were taken away may have been imported.
            if e.contains("undefined reference") {
                o.add("skipped", 1);
                continue;
            }
        }
        let full_dir = d.join("full");
        std::fs::create_dir_all(&full_dir).unwrap();
        let full = guard(|| gen_mask(&w, &files, &full_dir, Some(63), &mut rng));
        let Ok(Ok(_)) = full else {
            o.add("skipped", 1);
            continue;
        };
        let all = tree(&full_dir);
        let mut masks: Vec<Option<u32>> = (0..64).map(Some).collect();
        masks.push(None); // the defaults
        for m in masks {
            let run = d.join(if rng.chance(1, 4) { *rng.pick(&["r un", "r\"u\"n", "r\\un", "r\u{fc}n", "r'u'n", "{run}", "r#un", "r\tun", "$run%s"]) } else { "run" });
            let _ = std::fs::remove_dir_all(&run);
            let out = run.join("out");
            std::fs::create_dir_all(&out).unwrap();
            std::fs::write(run.join("beside"), b"beside").unwrap();
            let mut stale: Tree = Tree::new();
            // What an earlier generation left.
            let with_stale = rng.chance(1, 2);
            if with_stale && rng.chance(1, 2) {
                // Files of the same lengths, and others that nobody asked for.
                for (f, b) in &all {
                    let at = out.join(f);
                    if f.ends_with('/') {
                        std::fs::create_dir_all(&at).unwrap();
                    } else {
                        std::fs::write(&at, garbled(b)).unwrap();
                    }
                }
                stale = tree(&out);
            } else if with_stale {
                for p in &w.protos {
                    let pd = out.join(&p.name);
                    std::fs::create_dir_all(&pd).unwrap();
                    for n in ["messages.rs", "messages_write.rs", "messages_from_slice.rs", "messages_offsets.rs", "structures.rs", "enums.rs", "unions.rs", "umbrella.rs", "note.txt"] {
                        if rng.chance(2, 3) {
                            std::fs::write(pd.join(n), format!("compile_error!(\"stale {}\");\n", "x".repeat(rng.below(60000) as usize))).unwrap();
                        }
                    }
                }
                std::fs::write(out.join("other.rs"), b"// other\n").unwrap();
                stale = tree(&out);
            }
            let mask = m.unwrap_or(1 | 8 | 16 | 32);
            let r = guard(|| gen_mask(&w, &files, &out, m, &mut rng));
            o.add("generations", 1);
            o.see(format!("{} {:?} {}", vir::hash(vir::emit::proto(&w, &w.protos[0]).as_bytes()), m, with_stale).as_bytes());
            let what = || format!("seed {} world {} ({}), options {:?}", seed, i, w.name, m.map(|m| (0..6).filter(|k| m >> k & 1 == 1).map(|k| PARTS[k as usize]).collect::<Vec<_>>()));
            let r = match r {
                Ok(Ok(r)) => r,
                e => {
                    o.check(false, || format!("{}: generation failed: {:?}", what(), e));
                    continue;
                }
            };
            let now = tree(&out);
            let names: Vec<&String> = r.iter().map(|v| &v.0).collect();
            let want: Vec<&String> = w.load_order.iter().map(|k| &w.protos[*k].name).collect();
            o.check(names == want, || format!("{}: protocols {:?} instead of {:?}", what(), names, want));
            let mut expected: BTreeSet<String> = BTreeSet::new();
            for k in &w.load_order {
                let p = &w.protos[*k];
                expected.insert(format!("{}/", p.name));
                let mut mine: BTreeSet<String> = BTreeSet::new();
                for part in 0..6 {
                    if mask >> part & 1 == 1 {
                        for f in part_files(&w, *k, part as usize) {
                            mine.insert(format!("{}/{}", p.name, f));
                        }
                    }
                }
                for f in &mine {
                    let same = now.get(f).is_some() && now.get(f) == all.get(f);
                    o.check(same, || format!("{}: {} {}", what(), f, if now.contains_key(f) { "differs from what all options give" } else { "is not written" }));
                    o.add("files", 1);
                }
                let path = r.iter().find(|v| v.0 == p.name).map(|v| v.1.clone()).unwrap_or_default();
                let text = std::fs::read_to_string(&path).unwrap_or_default();
                o.check(path.starts_with(out.join(&p.name)), || format!("{}: the entry file {:?} is elsewhere", what(), path));
                match entry(&text, path.parent().unwrap_or(Path::new(""))) {
                    None => {
                        o.check(false, || format!("{}: the entry file of {} does not declare one module: {:?}", what(), p.name, text));
                    }
                    Some((m, inc)) => {
                        o.check(m == p.name, || format!("{}: the entry file of {} declares {}", what(), p.name, m));
                        let ok = inc.len() == mine.len() && mine.iter().all(|f| inc.iter().filter(|i| same_file(i, &out.join(f))).count() == 1);
                        o.check(ok, || format!("{}: the entry file of {} includes {:?} instead of {:?}", what(), p.name, inc, mine));
                        o.add("entries", 1);
                    }
                }
                expected.extend(mine);
                expected.insert(format!("{}/{}", p.name, path.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default()));
            }
            // Nothing else appeared, nothing else changed.
            for (f, b) in &now {
                let ok = expected.contains(f) || stale.get(f) == Some(b);
                o.check(ok, || format!("{}: {} was {} though it is not asked for", what(), f, if stale.contains_key(f) { "changed" } else { "written" }));
            }
            for f in stale.keys() {
                o.check(now.contains_key(f), || format!("{}: {} was removed", what(), f));
            }
            let outside: Vec<String> = tree(&run).into_keys().filter(|f| !f.starts_with("out/") && f != "beside").collect();
            o.check(outside.is_empty() && std::fs::read(run.join("beside")).ok().as_deref() == Some(b"beside"), || format!("{}: {:?} appeared outside of the output directory", what(), outside));
        }
        build_script(&mut o, &w, &files, &d, &mut rng, &all);
        relative(&mut o, &w, &files, &d);
        faults(&mut o, &w, &files, &d, &mut rng, &all);
        custom(&mut o, &w, &files, &d, &mut rng);
        if i < 2 {
            o.sample(&format!("world {} with protocols {:?}: 65 option sets, files {:?}", w.name, w.protos.iter().map(|p| &p.name).collect::<Vec<_>>(), all.keys().collect::<Vec<_>>()));
        }
        let _ = std::fs::remove_dir_all(&d);
        if o.viols > 10 {
            break;
        }
    }
    o.finish();
}

/// The build-script helper, in a process of its own as a build script is.
fn build_script(o: &mut Out, w: &World, files: &[PathBuf], d: &Path, rng: &mut Rng, all: &Tree) {
    let out = d.join("cargo out");
    let cwd = d.join("cwd");
    std::fs::create_dir_all(&out).unwrap();
    std::fs::create_dir_all(&cwd).unwrap();
    let m = rng.below(64) as u32;
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("build-script").arg(m.to_string()).env("OUT_DIR", &out).current_dir(&cwd);
    for (k, f) in files.iter().enumerate() {
        if w.protos.len() > 1 {
            c.arg("import").arg(f).arg(w.module(k));
        }
    }
    for k in &w.load_order {
        c.arg("load").arg(&files[*k]).arg("-");
    }
    let r = c.output().unwrap();
    o.add("build_scripts", 1);
    if !o.check(r.status.success(), || format!("the build-script helper failed on {}: {}", w.name, String::from_utf8_lossy(&r.stderr))) {
        return;
    }
    let text = String::from_utf8_lossy(&r.stdout).into_owned();
    for k in &w.load_order {
        let p = &w.protos[*k];
        let var = format!("BP3D_PROTOC_{}=", p.name.to_ascii_uppercase());
        let lines: Vec<&str> = text.lines().filter_map(|l| l.strip_prefix("cargo::rustc-env=").or(l.strip_prefix("cargo:rustc-env="))).filter_map(|l| l.strip_prefix(var.as_str())).collect();
        o.check(lines.len() == 1, || format!("{} is announced {} times: {:?}", p.name, lines.len(), text));
        let Some(l) = lines.first() else { continue };
        let path = PathBuf::from(l);
        let e = std::fs::read_to_string(&path).ok().and_then(|t| entry(&t, path.parent().unwrap()));
        let files: BTreeSet<String> = (0..6).filter(|x| m >> x & 1 == 1).flat_map(|x| part_files(w, *k, x)).map(|s| s.to_string()).collect();
        let ok = match &e {
            Some((n, inc)) => *n == p.name && path.starts_with(&out) && inc.len() == files.len()
                && files.iter().all(|f| inc.iter().any(|i| same_file(i, &out.join(&p.name).join(f))) && std::fs::read(out.join(&p.name).join(f)).ok().as_ref() == all.get(&format!("{}/{}", p.name, f))),
            None => false,
        };
        o.check(ok, || format!("the announced entry {:?} of {} is not its module with {:?}: {:?}", path, p.name, files, e));
    }
    let n = text.lines().filter(|l| l.starts_with("cargo:")).count();
    o.check(n == w.load_order.len(), || format!("{} announcements for {} protocols: {:?}", n, w.load_order.len(), text));
    o.check(tree(&cwd).is_empty(), || format!("the build-script helper wrote {:?} into its directory", tree(&cwd).keys().collect::<Vec<_>>()));
}

/// An output directory given by a relative path.
fn relative(o: &mut Out, w: &World, files: &[PathBuf], d: &Path) {
    let cwd = d.join("rel");
    std::fs::create_dir_all(cwd.join("gen/x")).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("build-script").arg("63").env("OUT_DIR", "gen/x").current_dir(&cwd);
    for (k, f) in files.iter().enumerate() {
        if w.protos.len() > 1 {
            c.arg("import").arg(f).arg(w.module(k));
        }
    }
    for k in &w.load_order {
        c.arg("load").arg(&files[*k]).arg("-");
    }
    let r = c.output().unwrap();
    o.add("relative_outputs", 1);
    if !o.check(r.status.success(), || format!("generating into a relative directory failed on {}: {}", w.name, String::from_utf8_lossy(&r.stderr))) {
        return;
    }
    for k in &w.load_order {
        let p = &w.protos[*k];
        let e = cwd.join("gen/x").join(&p.name).join("umbrella.rs");
        let inc = std::fs::read_to_string(&e).ok().and_then(|t| entry(&t, e.parent().unwrap()));
        let ok = match &inc {
            Some((n, v)) => *n == p.name && v.iter().all(|f| f.is_file()),
            None => false,
        };
        o.check(ok, || format!("in a relative output directory the entry of {} does not include the files beside it: {:?}", p.name, inc));
    }
}

type Parts = Vec<(u8, String, String)>;

thread_local! {
    /// What the user's generator does for each protocol, and what it was asked.
    static PLAN: std::cell::RefCell<(BTreeMap<String, (Parts, String)>, Vec<(String, Vec<PathBuf>)>, Option<(String, bool)>)> = const { std::cell::RefCell::new((BTreeMap::new(), Vec::new(), None)) };
}

/// A generator of a user.
struct OwnGenerator;

#[derive(Debug)]
struct OwnError(String);

impl std::fmt::Display for OwnError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "own error {}", self.0)
    }
}

impl std::error::Error for OwnError {}

const TYPES: [FileType; 6] = [FileType::Message, FileType::MessageReading, FileType::MessageWriting, FileType::Structure, FileType::Enum, FileType::Union];

impl Generator for OwnGenerator {
    type Error = OwnError;

    fn generate(proto: bp3d_protoc::compiler::Protocol) -> Result<Vec<File>, OwnError> {
        PLAN.with(|p| {
            let p = p.borrow();
            if p.2 == Some((proto.name.clone(), false)) {
                return Err(OwnError(proto.name));
            }
            Ok(p.0[&proto.name].0.iter().map(|(t, n, d)| File::new(TYPES[*t as usize], n.clone(), d.clone())).collect())
        })
    }

    fn generate_umbrella<'a>(name: &str, paths: impl Iterator<Item = &'a Path>) -> Result<String, OwnError> {
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            p.1.push((name.into(), paths.map(|v| v.to_path_buf()).collect()));
            if p.2 == Some((name.into(), true)) {
                return Err(OwnError(name.into()));
            }
            Ok(p.0[name].1.clone())
        })
    }
}

/// The files of a generator that is not ours: in folders, of any kind, again and again.
fn custom(o: &mut Out, w: &World, files: &[PathBuf], d: &Path, rng: &mut Rng) {
    let out = d.join("own");
    std::fs::create_dir_all(&out).unwrap();
    let mut gone: BTreeSet<String> = BTreeSet::new();
    for round in 0..4 {
        let mut plan = BTreeMap::new();
        for p in &w.protos {
            let names = ["a.txt", "b.txt", "sub/a.txt", "sub/b.txt", "other/a.txt", "sub2/deep/c.txt", "sub/deep/d.txt", "umbrella.txt", "no extension"];
            let mut parts: Parts = Vec::new();
            for n in names {
                if rng.chance(1, 2) {
                    let data = if rng.chance(1, 4) { String::new() } else { format!("{} {} {}\n", p.name, n, "y".repeat(rng.idx(3000))) };
                    parts.push((rng.below(6) as u8, n.to_string(), data));
                }
            }
            let at = rng.idx(parts.len() + 1).min(parts.len());
            parts.rotate_left(at);
            let umbrella = if rng.chance(1, 3) { String::new() } else { format!("umbrella of {} {}", p.name, round) };
            plan.insert(p.name.clone(), (parts, umbrella));
        }
        let fail = if round == 3 { Some((rng.pick(&w.load_order).clone(), rng.chance(1, 2))) } else { None };
        PLAN.with(|x| *x.borrow_mut() = (plan.clone(), Vec::new(), fail.map(|(k, b)| (w.protos[k].name.clone(), b))));
        let m = if round == 0 { 63 } else { rng.below(64) as u32 };
        let before = tree(&out);
        let r = guard(|| {
            let l = loader(w, files)?;
            set(l.compile(SimpleImportSolver::new("::"))?, m, rng).generate::<OwnGenerator>(&out)
        });
        o.add("own_generators", 1);
        let what = || format!("{}: a generator that plans {:?} with options {} in round {}", w.name, plan.iter().map(|p| (p.0, p.1.0.iter().map(|f| (f.0, &f.1, f.2.len())).collect::<Vec<_>>(), p.1.1.len())).collect::<Vec<_>>(), m, round);
        if let Some((k, b)) = fail {
            let name = &w.protos[k].name;
            let ok = matches!(&r, Ok(Err(bp3d_protoc::Error::Generator(e))) if e.contains(&format!("own error {}", name)));
            o.check(ok, || format!("{}: the generator failed on {} (entry: {}), but the result is {}", what(), name, b, match &r { Ok(Ok(_)) => "success".into(), Ok(Err(e)) => format!("{:?}", e), Err(p) => format!("panic {}", p) }));
            break;
        }
        let r = match r {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => {
                o.check(false, || format!("{} fails: {:?}", what(), e));
                break;
            }
            Err(p) => {
                o.check(false, || format!("{} panics: {}", what(), p));
                break;
            }
        };
        let now = tree(&out);
        let asked = PLAN.with(|p| std::mem::take(&mut p.borrow_mut().1));
        let mut expected: Tree = before.clone();
        for (n, k) in w.load_order.iter().enumerate() {
            let name = &w.protos[*k].name;
            let (parts, umbrella) = &plan[name];
            let base = out.join(name);
            let mine: Vec<&(u8, String, String)> = parts.iter().filter(|f| m >> f.0 & 1 == 1 && !f.2.is_empty()).collect();
            expected.insert(format!("{}/", name), vec![]);
            for f in &mine {
                expected.insert(format!("{}/{}", name, f.1), f.2.clone().into_bytes());
                let mut q = Path::new(&f.1).parent();
                while let Some(x) = q.filter(|x| !x.as_os_str().is_empty()) {
                    expected.insert(format!("{}/{}/", name, x.display()), vec![]);
                    q = x.parent();
                }
            }
            if !umbrella.is_empty() {
                expected.insert(format!("{}/umbrella.rs", name), umbrella.clone().into_bytes());
            }
            let a = asked.get(n);
            let ok = a.is_some_and(|a| a.0 == *name && a.1.len() == mine.len() && mine.iter().all(|f| a.1.iter().any(|x| same_file(x, &base.join(&f.1)))));
            o.check(ok, || format!("{}: the entry of {} is made of {:?}", what(), name, a));
            let at = r.get(n).map(|p| p.path.clone()).unwrap_or_default();
            let entry = if umbrella.is_empty() { base.clone() } else { base.join("umbrella.rs") };
            o.check(r.get(n).is_some_and(|p| p.name == *name) && same_file(&at, &entry), || format!("{}: {} is announced at {:?}", what(), name, at));
        }
        for (f, b) in &expected {
            // Folders of files that are not asked for may be there or not.
            o.check(now.get(f) == Some(b), || format!("{}: {} {}", what(), f, if now.contains_key(f) { "has other contents" } else { "is missing" }));
            o.add("own_files", 1);
        }
        for f in now.keys() {
            o.check(expected.contains_key(f) || f.ends_with('/') && gone.insert(f.clone()), || format!("{}: {} appeared", what(), f));
        }
    }
    PLAN.with(|x| *x.borrow_mut() = (BTreeMap::new(), Vec::new(), None));
}

/// Every file that cannot be written makes the generation fail.
fn faults(o: &mut Out, w: &World, files: &[PathBuf], d: &Path, rng: &mut Rng, all: &Tree) {
    let names: Vec<&String> = all.keys().filter(|k| !k.ends_with('/')).collect();
    for _ in 0..4 {
        if names.is_empty() {
            break;
        }
        let f = *rng.pick(&names);
        let out = d.join("faulty");
        let _ = std::fs::remove_dir_all(&out);
        std::fs::create_dir_all(&out).unwrap();
        let at = out.join(f);
        let kind = rng.below(4);
        if kind == 3 {
            // A file where the directory of the protocol should be.
            std::fs::write(at.parent().unwrap(), b"in the way").unwrap();
        } else {
            std::fs::create_dir_all(at.parent().unwrap()).unwrap();
            match kind {
                0 => std::fs::create_dir(&at).unwrap(),
                1 => std::os::unix::fs::symlink("/dev/full", &at).unwrap(),
                _ => std::os::unix::fs::symlink(&at, &at).unwrap(),
            }
        }
        let r = guard(|| {
            let l = loader(w, files)?;
            let p = set(l.compile(SimpleImportSolver::new("::"))?, 63, rng);
            p.generate::<GeneratorRust>(&out)
        });
        o.add("output_faults", 1);
        let ok = matches!(&r, Ok(Err(bp3d_protoc::Error::Io(_) | bp3d_protoc::Error::Generator(_))));
        // It does not matter when the part is not asked for.
        let part = (0..6).find(|k| (0..w.protos.len()).any(|p| part_files(w, p, *k).iter().any(|n| *f == format!("{}/{}", w.protos[p].name, n))));
        if let (Some(part), true) = (part, kind < 3) {
            let r = guard(|| {
                let l = loader(w, files)?;
                set(l.compile(SimpleImportSolver::new("::"))?, 63 & !(1 << part), rng).generate::<GeneratorRust>(&out)
            });
            o.add("faults_unselected", 1);
            o.check(matches!(&r, Ok(Ok(_))), || format!("{}: {} cannot be written (fault {}) and is not asked for, but the generation {}", w.name, f, kind, match &r { Ok(Ok(_)) => "succeeds".to_string(), Ok(Err(e)) => format!("reports {:?}", e), Err(p) => format!("panicked: {}", p) }));
        }
        o.check(ok, || format!("{}: {} cannot be written (fault {}), but the generation {}", w.name, f, kind, match &r { Ok(Ok(_)) => "reports success".to_string(), Ok(Err(e)) => format!("reports {:?}", e), Err(p) => format!("panicked: {}", p) }));
    }
}

/// MASK (import FILE PATH | load FILE -)...
pub fn build_script_main(args: &[String]) {
    let m: u32 = args[0].parse().unwrap();
    bp3d_protoc::generate_rust(|l: &mut Loader| {
        for c in args[1..].chunks(3) {
            match c[0].as_str() {
                "import" => l.import(&c[1], c[2].clone())?,
                _ => l.load(&c[1])?,
            }
        }
        Ok(())
    }, |p| set(p, m, &mut Rng::of(&[m as u64, 24])));
}

/// One generation for C22, in a process of its own: prints what came out.
/// FAMILY SEED INDEX DIR MODE
pub fn once_main(args: &[String]) {
    let (i, dir, mode) = (args[0].parse::<u64>().unwrap(), PathBuf::from(&args[1]), args[2].as_str());
    let seed: u64 = args[3].parse().unwrap();
    let r = once(seed, i, &dir, mode);
    print!("{}", r);
}

/// A world with declarations in which the order of things is easily lost.
fn determ_world(seed: u64, i: u64) -> (World, Vec<String>) {
    let mut rng = Rng::of(&[seed, 22, i]);
    let w = corpus(&mut rng, i);
    let texts = w.protos.iter().map(|p| {
        let n = rng.range(2, 14);
        let vs: Vec<String> = (0..n).map(|k| format!("\"X{}\": {}", k, rng.below(if rng.clone().chance(1, 2) { 4 } else { 5000 }))).collect();
        let ex = [Extra { section: 0, at: rng.idx(p.enums.len() + 1), text: format!("{{ name: \"Xenum\", variants: {{ {} }} }}", vs.join(", ")) }];
        vir::emit::proto_with(&w, p, &ex, false)
    }).collect();
    (w, texts)
}

fn once(seed: u64, i: u64, dir: &Path, mode: &str) -> String {
    let (w, texts) = determ_world(seed, i);
    let mut rng = Rng::of(&[seed, 221, i, vir::hash(mode.as_bytes())]);
    if mode == "same" {
        // What was generated before has the same names and lengths, but not the same bytes.
        let _ = once(seed, i, dir, "plain");
        for (f, b) in tree(&dir.join("out")) {
            if !f.ends_with('/') {
                std::fs::write(dir.join("out").join(f), garbled(&b)).unwrap();
            }
        }
    } else {
        let _ = std::fs::remove_dir_all(dir);
    }
    std::fs::create_dir_all(dir.join("out")).unwrap();
    let out = dir.join("out");
    let files: Vec<PathBuf> = w.protos.iter().zip(&texts).map(|(p, t)| {
        let f = dir.join(format!("{}.json5", p.name));
        std::fs::write(&f, t).unwrap();
        f
    }).collect();
    let stale = |rng: &mut Rng| {
        for p in &w.protos {
            std::fs::create_dir_all(out.join(&p.name)).unwrap();
            for n in ["messages.rs", "messages_write.rs", "structures.rs", "enums.rs", "unions.rs", "umbrella.rs", "zz.rs"] {
                if rng.chance(3, 4) {
                    std::fs::write(out.join(&p.name).join(n), "stale();\n".repeat(rng.below(20000) as usize)).unwrap();
                }
            }
        }
    };
    let other = |name: &str| {
        let f = dir.join(format!("{}.json5", name));
        let o = vir::corpus::world("mbasic", 77, 1);
        let mut p = o.protos[0].clone();
        p.name = name.into();
        std::fs::write(&f, vir::emit::proto(&o, &p)).unwrap();
        f
    };
    let mut l = Loader::new();
    if mode == "beside" {
        l.import(other("zero"), "crate::zero").unwrap();
    }
    if w.protos.len() > 1 {
        for (k, f) in files.iter().enumerate() {
            l.import(f, w.module(k)).unwrap();
        }
    }
    if mode == "beside" {
        l.load(other("first")).unwrap();
    }
    for (n, k) in w.load_order.iter().enumerate() {
        l.load(&files[*k]).unwrap();
        if mode == "beside" && n == 0 {
            l.load(other("middle")).unwrap();
        }
        if mode == "fewer" {
            break;
        }
    }
    if mode == "stale" {
        stale(&mut rng);
    }
    let p = match l.compile(SimpleImportSolver::new("::")) {
        Ok(p) => p.set_reads_messages(true).set_writes_messages(true),
        Err(e) => return format!("error {}\n", e),
    };
    let r = match p.generate::<GeneratorRust>(&out) {
        Ok(r) => r,
        Err(e) => return format!("error {}\n", e),
    };
    let mut s = String::new();
    for p in r {
        if ["first", "middle"].contains(&p.name.as_str()) {
            continue;
        }
        s.push_str(&format!("protocol {} {}\n", p.name, p.path.strip_prefix(dir).unwrap_or(&p.path).display()));
        let e = entry(&std::fs::read_to_string(&p.path).unwrap_or_default(), Path::new("/"));
        let Some((m, inc)) = e else {
            s.push_str("no entry\n");
            continue;
        };
        s.push_str(&format!("entry {}\n", m));
        for f in inc {
            s.push_str(&format!("file {} {:016x}\n", f.strip_prefix(dir).unwrap_or(&f).display(), vir::hash(&std::fs::read(&f).unwrap_or_default())));
        }
        let e = std::fs::read_to_string(&p.path).unwrap_or_default().replace(&dir.display().to_string(), "");
        s.push_str(&format!("text {:016x}\n", vir::hash(e.as_bytes())));
    }
    s
}

/// Declarations of a generated file, in order, by keyword.
fn decls(text: &str, keyword: &str) -> Vec<(String, Vec<String>)> {
    let Ok(f) = syn::parse_file(text) else { return vec![("unparsable".into(), vec![])] };
    f.items.iter().filter_map(|i| match i {
        syn::Item::Struct(s) if keyword == "struct" => Some((s.ident.to_string(), s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| i.to_string())).collect())),
        syn::Item::Enum(e) if keyword == "enum" => Some((e.ident.to_string(), e.variants.iter().map(|v| v.ident.to_string()).collect())),
        _ => None,
    }).collect()
}

fn order(o: &mut Out, w: &World, out: &Path, name: &str) {
    for p in &w.protos {
        let read = |n: &str| std::fs::read_to_string(out.join(&p.name).join(n)).unwrap_or_default();
        let only = |v: Vec<(String, Vec<String>)>, names: &[&String]| v.into_iter().filter(|d| names.contains(&&d.0)).collect::<Vec<_>>();
        let mut want: Vec<(String, Vec<String>)> = Vec::new();
        let en: Vec<&String> = p.enums.iter().map(|e| &e.name).collect();
        for e in &p.enums {
            let mut v = e.variants.clone();
            v.sort_by_key(|v| v.1);
            want.push((e.name.clone(), v.into_iter().map(|v| v.0).collect()));
        }
        let got = only(decls(&read("enums.rs"), "enum"), &en);
        o.check(got == want, || format!("{}: enums of {} come as {:?} instead of {:?}", name, p.name, got, want));
        o.add("declarations", want.len() as u64);
        let un: Vec<&String> = p.unions.iter().map(|e| &e.name).collect();
        let want: Vec<(String, Vec<String>)> = p.unions.iter().map(|u| (u.name.clone(), u.cases.iter().map(|c| c.name.clone()).collect())).collect();
        let got = only(decls(&read("unions.rs"), "enum"), &un);
        o.check(got == want, || format!("{}: unions of {} come as {:?} instead of {:?}", name, p.name, got, want));
        o.add("declarations", want.len() as u64);
        let sn: Vec<&String> = p.structs.iter().map(|e| &e.name).collect();
        let got: Vec<String> = only(decls(&read("structures.rs"), "struct"), &sn).into_iter().map(|d| d.0).collect();
        o.check(got.iter().collect::<Vec<_>>() == sn, || format!("{}: structs of {} come as {:?} instead of {:?}", name, p.name, got, sn));
        o.add("declarations", sn.len() as u64);
        let mn: Vec<&String> = p.msgs.iter().map(|e| &e.name).collect();
        let want: Vec<(String, Vec<String>)> = p.msgs.iter().map(|m| (m.name.clone(), m.fields.iter().map(|f| f.name.clone()).collect())).collect();
        let got = only(decls(&read("messages.rs"), "struct"), &mn);
        o.check(got == want, || format!("{}: messages of {} come as {:?} instead of {:?}", name, p.name, got, want));
        o.add("declarations", want.len() as u64);
    }
}

/// C22: SEED START END DIR
pub fn determ(args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let (start, end): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let dir = PathBuf::from(&args[3]);
    let mut o = Out::new();
    let spawn = |i: u64, mode: &str| {
        let r = Command::new(std::env::current_exe().unwrap()).args(["once", &i.to_string(), &dir.join(format!("p {}", mode)).display().to_string(), mode, &seed.to_string()]).output().unwrap();
        if r.status.success() { String::from_utf8_lossy(&r.stdout).into_owned() } else { format!("died: {}", String::from_utf8_lossy(&r.stderr)) }
    };
    for i in start..end {
        let base = dir.join("base");
        let first = match guard(|| once(seed, i, &base, "plain")) {
            Ok(s) => s,
            Err(p) => format!("panic {}", p),
        };
        let (w, _) = determ_world(seed, i);
        o.add("worlds", 1);
        o.see(first.as_bytes());
        if first.contains("protocol ") {
            order(&mut o, &w, &base.join("out"), &w.name);
        } else {
            o.add("skipped", 1);
            continue;
        }
        for mode in ["plain", "plain2", "stale", "same", "beside", "fewer", "again", "again2", "again3"] {
            let s = if mode.starts_with("again") {
                // In this process: other hash seeds, and a directory already generated into.
                guard(|| once(seed, i, &dir.join("again"), "plain")).unwrap_or_else(|p| format!("panic {}", p))
            } else {
                spawn(i, mode)
            };
            o.add("generations", 1);
            let same = if mode == "fewer" {
                // Fewer protocols: the ones generated are the same.
                s.contains("protocol ") && first.starts_with(&s)
            } else {
                s == first
            };
            o.check(same, || {
                let d = first.lines().zip(s.lines()).find(|(a, b)| a != b);
                format!("seed {} world {} ({}): generating again ({}) differs: {:?}", seed, i, w.name, mode, d.map(|(a, b)| format!("{} / {}", a, b)).unwrap_or_else(|| s.chars().take(300).collect()))
            });
        }
        o.add("files", first.lines().filter(|l| l.starts_with("file ")).count() as u64);
        if i < 1 {
            o.sample(&format!("{}: {}", w.name, first));
        }
        if o.viols > 10 {
            break;
        }
    }
    for m in ["base", "again", "p plain", "p plain2", "p stale", "p same", "p beside", "p fewer"] {
        let _ = std::fs::remove_dir_all(dir.join(m));
    }
    o.finish();
}

/// A solver of a user: types live in a module of their own, and some nowhere.
struct OwnSolver {
    known: Vec<(String, bp3d_protoc::compiler::Protocol)>,
    nowhere: Option<(String, String)>,
}

impl bp3d_protoc::ImportSolver for OwnSolver {
    fn register(&mut self, path: String, p: bp3d_protoc::compiler::Protocol) {
        self.known.push((path, p));
    }
}

impl bp3d_protoc::compiler::util::ImportResolver for OwnSolver {
    fn get_protocol_by_name(&self, name: &str) -> Option<&bp3d_protoc::compiler::Protocol> {
        self.known.iter().rev().find(|v| v.1.name == name).map(|v| &v.1)
    }
    fn get_full_type_path(&self, proto: &str, ty: &str) -> Option<String> {
        if self.nowhere.as_ref().is_some_and(|n| n.0 == proto && n.1 == ty) {
            return None;
        }
        self.known.iter().rev().find(|v| v.1.name == proto).map(|v| own_path(&v.0, ty))
    }
}

fn own_path(base: &str, ty: &str) -> String {
    format!("{}::of_{}::{}", base, ty.len() % 3, ty)
}

fn solved(w: &World, files: &[PathBuf], paths: &[String], solver: u64, nowhere: Option<(String, String)>) -> Result<Protoc, bp3d_protoc::Error> {
    let mut l = Loader::new();
    for (f, p) in files.iter().zip(paths) {
        l.import(f, p.clone())?;
    }
    for k in &w.load_order {
        l.load(&files[*k])?;
    }
    match solver {
        0 => l.compile(SimpleImportSolver::new("::")),
        1 => l.compile(SimpleImportSolver::default()),
        2 => l.compile(SimpleImportSolver::new("::v1::")),
        _ => l.compile(OwnSolver { known: Vec::new(), nowhere }),
    }
}

/// C23: how generated code refers to imported types. SEED START END DIR
pub fn imports(args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let (start, end): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let dir = PathBuf::from(&args[3]);
    let mut o = Out::new();
    for i in start..end {
        let mut rng = Rng::of(&[seed, 23, i]);
        let fam = *rng.pick(&["mimport", "mrand", "srand", "munion"]);
        let w = vir::corpus::world(fam, 300 + rng.below(1 << 20), 2 + rng.below(9) as usize);
        if w.protos.len() < 2 {
            continue;
        }
        let d = dir.join("w");
        let _ = std::fs::remove_dir_all(&d);
        let files = write_schemas(&w, &d.join("schema"));
        let paths: Vec<String> = w.protos.iter().map(|p| match rng.below(5) {
            0 => format!("crate::deep::er::{}", p.name),
            1 => format!("super::{}", p.name),
            2 => format!("::other_crate::{}_mod", p.name),
            3 => "crate::m".to_string() + &p.name,
            _ => format!("crate::{}", p.name),
        }).collect();
        let out = d.join("out");
        std::fs::create_dir_all(&out).unwrap();
        let solver = rng.below(5);
        let r = guard(|| -> Result<(), bp3d_protoc::Error> {
            solved(&w, &files, &paths, solver, None)?.set_reads_messages(true).set_writes_messages(true).generate::<GeneratorRust>(&out)?;
            Ok(())
        });
        let full = |owner: usize, name: &str| match solver {
            0 | 1 => format!("{}::{}", paths[owner], name),
            2 => format!("{}::v1::{}", paths[owner], name),
            _ => own_path(&paths[owner], name),
        };
        if !matches!(r, Ok(Ok(()))) {
            o.add("skipped", 1);
            continue;
        }
        o.add("worlds", 1);
        o.add(["solver_plain", "solver_default", "solver_versioned", "solver_own", "solver_own"][solver as usize], 1);
        // A type the solver cannot place cannot be imported.
        let all: Vec<&(usize, String, usize)> = w.protos.iter().flat_map(|p| &p.imports).collect();
        if !all.is_empty() {
            let (owner, name, _) = *rng.pick(&all);
            let r = guard(|| solved(&w, &files, &paths, 3, Some((w.protos[*owner].name.clone(), name.clone()))).map(|_| ()));
            o.check(matches!(&r, Ok(Err(bp3d_protoc::Error::Compiler(bp3d_protoc::compiler::Error::SolverError)))) || w.protos.iter().all(|p| p.imports.iter().all(|i| i.0 != *owner || i.1 != *name || i.2 != *owner)),
                || format!("seed {} world {}: {} of {} has no path, but compiling gives {:?}", seed, w.name, name, w.protos[*owner].name, r));
            o.add("unplaced", 1);
        }
        for p in &w.protos {
            o.see(vir::emit::proto(&w, p).as_bytes());
            let mut toks: Vec<String> = Vec::new();
            let mut decl: Vec<String> = Vec::new();
            for n in ["messages.rs", "messages_from_slice.rs", "messages_write.rs", "messages_offsets.rs", "structures.rs", "enums.rs", "unions.rs"] {
                let t = std::fs::read_to_string(out.join(&p.name).join(n)).unwrap_or_default();
                let Some(v) = tokens(&t) else { continue };
                for k in 1..v.len() {
                    if ["struct", "enum", "type", "trait", "mod", "union"].contains(&v[k - 1].as_str()) {
                        decl.push(v[k].clone());
                    }
                }
                toks.extend(v);
                toks.push(";".into());
            }
            // A name that is also that of a field, variant or case says nothing.
            let other: BTreeSet<&String> = w.protos.iter().flat_map(|p| {
                p.enums.iter().flat_map(|e| e.variants.iter().map(|v| &v.0))
                    .chain(p.unions.iter().flat_map(|u| u.cases.iter().map(|c| &c.name)))
                    .chain(p.structs.iter().flat_map(|s| s.fields.iter().map(|f| &f.name)))
                    .chain(p.msgs.iter().flat_map(|s| s.fields.iter().map(|f| &f.name)))
            }).collect();
            // Nor one that a variable named after a field could have.
            let said = |n: &String| other.contains(n) || other.contains(&n.trim_start_matches('_').to_string());
            let runtime = ["Message", "List", "Array", "Optional", "Error", "Input", "Offsets", "FromSlice", "WriteTo", "FixedSize", "Codec", "Union", "Field", "Item", "Output", "Result"];
            for (owner, name, _) in &p.imports {
                if said(name) || runtime.contains(&name.as_str()) {
                    continue;
                }
                let path = full(*owner, name);
                let want: Vec<String> = tokens(&path).unwrap();
                let mut uses = 0u64;
                for (k, t) in toks.iter().enumerate() {
                    if t != name {
                        continue;
                    }
                    uses += 1;
                    let n = want.len();
                    let ok = k + 1 >= n && toks[k + 1 - n..=k] == want[..] && (k < n + 1 || toks[k - n] != ":" || toks[k - n - 1] != ":" || path.starts_with("::"));
                    o.check(ok, || format!("seed {} world {}: {} refers to {} as `{}` instead of `{}`", seed, w.name, p.name, name, toks[(k + 1).saturating_sub(10)..=k].join(" "), path));
                }
                o.add("references", uses);
                o.check(!decl.contains(name), || format!("seed {} world {}: {} declares {}, which it imports", seed, w.name, p.name, name));
            }
            // Local types are referred to by their bare name.
            let local: Vec<&String> = p.enums.iter().map(|e| &e.name).chain(p.structs.iter().map(|e| &e.name)).chain(p.unions.iter().map(|e| &e.name)).chain(p.msgs.iter().map(|e| &e.name)).collect();
            for n in local {
                if said(n) || runtime.contains(&n.as_str()) {
                    continue;
                }
                let c = decl.iter().filter(|d| *d == n).count();
                o.check(c == 1, || format!("seed {} world {}: {} declares {} {} times", seed, w.name, p.name, n, c));
                for (k, t) in toks.iter().enumerate() {
                    if t == n && k >= 2 && toks[k - 1] == ":" && toks[k - 2] == ":" && paths.iter().any(|p| {
                        let v = tokens(&format!("{}::", p)).unwrap();
                        k >= v.len() && toks[k - v.len()..k] == v[..]
                    }) {
                        o.check(false, || format!("seed {} world {}: {} refers to its own {} as `{}`", seed, w.name, p.name, n, toks[k.saturating_sub(8)..=k].join(" ")));
                    }
                }
                o.add("local_names", 1);
            }
        }
        if i < 1 {
            o.sample(&format!("{}: import paths {:?}", w.name, paths));
        }
        if o.viols > 10 {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(dir.join("w"));
    o.finish();
}
