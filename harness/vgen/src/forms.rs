//! The same schema in other words: any notation JSON5 allows gives the same code.
use crate::out::{guard, Out};
use crate::parts::{corpus, tree};
use crate::worlds::{generate, write_schemas};
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::Loader;
use serde_json::Value;
use std::path::{Path, PathBuf};
use vir::Rng;

struct Style {
    strict: bool,
    shuffle: bool,
    blanks: bool,
}

fn space(r: &mut Rng, s: &Style, o: &mut String) {
    if !s.blanks {
        return;
    }
    match r.below(9) {
        0 => o.push_str("\n\t"),
        1 => o.push_str("  "),
        2 if !s.strict => o.push_str(" /* , } ] \" ' */ "),
        3 if !s.strict => o.push_str(" // it's {name: [\n"),
        4 => o.push_str("\r\n"),
        5 if !s.strict => o.push('\u{a0}'),
        6 if !s.strict && r.chance(1, 6) => {
            // Brackets that open nothing.
            let n = *r.pick(&[1usize, 20, 129, 300]);
            match r.below(4) {
                0 => o.push_str(&format!("/*{}*/", "[".repeat(n))),
                1 => o.push_str(&format!("// \"{}\u{2028}", "{".repeat(n))),
                2 => o.push_str(&format!("//{}\u{2029}//'\n", "[{".repeat(n))),
                _ => o.push_str(&format!("/* * / {} \\*/", "{[".repeat(n))),
            }
        }
        _ => (),
    }
}

fn text(r: &mut Rng, s: &Style, v: &str, o: &mut String) {
    let quote = if s.strict || r.chance(1, 2) { '"' } else { '\'' };
    o.push(quote);
    for c in v.chars() {
        if r.chance(1, 24) {
            o.push_str(&format!("\\u{:04x}", c as u32));
        } else if !s.strict && c.is_ascii() && r.chance(1, 24) {
            o.push_str(&format!("\\x{:02X}", c as u32));
        } else if !s.strict && r.chance(1, 40) {
            o.push_str("\\\n");
            o.push(c);
        } else if c == '"' || c == '\\' || c == '\'' {
            o.push('\\');
            o.push(c);
        } else {
            o.push(c);
        }
    }
    o.push(quote);
}

fn put(r: &mut Rng, s: &Style, v: &Value, o: &mut String) {
    space(r, s, o);
    match v {
        Value::Null => o.push_str("null"),
        Value::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        Value::Number(n) => match (n.as_u64(), s.strict) {
            (Some(n), false) if n < 1 << 31 => match r.below(5) {
                0 => o.push_str(&format!("0x{:x}", n)),
                1 => o.push_str(&format!("0x{:X}", n)),
                2 => o.push_str(&format!("+{}", n)),
                _ => o.push_str(&n.to_string()),
            },
            _ => o.push_str(&n.to_string()),
        },
        Value::String(t) => text(r, s, t, o),
        Value::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                put(r, s, x, o);
            }
            space(r, s, o);
            if !a.is_empty() && !s.strict && r.chance(1, 3) {
                o.push(',');
            }
            o.push(']');
        }
        Value::Object(m) => {
            let mut k: Vec<(&String, &Value)> = m.iter().collect();
            if s.shuffle {
                for i in (1..k.len()).rev() {
                    let j = r.idx(i + 1);
                    k.swap(i, j);
                }
            }
            o.push('{');
            for (i, (n, x)) in k.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                space(r, s, o);
                let plain = n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !n.starts_with(|c: char| c.is_ascii_digit());
                if !s.strict && plain && r.chance(1, 2) {
                    o.push_str(n);
                } else {
                    text(r, s, n, o);
                }
                space(r, s, o);
                o.push(':');
                put(r, s, x, o);
            }
            space(r, s, o);
            if !k.is_empty() && !s.strict && r.chance(1, 3) {
                o.push(',');
            }
            o.push('}');
        }
    }
}

/// Members that say what their absence says.
fn defaults(r: &mut Rng, v: &mut Value, depth: usize) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| defaults(r, x, depth + 1)),
        Value::Object(m) => {
            if depth == 0 {
                if r.chance(1, 2) && !m.contains_key("endianness") {
                    m.insert("endianness".into(), Value::String("little".into()));
                } else if m.get("endianness") == Some(&Value::String("little".into())) && r.chance(1, 2) {
                    m.remove("endianness");
                }
                for k in ["imports", "structs", "messages", "enums", "unions"] {
                    if !m.contains_key(k) {
                        match r.below(3) {
                            0 => {
                                m.insert(k.into(), Value::Array(vec![]));
                            }
                            1 => {
                                m.insert(k.into(), Value::Null);
                            }
                            _ => (),
                        }
                    }
                }
            }
            let union_case = m.contains_key("case");
            if union_case && !m.contains_key("item_type") && r.chance(1, 2) {
                m.insert("item_type".into(), Value::Null);
            }
            if depth == 4 && m.contains_key("info") && !m.contains_key("optional") && !m.contains_key("array_len") && r.chance(1, 3) {
                let t = m["info"].get("type").and_then(|t| t.as_str()).unwrap_or("").to_string();
                if ["item", "list", "string", "payload", "union"].contains(&t.as_str()) {
                    m.insert("optional".into(), if r.chance(1, 2) { Value::Bool(false) } else { Value::Null });
                }
            }
            m.iter_mut().for_each(|(_, x)| defaults(r, x, depth + 1));
        }
        _ => (),
    }
}

/// C21: SEED START END DIR
pub fn main(args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let (start, end): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let dir = PathBuf::from(&args[3]);
    let mut o = Out::new();
    for i in start..end {
        let mut rng = Rng::of(&[seed, 21, i]);
        let w = corpus(&mut rng, i);
        let d = dir.join("w");
        let _ = std::fs::remove_dir_all(&d);
        let files = write_schemas(&w, &d.join("schema"));
        let out = d.join("out");
        let first = guard(|| generate(&w, &files, &out));
        if !matches!(first, Ok(Ok(_))) {
            o.check(false, || format!("seed {} world {} ({}): a well-formed schema is refused: {:?}", seed, i, w.name, first.map(|r| r.err())));
            continue;
        }
        let want = tree(&out);
        o.add("worlds", 1);
        for form in 0..6u64 {
            let style = Style { strict: form % 3 == 0, shuffle: form > 0, blanks: form > 1 };
            let mut texts = Vec::new();
            for (p, f) in w.protos.iter().zip(&files) {
                let mut v: Value = json5::from_str(&vir::emit::proto(&w, p)).expect("emitted schema");
                if form > 2 {
                    defaults(&mut rng, &mut v, 0);
                }
                let mut t = String::new();
                if style.blanks && !style.strict {
                    t.push_str("// schema\n");
                }
                put(&mut rng, &style, &v, &mut t);
                if style.blanks {
                    t.push_str("\n\n");
                }
                std::fs::write(f, &t).unwrap();
                o.see(t.as_bytes());
                texts.push(t);
            }
            let _ = std::fs::remove_dir_all(&out);
            let r = guard(|| generate(&w, &files, &out));
            o.add("forms", 1);
            let show = || texts.iter().map(|t| t.chars().take(1500).collect::<String>()).collect::<Vec<_>>().join(" --- ");
            if !matches!(r, Ok(Ok(_))) {
                o.check(false, || format!("seed {} world {} ({}): another notation of an accepted schema is refused: {:?}: {}", seed, i, w.name, r.map(|r| r.err()), show()));
                continue;
            }
            let got = tree(&out);
            o.check(got == want, || {
                let f: Vec<&String> = want.keys().chain(got.keys()).filter(|k| want.get(*k) != got.get(*k)).collect();
                format!("seed {} world {} ({}): another notation of the same schema gives another {:?}: {}", seed, i, w.name, f, show())
            });
            if i == start && form == 5 && start == 0 {
                o.sample(&show());
            }
        }
        if o.viols > 10 {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(dir.join("w"));
    o.finish();
}

/// Schema files into code and a program that consists of it: FILE... DIR; several files can import each other.
pub fn probe(args: &[String]) {
    let (files, dir) = args.split_at(args.len() - 1);
    let dir = Path::new(&dir[0]);
    let mut l = Loader::new();
    let r = files.iter().filter(|_| files.len() > 1).try_for_each(|f| {
        l.import(f, format!("crate::{}", Path::new(f).file_stem().unwrap().to_string_lossy()))
    }).and_then(|_| files.iter().try_for_each(|f| l.load(f))).map_err(|e| e.to_string())
        .and_then(|_| l.compile(SimpleImportSolver::new("::")).map_err(|e| e.to_string()))
        .and_then(|p| p.set_reads_messages(true).set_writes_messages(true).generate::<GeneratorRust>(dir).map_err(|e| e.to_string()).map(|v| v.into_iter().map(|p| p.path).collect::<Vec<_>>()));
    match r {
        Ok(v) => {
            let t: String = v.iter().map(|p| format!("include!({:?});\n", p)).collect();
            std::fs::write(dir.join("main.rs"), format!("#![allow(warnings)]\n{}fn main() {{}}\n", t)).unwrap();
        }
        Err(e) => {
            println!("{}", e);
            std::process::exit(1);
        }
    }
}
