//! Hostile schema files: whatever they contain, the compiler answers with code or an error.
use crate::out::{guard, Out};
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{Error, Loader};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use vir::Rng;

/// What a text must be answered with, when that is known from how it was made.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Must {
    Any,
    Io,
    Model,
}

/// A JSON-like value that can be spelt in odd ways.
#[derive(Clone, Debug)]
enum V {
    Raw(String),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

impl V {
    fn put(&self, s: &mut String, rng: &mut Rng, odd: bool) {
        match self {
            V::Raw(r) => s.push_str(r),
            V::Str(t) => {
                let q = if odd && rng.chance(1, 2) { '\'' } else { '"' };
                s.push(q);
                for c in t.chars() {
                    match c {
                        '\\' => s.push_str("\\\\"),
                        '"' | '\'' => {
                            s.push('\\');
                            s.push(c);
                        }
                        '\n' => s.push_str("\\n"),
                        '\r' => s.push_str("\\r"),
                        c if (c as u32) < 32 => {
                            let _ = write!(s, "\\u{:04x}", c as u32);
                        }
                        c if odd && rng.chance(1, 8) && (c as u32) < 0x10000 => {
                            let _ = write!(s, "\\u{:04x}", c as u32);
                        }
                        c => s.push(c),
                    }
                }
                s.push(q);
            }
            V::Arr(v) => {
                s.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    x.put(s, rng, odd);
                }
                if odd && !v.is_empty() && rng.chance(1, 3) {
                    s.push(',');
                }
                s.push(']');
            }
            V::Obj(v) => {
                s.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        s.push_str(if odd && rng.chance(1, 4) { " , /* c */ " } else { "," });
                    }
                    if odd && rng.chance(1, 2) && !k.is_empty() && k.chars().all(|c| c.is_ascii_alphabetic() || c == '_') {
                        s.push_str(k);
                    } else {
                        V::Str(k.clone()).put(s, rng, odd);
                    }
                    s.push(':');
                    x.put(s, rng, odd);
                }
                s.push('}');
            }
        }
    }
}

const NAMES: &[&str] = &["A", "B", "a", "b", "x", "Foo", "", "é", "日本", "A.B", "self", "fn", "type", "a b", "{", "}}", "{name}", "\"", "\\n", "\n", "<'a>", "crate::x", "1", "_", "ß", "A\u{0}", "R#x", "u8", "Vec", "Option", "🦀", "éa", "ñandú"];
const NUMS: &[&str] = &["0", "1", "2", "3", "7", "8", "9", "15", "16", "17", "24", "31", "32", "33", "40", "48", "56", "63", "64", "65", "127", "128", "255", "256", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "-8", "1.5", "1e3", "1e400", "-1e400", "0x10", "0xFFFFFFFFFFFFFFFF", "0x1FFFFFFFFFFFFFFFFF", "NaN", "Infinity", "-Infinity", "null", "true", "+1", ".5", "5.", "1e-400", "-0", "2305843009213693951", "2305843009213693952", "1152921504606846976"];

thread_local! {
    /// Documents that get past the model: odd in meaning only.
    static CLEAN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn clean() -> bool {
    CLEAN.with(|c| c.get())
}

fn name(rng: &mut Rng) -> V {
    if clean() {
        return V::Str(if rng.chance(1, 40) { rng.pick(NAMES).to_string() } else { NAMES[rng.idx(3)].to_string() });
    }
    if rng.chance(1, 40) {
        return V::Str("n".repeat(rng.range(100, 5000) as usize));
    }
    if rng.chance(1, 30) {
        return V::Raw(rng.pick(NUMS).to_string());
    }
    V::Str(if rng.chance(2, 3) { NAMES[rng.idx(6)].to_string() } else { rng.pick(NAMES).to_string() })
}

/// Protocol names become directory names: never one that leads elsewhere.
fn proto_name(rng: &mut Rng) -> V {
    V::Str(rng.pick(&["p", "q", "proto", "P", "é", "a b", "{", "x.y", "1", "日本", "p2"]).to_string())
}

const CLEAN_NUMS: &[&str] = &["0", "1", "8", "16", "24", "32", "33", "63", "64", "65", "255", "256", "65536", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "2305843009213693951", "2305843009213693952", "1152921504606846976", "0x10"];

fn num(rng: &mut Rng) -> V {
    if clean() {
        return V::Raw(match rng.below(8) {
            0 => rng.pick(CLEAN_NUMS).to_string(),
            1..=4 => (8 * rng.range(1, 8)).to_string(),
            _ => rng.range(1, 64).to_string(),
        });
    }
    if rng.chance(1, 2) {
        V::Raw(rng.range(1, 70).to_string())
    } else if rng.chance(1, 4) {
        V::Raw(rng.next().to_string())
    } else {
        V::Raw(rng.pick(NUMS).to_string())
    }
}

fn real(rng: &mut Rng) -> V {
    V::Raw(rng.pick(&["0", "1", "-1", "0.5", "1e308", "-1e308", "1e400", "-1e400", "NaN", "Infinity", "-Infinity", "1e-400", "-0", "3", "100.25", "5e-324", "65535"]).to_string())
}

fn mangle(rng: &mut Rng, mut o: Vec<(String, V)>) -> V {
    if clean() {
        return V::Obj(o);
    }
    match rng.below(60) {
        0 if !o.is_empty() => {
            let i = rng.idx(o.len());
            o.remove(i);
        }
        1 => o.push(("extra".into(), num(rng))),
        2 if !o.is_empty() => {
            let i = rng.idx(o.len());
            o[i].1 = V::Raw("null".into());
        }
        3 if !o.is_empty() => {
            let i = rng.idx(o.len());
            o[i].1 = V::Arr(vec![]);
        }
        4 if !o.is_empty() => {
            let d = rng.pick(&o).clone();
            o.push(d);
        }
        5 if !o.is_empty() => {
            let i = rng.idx(o.len());
            o[i].0 = rng.pick(NAMES).to_string();
        }
        6 => return V::Arr(o.into_iter().map(|v| v.1).collect()),
        7 => {
            for i in (1..o.len()).rev() {
                o.swap(i, rng.idx(i + 1));
            }
        }
        _ => (),
    }
    V::Obj(o)
}

fn list(rng: &mut Rng, max: u64, f: impl Fn(&mut Rng) -> V) -> V {
    let n = rng.below(max + 1);
    V::Arr((0..n).map(|_| f(rng)).collect())
}

fn s(v: &str) -> V {
    V::Str(v.into())
}

fn sfield(rng: &mut Rng) -> V {
    let ty = *rng.pick(&["unsigned", "signed", "float", "boolean", "struct", "unsigned", if clean() { "unsigned" } else { "string" }]);
    let mut info = vec![("type".to_string(), s(ty))];
    if ty == "struct" {
        info.push(("item_type".into(), name(rng)));
    } else {
        info.push(("bits".into(), num(rng)));
    }
    let mut o = vec![("name".to_string(), name(rng)), ("info".to_string(), mangle(rng, info))];
    if rng.chance(1, 3) {
        let v = match rng.below(4) {
            0 => vec![("type".to_string(), s("enum")), ("name".into(), name(rng))],
            1 => vec![("type".to_string(), s("float-range")), ("min".into(), real(rng)), ("max".into(), real(rng))],
            2 => vec![("type".to_string(), s("float-multiplier")), ("multiplier".into(), real(rng))],
            _ if clean() => vec![("type".to_string(), s("enum")), ("name".into(), name(rng))],
            _ => vec![("type".to_string(), name(rng))],
        };
        o.push(("view".into(), mangle(rng, v)));
    }
    if rng.chance(1, 5) {
        o.push(("array_len".into(), num(rng)));
    }
    mangle(rng, o)
}

fn mfield(rng: &mut Rng) -> V {
    let info = match rng.below(7) {
        0 | 1 => vec![("type".to_string(), s("item")), ("item_type".into(), name(rng))],
        2 => vec![("type".to_string(), s("list")), ("max_len".into(), num(rng)), ("item_type".into(), name(rng))],
        3 => vec![("type".to_string(), s("string"))],
        4 => vec![("type".to_string(), s("string")), ("max_len".into(), num(rng))],
        5 => vec![("type".to_string(), s("payload"))],
        _ => vec![("type".to_string(), s("union")), ("on".into(), name(rng)), ("item_type".into(), name(rng))],
    };
    let mut o = vec![("name".to_string(), name(rng)), ("info".to_string(), mangle(rng, info))];
    if rng.chance(1, 3) {
        o.push(("optional".into(), V::Raw(rng.pick(&["true", "false", "null", if clean() { "true" } else { "1" }]).to_string())));
    }
    mangle(rng, o)
}

fn schema(rng: &mut Rng) -> V {
    let mut o = vec![("name".to_string(), proto_name(rng))];
    if rng.chance(1, 2) {
        o.push(("endianness".into(), s(rng.pick(&["big", "little", if clean() { "big" } else { "Big" }, if clean() { "big" } else { "" }]))));
    }
    if rng.chance(1, if clean() { 12 } else { 3 }) {
        o.push(("imports".into(), list(rng, 3, |r| {
            let p = rng_name(r);
            let o = vec![("protocol".to_string(), p), ("type".to_string(), name(r))];
            mangle(r, o)
        })));
    }
    if rng.chance(2, 3) {
        o.push(("enums".into(), list(rng, 3, |r| {
            let n = if clean() { r.range(1, 5) } else { r.below(5) };
            let vars = V::Obj((0..n).map(|_| (r.pick(NAMES).to_string(), num(r))).collect());
            let o = vec![("name".to_string(), name(r)), ("variants".to_string(), vars)];
            mangle(r, o)
        })));
    }
    if rng.chance(4, 5) {
        o.push(("structs".into(), list(rng, 5, |r| {
            let o = vec![("name".to_string(), name(r)), ("fields".to_string(), list(r, 5, sfield))];
            mangle(r, o)
        })));
    }
    if rng.chance(1, 2) {
        o.push(("unions".into(), list(rng, 3, |r| {
            let k = if clean() { 3 } else { NAMES.len() };
            let root = NAMES[r.idx(k)];
            let leaf = NAMES[r.idx(k)];
            let d = r.pick(&[format!("{}.{}", root, leaf), format!("{}.{}.{}", root, leaf, root), root.to_string(), ".".into(), "..".into(), format!("{}.", root)]).clone();
            let cases = list(r, 4, |r| {
                let c = r.pick(&["0", "1", "-1", "2", "", "A", "B", "255", "256", "18446744073709551615", "-9223372036854775808", "-9223372036854775809", "x", "1.5", "0x1", " 1", "+1"]).to_string();
                let mut o = vec![("name".to_string(), name(r)), ("case".to_string(), V::Str(c))];
                if r.chance(1, 2) {
                    o.push(("item_type".into(), name(r)));
                }
                mangle(r, o)
            });
            let o = vec![("name".to_string(), name(r)), ("discriminant".to_string(), V::Str(d)), ("cases".to_string(), cases)];
            mangle(r, o)
        })));
    }
    if rng.chance(3, 5) {
        o.push(("messages".into(), list(rng, 4, |r| {
            let o = vec![("name".to_string(), name(r)), ("fields".to_string(), list(r, 5, mfield))];
            mangle(r, o)
        })));
    }
    if !clean() && rng.chance(1, 60) {
        o.retain(|v| v.0 != "name");
    }
    V::Obj(o)
}

fn rng_name(r: &mut Rng) -> V {
    V::Str(r.pick(&["alpha", "beta", "p", "q", "", "é"]).to_string())
}

const TOKENS: &[&str] = &["{", "}", "[", "]", ",", ":", "\"", "'", "\\", "\\u", "\\ud800", "\\u{110000}", "\\x0", "\\\n", "//", "/*", "*/", "null", "true", "NaN", "-Infinity", "0x", "1e", "1e999", "-", "+", ".", "9223372036854775808", "18446744073709551616", "\"bits\"", "\"type\"", "\"name\"", "\"info\"", "\"fields\"", "max_len", "array_len", "64", "0", "65", "\u{feff}", "\u{2028}", "\u{0}", "\r", "é", "🦀"];

fn corrupt(rng: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..rng.range(1, 6) {
        if b.is_empty() {
            b.push(rng.next() as u8);
            continue;
        }
        let i = rng.idx(b.len());
        match rng.below(9) {
            0 => b[i] ^= 1 << rng.below(8),
            1 => b[i] = rng.next() as u8,
            2 => {
                let n = (rng.range(1, 20) as usize).min(b.len() - i);
                b.drain(i..i + n);
            }
            3 => {
                let t = rng.pick(TOKENS).as_bytes().to_vec();
                b.splice(i..i, t);
            }
            4 => b.truncate(i),
            5 => {
                let j = rng.idx(b.len());
                let (x, y) = (i.min(j), i.max(j));
                let part = b[x..y.min(x + 60)].to_vec();
                let k = rng.idx(b.len());
                b.splice(k..k, part);
            }
            6 | 7 => {
                // Another number or word in the place of one.
                let is = |c: u8| c.is_ascii_digit();
                if let Some(a) = (i..b.len()).find(|k| is(b[*k])) {
                    let e = (a..b.len()).find(|k| !is(b[*k])).unwrap_or(b.len());
                    let t = rng.pick(NUMS).as_bytes().to_vec();
                    b.splice(a..e, t);
                }
            }
            _ => {
                let j = rng.idx(b.len());
                b.swap(i, j);
            }
        }
    }
}

pub struct Case {
    pub files: Vec<(Vec<u8>, Option<String>)>, // contents, import path (None: load)
    pub must: Must,
    pub kind: &'static str,
}

fn base(rng: &mut Rng) -> Vec<String> {
    let fam = *rng.pick(&["mbasic", "munion", "mimport", "mrand", "srand", "sview", "mlist"]);
    let w = vir::corpus::world(fam, rng.below(40), rng.below(6) as usize);
    w.protos.iter().map(|p| vir::emit::proto(&w, p)).collect()
}

pub fn case(seed: u64, i: u64) -> Case {
    let mut rng = Rng::of(&[seed, 19, i]);
    let r = &mut rng;
    match i % 16 {
        0..=5 => {
            // Odd schemas that follow the grammar.
            let odd = r.chance(1, 2);
            CLEAN.with(|c| c.set(i % 16 < 4));
            let n = r.range(1, 2);
            let mut files = Vec::new();
            for k in 0..n {
                let mut t = String::new();
                schema(r).put(&mut t, &mut r.clone(), odd);
                files.push((t.into_bytes(), if k + 1 < n { Some("crate::x".into()) } else { None }));
            }
            Case { files, must: Must::Any, kind: "odd" }
        }
        6..=10 => {
            let texts = base(r);
            let k = r.idx(texts.len());
            let mut files: Vec<(Vec<u8>, Option<String>)> = Vec::new();
            for (j, t) in texts.iter().enumerate() {
                let mut b = t.clone().into_bytes();
                if j == k {
                    corrupt(r, &mut b);
                }
                if j + 1 < texts.len() {
                    files.push((b.clone(), Some(format!("crate::p{}", j))));
                } else {
                    files.push((b, None));
                }
            }
            Case { files, must: Must::Any, kind: "corrupted" }
        }
        11 => {
            let n = r.below(200) as usize;
            let b = if r.chance(1, 2) { r.bytes(n) } else { (0..n).flat_map(|_| r.pick(TOKENS).bytes().collect::<Vec<u8>>()).collect() };
            Case { files: vec![(b, None)], must: Must::Any, kind: "noise" }
        }
        12 => {
            // A text that stops early cannot be a document.
            let t = base(r).remove(0).into_bytes();
            let n = 1 + r.idx(t.iter().rposition(|b| *b == b'}').unwrap() - 1);
            Case { files: vec![(t[..n].to_vec(), None)], must: if std::str::from_utf8(&t[..n]).is_ok() { Must::Model } else { Must::Io }, kind: "truncated" }
        }
        13 => {
            let mut t = base(r).remove(0).into_bytes();
            let i = r.idx(t.len());
            t.insert(i, *r.pick(&[0xff, 0xc0, 0xf8, 0x80]));
            Case { files: vec![(t, None)], must: Must::Io, kind: "not utf-8" }
        }
        14 => {
            // Wrong or missing members, wrong types.
            let t = base(r).remove(0);
            let (a, b) = *r.pick(&[
                ("name: ", "nome: "), ("fields: [", "field: ["), ("info: {", "infos: {"), ("type: \"", "typo: \""),
                ("type: \"unsigned\"", "type: \"Unsigned\""), ("type: \"item\"", "type: \"Item\""), ("bits: ", "bits: -"), ("bits: ", "bits: \"1\", x: "),
                ("bits: ", "bit: "), ("type: \"item\", item_type: ", "type: \"item\", itemtype: "), ("fields: [", "fields: [null, "), ("fields: [", "fields: [1, "), ("name: \"", "name: 1, x: \""),
                ("endianness: \"", "endianness: \"x"), ("variants: {", "variants: [] , x: {"), ("info: {", "info: 1, y: {"), ("type: \"enum\"", "type: \"enums\""), ("min: ", "mini: "), ("max: ", "maxi: "), ("multiplier: ", "mult: "),
                ("max_len: ", "max_len: -1, z: "), ("optional: true", "optional: 1"), ("structs: [", "structs: {}, y: ["), ("case: ", "cases: "), ("discriminant: ", "disc: "), ("protocol: ", "proto: "),
            ]);
            // Not every text has every member; a member that is optional is not missed.
            let places: Vec<usize> = t.match_indices(a).map(|m| m.0).filter(|p| *p == 0 || !t.as_bytes()[*p - 1].is_ascii_alphanumeric() && t.as_bytes()[*p - 1] != b'_').collect();
            if places.is_empty() {
                return Case { files: vec![(t.into_bytes(), None)], must: Must::Any, kind: "members" };
            }
            let p = *r.pick(&places);
            let t = format!("{}{}{}", &t[..p], b, &t[p + a.len()..]);
            Case { files: vec![(t.into_bytes(), None)], must: Must::Model, kind: "members" }
        }
        _ => {
            // Long or deep documents.
            let n = match r.below(6) {
                0 => r.range(1, 64),
                1 => r.range(64, 127),
                2 => r.range(128, 600),
                3 => r.range(600, 5000),
                4 => 20000,
                _ => 200000,
            } as usize;
            let t = match r.below(11) {
                8.. => decoys(r, n),
                0 => format!("{}{}", "[".repeat(n), "]".repeat(n)),
                1 => format!("{{name: \"p\", x: {}1{}}}", "{a:".repeat(n), "}".repeat(n)),
                2 => "[".repeat(n),
                3 => format!("{{name: \"p\", x: {}{}}}", "[".repeat(n), "]".repeat(n)),
                4 => format!("{{name: \"p\", structs: [{{name: \"S\", fields: [{}]}}]}}", (0..n.min(3000)).map(|k| format!("{{name: \"f{}\", info: {{type: \"unsigned\", bits: {}}}}}", k, k % 64 + 1)).collect::<Vec<_>>().join(",")),
                5 => format!("/*{}*/ {{name: 'p'}}", "*".repeat(n)),
                6 => format!("{{name: 'p', structs: [{}]}}", (0..n.min(600)).map(|k| if k == 0 { "{name: 'S0', fields: [{name: 'x', info: {type: 'unsigned', bits: 8}}]}".to_string() } else { format!("{{name: 'S{}', fields: [{{name: 'a', info: {{type: 'struct', item_type: 'S{}'}}}}, {{name: 'b', info: {{type: 'struct', item_type: 'S{}'}}}}]}}", k, k - 1, k - 1) }).collect::<Vec<_>>().join(",")),
                _ => format!("{{name: \"p\", messages: [{}]}}", (0..n.min(1000)).map(|k| if k == 0 { "{name: 'M0', fields: []}".to_string() } else { format!("{{name: 'M{}', fields: [{{name: 'a', info: {{type: 'item', item_type: 'M{}'}}}}]}}", k, k - 1) }).collect::<Vec<_>>().join(",")),
            };
            Case { files: vec![(t.into_bytes(), None)], must: Must::Any, kind: "large" }
        }
    }
}

/// Strings and comments full of quotes and brackets, before what is nested.
fn decoys(r: &mut Rng, n: usize) -> String {
    let strings = [r#""\"""#, r"'\\'", r#"'"'"#, r#""'""#, r#""//""#, "'/*'", "'*/'", "\"\\\n\"", r#""\\\"""#, "'[[[['", "\"]]]]]]\"", "'{'", r"'\''", r"'\'}}}'", "''", "\"\"", "'\u{2028}'"];
    let comments = ["/* ' */", "/* \" */", "// '\n", "// \"\u{2028}", "// it's\u{2029}", "// ]]]]\r", "/* ]]]] */", "/**/", "/***/", "//*\n", "/*//*/", "/* * / ]] */", "//\n", "/*/*/", "// \\\n", "/* \\*/"];
    let mut t = String::from("[");
    for _ in 0..r.range(1, 8) {
        if r.chance(2, 3) {
            t.push_str(*r.pick(&strings));
            t.push(',');
        }
        if r.chance(1, 2) {
            t.push_str(*r.pick(&comments));
        }
    }
    let (open, close) = *r.pick(&[("[", "]"), ("{a:", "}"), ("[/*]*/", "]"), ("[']',", "]"), ("{'}':", "}"), ("[//]\n", "]"), ("[\"\\\"]\",", "]")]);
    t.push_str(&open.repeat(n));
    if open.ends_with(':') {
        t.push('1');
    }
    if r.chance(3, 4) {
        t.push_str(&close.repeat(n));
        t.push(']');
    }
    t
}

/// The protocol's name, when the text has one that may be used as a directory.
fn safe_name(b: &[u8]) -> bool {
    #[derive(serde::Deserialize)]
    struct N {
        name: String,
    }
    let Ok(t) = std::str::from_utf8(b) else { return false };
    match json5::from_str::<N>(t) {
        Ok(n) => !n.name.is_empty() && !n.name.contains(['/', '\\', '\0']) && n.name != "." && n.name != ".." && n.name.len() < 200,
        Err(_) => false,
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Ans {
    Code,
    Io,
    Model,
    Compiler,
    Generator,
}

fn answer(files: &[(PathBuf, Option<String>)], out: Option<&Path>) -> Ans {
    let of = |e: Error| match e {
        Error::Io(_) => Ans::Io,
        Error::Model(_) => Ans::Model,
        Error::Compiler(_) => Ans::Compiler,
        Error::Generator(_) => Ans::Generator,
    };
    let mut l = Loader::new();
    for (f, p) in files {
        let r = match p {
            Some(p) => l.import(f, p.clone()),
            None => l.load(f),
        };
        if let Err(e) = r {
            let _ = e.to_string();
            return of(e);
        }
    }
    match l.compile(SimpleImportSolver::new("::")) {
        Err(e) => {
            let _ = e.to_string();
            of(e)
        }
        Ok(p) => match out {
            None => Ans::Code,
            Some(out) => match p.set_reads_messages(true).set_writes_messages(true).generate::<GeneratorRust>(out) {
                Err(e) => of(e),
                Ok(_) => Ans::Code,
            },
        },
    }
}

/// SEED START END DIR
pub fn main(args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let start: u64 = args[1].parse().unwrap();
    let end: u64 = args[2].parse().unwrap();
    let dir = PathBuf::from(&args[3]);
    let mut o = Out::new();
    let progress = dir.join("at");
    for i in start..end {
        std::fs::write(&progress, i.to_string()).unwrap();
        let c = case(seed, i);
        let d = dir.join("case");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("out")).unwrap();
        let mut files = Vec::new();
        let mut key = Vec::new();
        for (k, (b, p)) in c.files.iter().enumerate() {
            let f = d.join(format!("f{}.json5", k));
            std::fs::write(&f, b).unwrap();
            key.extend(b);
            files.push((f, p.clone()));
        }
        o.see(&key);
        o.add("schemas", 1);
        o.add(&format!("made_{}", c.kind.replace([' ', '-'], "_")), 1);
        let safe = c.kind == "large" || c.files.last().map(|f| safe_name(&f.0)).unwrap_or(false);
        let out = d.join("out");
        let r = guard(|| answer(&files, if safe { Some(&out) } else { None }));
        let text = || format!("seed {} case {}: {:?}", seed, i, c.files.iter().map(|f| String::from_utf8_lossy(&f.0).chars().take(700).collect::<String>()).collect::<Vec<_>>());
        match r {
            Err(p) => {
                o.check(false, || format!("the compiler panicked ({}) on {}", p, text()));
            }
            Ok(a) => {
                o.add(&format!("answer_{:?}", a), 1);
                let ok = match c.must {
                    Must::Any => true,
                    Must::Io => a == Ans::Io,
                    Must::Model => a == Ans::Model,
                };
                o.check(ok, || format!("answered {:?} instead of {:?} ({}) on {}", a, c.must, c.kind, text()));
            }
        }
        if i < start + 2 && start == 0 {
            o.sample(&text());
        }
        if o.viols > 10 {
            break;
        }
    }
    if start == 0 {
        files(&mut o, &dir);
    }
    std::fs::write(&progress, "done").unwrap();
    let _ = std::fs::remove_dir_all(dir.join("case"));
    o.finish();
}

/// Files that cannot be read.
fn files(o: &mut Out, dir: &Path) {
    let d = dir.join("files");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("sub")).unwrap();
    std::fs::write(d.join("empty"), b"").unwrap();
    std::os::unix::fs::symlink(d.join("loop"), d.join("loop")).unwrap();
    let cases = [("missing", Ans::Io), ("sub", Ans::Io), ("empty", Ans::Model), ("loop", Ans::Io), ("sub/nothing/x", Ans::Io), ("empty/x", Ans::Io), ("a\0b", Ans::Io)];
    for (n, want) in cases {
        for imp in [None, Some("x".to_string())] {
            let got = guard(|| answer(&[(d.join(n), imp.clone())], None));
            o.add("file_faults", 1);
            o.check(got == Ok(want), || format!("the file {:?} gave {:?} instead of {:?}", n, got, want));
        }
    }
    // An output directory that is missing, or is not a directory.
    std::fs::write(d.join("ok.json5"), "{name: 'p', structs: [{name: 'S', fields: [{name: 'x', info: {type: 'unsigned', bits: 3}}]}]}").unwrap();
    for n in ["none/such", "empty", "loop"] {
        let got = guard(|| answer(&[(d.join("ok.json5"), None)], Some(&d.join(n))));
        o.add("file_faults", 1);
        o.check(got == Ok(Ans::Io), || format!("generating into {:?} gave {:?} instead of an I/O error", n, got));
    }
    let _ = std::fs::remove_dir_all(&d);
}

/// SEED INDEX: writes the case out.
pub fn dump(args: &[String]) {
    let c = case(args[0].parse().unwrap(), args[1].parse().unwrap());
    for (b, p) in &c.files {
        println!("// {} {:?}", c.kind, p);
        println!("{}", String::from_utf8_lossy(b).chars().take(4000).collect::<String>());
    }
}
