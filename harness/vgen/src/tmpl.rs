//! Templates against a reference renderer.
use crate::out::{guard, Out};
use bp3d_protoc::gen::template::{Error, FunctionMap, Scope, Template};
use std::borrow::Cow;
use std::collections::HashMap;
use vir::Rng;

#[derive(Clone, Debug)]
enum Piece {
    Text(String),
    Open,
    Close,
    Var(String, Option<String>),
}

#[derive(Clone, Debug)]
enum Node {
    Line(Vec<Piece>),
    Frag(Frag),
}

#[derive(Clone, Debug)]
struct Frag {
    name: String,
    body: Vec<Node>,
}

const VARS: &[&str] = &["a", "b", "name", "name2", "nam", "x_y", "type", "éa", "a b", "A", "_", "fragment", "0"];
const FUNCS: &[&str] = &["upper", "lower", "capitalize", "double", "hash", "empty", "up"];
const TEXTS: &[&str] = &["x", " ", "hello world", ":", "a:upper", "#", "# fragment push a", "    pub fn ", "é", "日本", "\\n", "\"", "//", "(", ")->", "name", ",", ";", "\t", "%s", "$1", "#fragment", "pop", "ß"];
const VALUES: &[&str] = &["", "v", "Value", "mixedCase", "ALLCAPS", "{a}", "{{", "}}", "}", "{", "{b:upper}", "line1\nline2", "\r\n", "#fragment pop", "#fragment push z", "é", "éclair", "ßtraße", "İ", "日本語", " lead", "1abc", "_x", "a.b", "z", "\0"];

fn custom(v: &str) -> Cow<str> {
    format!("{}{}", v, v).into()
}
fn hashes(v: &str) -> Cow<str> {
    format!("#{}{{a}}", v).into()
}
fn empty(_: &str) -> Cow<str> {
    "".into()
}

/// What each case function means.
fn apply(f: &str, v: &str) -> String {
    match f {
        "upper" => v.to_uppercase(),
        "lower" => v.to_lowercase(),
        "capitalize" => {
            let mut c = v.chars();
            match c.next() {
                Some(k) if k.is_ascii_lowercase() => format!("{}{}", k.to_ascii_uppercase(), c.as_str()),
                _ => v.into(),
            }
        }
        "double" => custom(v).into_owned(),
        "hash" => hashes(v).into_owned(),
        _ => String::new(),
    }
}

fn gen_line(rng: &mut Rng, funcs: &[&str]) -> Vec<Piece> {
    let n = rng.range(1, 7);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(match rng.below(8) {
            0..=2 => Piece::Text(rng.pick(TEXTS).to_string()),
            3 => Piece::Open,
            4 => Piece::Close,
            _ => Piece::Var(rng.pick(VARS).to_string(), if rng.chance(1, 2) && !funcs.is_empty() { Some(rng.pick(funcs).to_string()) } else { None }),
        });
    }
    v
}

fn line_text(l: &[Piece]) -> String {
    l.iter().map(|p| match p {
        Piece::Text(t) => t.clone(),
        Piece::Open => "{{".into(),
        Piece::Close => "}}".into(),
        Piece::Var(n, None) => format!("{{{}}}", n),
        Piece::Var(n, Some(f)) => format!("{{{}:{}}}", n, f),
    }).collect()
}

fn usable(l: &[Piece]) -> bool {
    let t = line_text(l);
    !t.starts_with("#fragment p") && !t.starts_with("#fragment ") && !t.ends_with('\r')
}

fn gen_frag(rng: &mut Rng, depth: usize, name: String, funcs: &[&str]) -> Frag {
    let mut body = Vec::new();
    let mut used: Vec<String> = Vec::new();
    for _ in 0..rng.below(6) {
        if depth < 3 && rng.chance(1, 3) {
            let n = gen_name(rng);
            if !used.contains(&n) {
                used.push(n.clone());
                body.push(Node::Frag(gen_frag(rng, depth + 1, n, funcs)));
            }
        } else {
            let l = gen_line(rng, funcs);
            if usable(&l) {
                body.push(Node::Line(l));
            }
        }
    }
    Frag { name, body }
}

fn gen_name(rng: &mut Rng) -> String {
    rng.pick(&["a", "b", "ab", "fn", "fn_2", "decl", "é", "x y", "A", "read", "write"]).to_string()
}

fn emit(rng: &mut Rng, f: &Frag, crlf: bool, out: &mut Vec<String>) {
    out.push(format!("#fragment push {}", f.name));
    for n in &f.body {
        match n {
            Node::Line(l) => out.push(line_text(l)),
            Node::Frag(g) => emit(rng, g, crlf, out),
        }
        if !crlf && rng.chance(1, 6) {
            out.push(String::new());
        }
    }
    out.push("#fragment pop".into());
}

fn index(f: &Frag, path: &str, out: &mut HashMap<String, Vec<Vec<Piece>>>) {
    let full = if path.is_empty() { f.name.clone() } else { format!("{}.{}", path, f.name) };
    let mut lines = Vec::new();
    for n in &f.body {
        match n {
            Node::Line(l) => lines.push(l.clone()),
            Node::Frag(g) => index(g, &full, out),
        }
    }
    out.insert(full, lines);
}

#[derive(Debug, PartialEq)]
enum Want {
    Ok(String),
    Errs(Vec<String>),
}

fn want(idx: &HashMap<String, Vec<Vec<Piece>>>, vars: &HashMap<String, String>, path: &str, frags: &[&str]) -> Want {
    let mut s = String::new();
    let mut errs = Vec::new();
    for f in frags {
        let full = if path.is_empty() { f.to_string() } else { format!("{}.{}", path, f) };
        let Some(lines) = idx.get(&full) else {
            errs.push(format!("fragment {}", full));
            continue;
        };
        for l in lines {
            for p in l {
                match p {
                    Piece::Text(t) => s.push_str(t),
                    Piece::Open => s.push('{'),
                    Piece::Close => s.push('}'),
                    Piece::Var(n, f) => match vars.get(n) {
                        None => errs.push(format!("variable {}", n)),
                        Some(v) => match f {
                            None => s.push_str(v),
                            Some(f) => s.push_str(&apply(f, v)),
                        },
                    },
                }
            }
            s.push('\n');
        }
    }
    if errs.is_empty() { Want::Ok(s) } else { Want::Errs(errs) }
}

fn name_of(e: &Error) -> String {
    match e {
        Error::FragmentNotFound(n) => format!("fragment {}", n),
        Error::VariableNotFound(n) => format!("variable {}", n),
        Error::FunctionNotFound(n) => format!("function {}", n),
        Error::InvalidUTF8 => "utf8".into(),
        Error::InvalidPop => "pop".into(),
        Error::NoFragment => "outside".into(),
    }
}

fn functions(custom_map: u64) -> (FunctionMap<'static>, Vec<&'static str>) {
    match custom_map {
        0 => (FunctionMap::default(), vec!["upper", "lower", "capitalize"]),
        1 => {
            let mut m = FunctionMap::default();
            m.add("double", custom).add("hash", hashes).add("empty", empty);
            (m, vec!["upper", "lower", "capitalize", "double", "hash", "empty"])
        }
        2 => {
            let mut m = FunctionMap::new();
            m.add("double", custom);
            (m, vec!["double"])
        }
        _ => (FunctionMap::new(), vec![]),
    }
}

fn judge(o: &mut Out, text: &str, got: Result<Result<String, Error>, String>, want: Want, what: &str) {
    o.add("renders", 1);
    match (&got, &want) {
        (Ok(Ok(s)), Want::Ok(t)) => {
            o.check(s == t, || format!("{} rendered {:?} instead of {:?}; template {:?}", what, s, t, text));
        }
        (Ok(Err(e)), Want::Errs(v)) => {
            o.add("render_errors", 1);
            o.check(v.contains(&name_of(e)), || format!("{} reported {:?} instead of {:?}; template {:?}", what, name_of(e), v, text));
        }
        _ => {
            o.check(false, || format!("{} gave {:?} instead of {:?}; template {:?}", what, got.as_ref().map(|r| r.as_ref().map_err(name_of)), want, text));
        }
    }
}

fn pick_render<'a>(rng: &mut Rng, all: &'a [String]) -> (String, Vec<String>) {
    let full = rng.pick(all).clone();
    let (path, first) = match full.rfind('.') {
        Some(i) if rng.chance(3, 4) => (full[..i].to_string(), full[i + 1..].to_string()),
        _ => (String::new(), full),
    };
    let mut v = vec![first];
    for _ in 0..rng.below(3) {
        // Siblings, repeats and unknown ones.
        let pre = if path.is_empty() { String::new() } else { format!("{}.", path) };
        let sib: Vec<String> = all.iter().filter(|n| n.starts_with(&pre)).map(|n| n[pre.len()..].to_string()).collect();
        if rng.chance(1, 12) {
            v.push("nope".into());
        } else if !sib.is_empty() {
            v.push(rng.pick(&sib).clone());
        }
    }
    if rng.chance(1, 12) {
        (format!("{}z", path), v)
    } else {
        (path, v)
    }
}

fn set_vars(rng: &mut Rng, n: u64) -> Vec<(String, String)> {
    (0..n).map(|_| (rng.pick(VARS).to_string(), rng.pick(VALUES).to_string())).collect()
}

fn one(o: &mut Out, rng: &mut Rng) {
    let cm = rng.below(6);
    let (_, names) = functions(cm);
    let frags: Vec<Frag> = {
        let mut v: Vec<Frag> = Vec::new();
        for _ in 0..rng.range(1, 4) {
            let n = gen_name(rng);
            if v.iter().all(|f| f.name != n) {
                v.push(gen_frag(rng, 0, n, &names));
            }
        }
        v
    };
    let crlf = rng.chance(1, 4);
    let mut lines = Vec::new();
    for f in &frags {
        emit(rng, f, crlf, &mut lines);
    }
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut text = lines.join(nl);
    if rng.chance(1, 2) {
        text.push_str(nl);
        if crlf {
            // Nothing follows the last line break.
        }
    }
    let mut idx = HashMap::new();
    for f in &frags {
        index(f, "", &mut idx);
    }
    let mut all: Vec<String> = idx.keys().cloned().collect();
    all.sort();
    o.see(text.as_bytes());
    o.add("templates", 1);
    o.add("fragments", all.len() as u64);
    let v1 = set_vars(rng, 12);
    let v2 = set_vars(rng, 6);
    let v3 = set_vars(rng, 4);
    let v4 = set_vars(rng, 4);
    let fill = rng.chance(3, 4);
    let t = guard(|| match cm {
        0 if rng.clone().chance(1, 2) => Template::compile(text.as_bytes()),
        _ => Template::compile_with_function_map(text.as_bytes(), functions(cm).0),
    });
    let mut t = match t {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => {
            o.check(false, || format!("template {:?} is refused: {}", text, name_of(&e)));
            return;
        }
        Err(p) => {
            o.check(false, || format!("template {:?} panics: {}", text, p));
            return;
        }
    };
    let mut tv: HashMap<String, String> = HashMap::new();
    if fill {
        for v in VARS {
            t.var(v, "d");
            tv.insert(v.to_string(), "d".into());
        }
    }
    for (k, v) in &v1 {
        if rng.chance(1, 3) {
            t.var_d(k, v);
        } else {
            t.var(k, v);
        }
        tv.insert(k.clone(), v.clone());
    }
    for _ in 0..3 {
        let (p, f) = pick_render(rng, &all);
        let f: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
        judge(o, &text, guard(|| t.render(&p, &f)), want(&idx, &tv, &p, &f), &format!("render({:?}, {:?})", p, f));
    }
    {
        let mut scopes: Vec<(Scope, HashMap<String, String>)> = Vec::new();
        scopes.push((t.scope(), tv.clone()));
        scopes.push((t.scope(), tv.clone()));
        for step in 0..8u64 {
            let si = rng.idx(scopes.len());
            match rng.below(5) {
                0 | 1 => {
                    let (k, v) = rng.pick(&v2);
                    if rng.chance(1, 2) {
                        scopes[si].0.var(k, v);
                    } else {
                        scopes[si].0.var_d(k, v);
                    }
                    scopes[si].1.insert(k.clone(), v.clone());
                    o.add("scope_vars", 1);
                }
                2 => {
                    let (p, f) = pick_render(rng, &all);
                    let f: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
                    let (k, _) = rng.pick(&v3);
                    let w = want(&idx, &scopes[si].1, &p, &f);
                    let s = &mut scopes[si].0;
                    let r = guard(|| s.render_to_var(&p, &f, k).map(|_| ()));
                    match (r, w) {
                        (Ok(Ok(())), Want::Ok(s)) => {
                            scopes[si].1.insert(k.clone(), s);
                            o.check(true, String::new);
                        }
                        (Ok(Err(e)), Want::Errs(v)) => {
                            o.check(v.contains(&name_of(&e)), || format!("render_to_var reported {} instead of {:?}", name_of(&e), v));
                        }
                        (r, w) => {
                            o.check(false, || format!("render_to_var gave {:?} instead of {:?}", r.map(|r| r.map_err(|e| name_of(&e))), w));
                        }
                    }
                }
                3 if scopes.len() < 4 => {
                    let c = (scopes[si].0.clone(), scopes[si].1.clone());
                    scopes.push(c);
                }
                _ => (),
            }
            // Every scope sees its own variables only.
            let si = if step % 2 == 0 { si } else { rng.idx(scopes.len()) };
            let (p, f) = pick_render(rng, &all);
            let f: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
            let w = want(&idx, &scopes[si].1, &p, &f);
            judge(o, &text, guard(|| scopes[si].0.render(&p, &f)), w, &format!("scope render({:?}, {:?})", p, f));
        }
    }
    // Scopes leave the template alone, and later variables replace earlier ones.
    for (k, v) in &v4 {
        let (p, f) = pick_render(rng, &all);
        let f: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
        judge(o, &text, guard(|| t.render(&p, &f)), want(&idx, &tv, &p, &f), &format!("render({:?}, {:?}) after scopes", p, f));
        t.var(k, v);
        tv.insert(k.clone(), v.clone());
    }
    bad(o, rng, &lines, nl, cm, &names);
}

/// One mistake in an otherwise valid template.
fn bad(o: &mut Out, rng: &mut Rng, lines: &[String], nl: &str, cm: u64, names: &[&str]) {
    let kind = rng.below(5);
    let mut l: Vec<Vec<u8>> = lines.iter().map(|s| s.clone().into_bytes()).collect();
    let depth_at = |n: usize| -> usize {
        lines[..n].iter().map(|s| if s.starts_with("#fragment push ") { 1i64 } else if s == "#fragment pop" { -1 } else { 0 }).sum::<i64>() as usize
    };
    let tops: Vec<usize> = (0..=lines.len()).filter(|n| depth_at(*n) == 0).collect();
    let inner: Vec<usize> = (0..=lines.len()).filter(|n| depth_at(*n) > 0).collect();
    let want = match kind {
        0 => {
            l.insert(*rng.pick(&tops), b"#fragment pop".to_vec());
            "pop".to_string()
        }
        1 => {
            l.insert(*rng.pick(&tops), rng.pick(&[&b"text"[..], b" ", b"{a}", b"}}"]).to_vec());
            "outside".to_string()
        }
        2 => {
            let at = *rng.pick(&inner);
            let f = loop {
                let f = *rng.pick(FUNCS);
                if !names.contains(&f) {
                    break f;
                }
            };
            l.insert(at, format!("x {{a:{}}} y", f).into_bytes());
            format!("function {}", f)
        }
        3 => {
            let at = *rng.pick(&inner);
            let piece: &[u8] = *rng.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xe9x"]);
            let mut t: Vec<u8> = rng.pick(&[&b"ab"[..], b"", b"{a} ", b"x {{"]).to_vec();
            t.extend(piece);
            t.extend(*rng.pick(&[&b" cd"[..], b"", b" {a}", b" {{", b" }}"]));
            l.insert(at, t);
            "utf8".to_string()
        }
        _ => {
            let at = *rng.pick(&tops);
            l.insert(at, b"#fragment push n\xff".to_vec());
            l.insert(at + 1, b"#fragment pop".to_vec());
            "utf8".to_string()
        }
    };
    let data = l.join(nl.as_bytes());
    o.add("bad_templates", 1);
    o.see(&data);
    let r = guard(|| Template::compile_with_function_map(&data, functions(cm).0).map(|_| ()));
    o.check(matches!(&r, Ok(Err(e)) if name_of(e) == want), || format!("template {:?} gave {:?} instead of {}", String::from_utf8_lossy(&data), r.map(|r| r.map_err(|e| name_of(&e))), want));
}

/// Arbitrary bytes: a template or an error, and rendering what was compiled never panics.
fn noise(o: &mut Out, rng: &mut Rng) {
    let mut data = Vec::new();
    for _ in 0..rng.range(0, 12) {
        let t: &[u8] = match rng.below(12) {
            0 | 1 => b"#fragment push a\n",
            2 => b"#fragment pop\n",
            3 => b"{",
            4 => b"}",
            5 => b"\n",
            6 => b"{a}",
            7 => b":",
            8 => b"\r",
            9 => b"upper",
            10 => b"{{",
            _ => b"x",
        };
        data.extend(t);
        if rng.chance(1, 10) {
            data.push(rng.next() as u8);
        }
    }
    o.add("noise", 1);
    let r = guard(|| {
        if let Ok(mut t) = Template::compile(&data) {
            t.var("a", "é");
            let _ = t.render("", &["a"]);
            let _ = t.render("a", &["a"]);
            let _ = t.scope().render("a.a", &["a", ""]);
        }
    });
    o.check(r.is_ok(), || format!("template {:?} panics: {:?}", String::from_utf8_lossy(&data), r));
}

/// SEED COUNT
pub fn main(args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let n: u64 = args[1].parse().unwrap();
    let mut o = Out::new();
    for i in 0..n {
        let mut rng = Rng::of(&[seed, 25, i]);
        one(&mut o, &mut rng);
        for _ in 0..4 {
            noise(&mut o, &mut rng);
        }
        if i < 2 {
            let f = gen_frag(&mut Rng::of(&[seed, 25, i]), 0, "f".into(), &["upper"]);
            let mut l = Vec::new();
            emit(&mut rng, &f, false, &mut l);
            o.sample(&format!("{:?}", l.join("\n")));
        }
        if o.viols > 20 {
            break;
        }
    }
    o.finish();
}
