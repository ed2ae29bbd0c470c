//! Schemas with exactly one mistake: refused, with the error that describes it.
use crate::out::{guard, Out};
use bp3d_protoc::compiler::Error as CE;
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{Error, Loader};
use std::path::{Path, PathBuf};
use vir::emit::Extra;
use vir::{Item, MKind, Rng, SKind, Ty, View, World};

fn kind(e: &Error) -> String {
    match e {
        Error::Io(_) => "Io".into(),
        Error::Model(_) => "Model".into(),
        Error::Generator(_) => "Generator".into(),
        Error::Compiler(e) => match e {
            CE::MultiPayload => "MultiPayload".into(),
            CE::VarsizeAfterPayload => "VarsizeAfterPayload".into(),
            CE::UnsupportedBitSize(n) => format!("UnsupportedBitSize({})", n),
            CE::UnsupportedType(_) => "UnsupportedType".into(),
            CE::UnsupportedViewType(_) => "UnsupportedViewType".into(),
            CE::MissingBitSize => "MissingBitSize".into(),
            CE::UndefinedReference(n) => format!("UndefinedReference({})", n),
            CE::UnalignedArrayCodec => "UnalignedArrayCodec".into(),
            CE::UnalignedStruct => "UnalignedStruct".into(),
            CE::SolverError => "SolverError".into(),
            CE::ZeroEnum => "ZeroEnum".into(),
            CE::InvalidUnionDiscriminant => "InvalidUnionDiscriminant".into(),
            CE::FloatInUnionDiscriminant => "FloatInUnionDiscriminant".into(),
            CE::InvalidUnionCase(c) => format!("InvalidUnionCase({})", c),
            CE::UnionTypeMismatch => "UnionTypeMismatch".into(),
            #[allow(unreachable_patterns)]
            e => format!("Other({})", e),
        },
    }
}

struct Bad {
    what: String,
    /// Acceptable errors, as prefixes of what `kind` gives.
    want: Vec<String>,
    texts: Vec<String>,
}

fn texts(w: &World) -> Vec<String> {
    w.protos.iter().map(|p| vir::emit::proto(w, p)).collect()
}

fn und(n: &str) -> Vec<String> {
    vec![format!("UndefinedReference({}", n), format!("UndefinedReference(\"{}", n)]
}

fn w1(s: &str) -> Vec<String> {
    vec![s.into()]
}

/// Replaces one random occurrence of a pattern `before` + value + `after` by another value.
fn edit(rng: &mut Rng, t: &str, before: &str, end: &str, with: impl Fn(&str) -> String) -> Option<String> {
    let hits: Vec<usize> = t.match_indices(before).map(|m| m.0 + before.len()).collect();
    if hits.is_empty() {
        return None;
    }
    let at = *rng.pick(&hits);
    let stop = at + t[at..].find(end)?;
    Some(format!("{}{}{}", &t[..at], with(&t[at..stop]), &t[stop..]))
}

fn by_edit(rng: &mut Rng, w: &World) -> Option<Bad> {
    let mut t = texts(w);
    let k = rng.idx(t.len());
    let r = &mut rng.clone();
    rng.next();
    let (what, want, new): (&str, Vec<String>, Option<String>) = match r.below(13) {
        0 => ("undefined type", und("Nope"), edit(r, &t[k], "item_type: \"", "\"", |_| "Nope".into())),
        1 => ("undefined enum", und("Nope"), edit(r, &t[k], "type: \"enum\", name: \"", "\"", |_| "Nope".into())),
        2 => ("undefined union field", und("nope"), edit(r, &t[k], "on: \"", "\"", |_| "nope".into())),
        3 => ("undefined discriminant struct", und("Nope"), edit(r, &t[k], "discriminant: \"", "\"", |v| format!("Nope.{}", v.split_once('.').unwrap().1))),
        4 => ("undefined discriminant field", w1("UndefinedReference("), edit(r, &t[k], "discriminant: \"", "\"", |v| format!("{}.nope", v.rsplit_once('.').unwrap().0))),
        5 => ("undefined protocol", und("nope"), edit(r, &t[k], "{ protocol: \"", "\"", |_| "nope".into())),
        6 => ("undefined import", w1("UndefinedReference("), {
            let h: Vec<usize> = t[k].match_indices("protocol: \"").map(|m| m.0).collect();
            if h.is_empty() { None } else {
                let at = *r.pick(&h);
                let p = at + t[k][at..].find("type: \"").unwrap() + 7;
                let e = p + t[k][p..].find('"').unwrap();
                Some(format!("{}Nope{}", &t[k][..p], &t[k][e..]))
            }
        }),
        7 | 8 => {
            let n = *r.pick(&["0", "65", "66", "72", "128", "1000", "4294967295", "9223372036854775807"]);
            ("bit size", vec![format!("UnsupportedBitSize({})", n)], edit(r, &t[k], "bits: ", " }", |_| n.into()))
        }
        9 => ("enum without variants", w1("ZeroEnum"), edit(r, &t[k], "variants: {", "}", |_| String::new())),
        10 | 11 => ("unknown union case", w1("InvalidUnionCase("), edit(r, &t[k], "case: \"", "\"", |_| "nope".into())),
        _ => ("array length zero", w1("ZeroArray"), edit(r, &t[k], "array_len: ", " }", |_| "0".into())),
    };
    let mut want = want;
    if what == "array length zero" {
        // "arrays must have at least 1 item"
        want = vec!["Other(arrays must".into()];
    }
    t[k] = new?;
    Some(Bad { what: what.into(), want, texts: t })
}

fn st(name: &str, fields: &[&str]) -> String {
    format!("{{ name: \"{}\", fields: [{}] }}", name, fields.join(", "))
}

fn f(name: &str, ty: &str, bits: u64, rest: &str) -> String {
    format!("{{ name: \"{}\", info: {{ type: \"{}\", bits: {} }}{} }}", name, ty, bits, rest)
}

fn mf(name: &str, info: &str, rest: &str) -> String {
    format!("{{ name: \"{}\", info: {{ {} }}{} }}", name, info, rest)
}

/// Adds one ill-formed declaration (with the well-formed ones it builds on) to a protocol.
fn by_extra(rng: &mut Rng, w: &World) -> Option<Bad> {
    let k = rng.idx(w.protos.len());
    let p = &w.protos[k];
    let mut ex: Vec<Extra> = Vec::new();
    let any = |rng: &mut Rng, n: usize| rng.idx(n + 1);
    let tys = ["unsigned", "signed", "boolean"];
    let what: &str;
    let want: Vec<String>;
    // Well-formed helpers come first in their sections; 37 bits end inside a byte.
    let z8 = st("Zok", &[&f("z", "unsigned", 8, ""), &f("y", "unsigned", 5, "")]);
    let zf = st("Zf", &[&f("n", "unsigned", 8, ""), &f("fl", "float", 32, ""), &f("vw", "float", 8, ", view: { type: \"float-range\", min: 0.0, max: 1.0 }"), &f("ar", "unsigned", 16, ", array_len: 3"), "{ name: \"in\", info: { type: \"struct\", item_type: \"Zok\" } }"]);
    let help = |ex: &mut Vec<Extra>| {
        ex.push(Extra { section: 1, at: 0, text: zf.clone() });
        ex.push(Extra { section: 1, at: 0, text: z8.clone() });
        ex.push(Extra { section: 0, at: 0, text: "{ name: \"Ze\", variants: { \"A\": 3, \"B\": 200 } }".into() });
    };
    help(&mut ex);
    let np = p.structs.len() + 2;
    let nm = p.msgs.len();
    let opt = if rng.chance(1, 3) { ", optional: true" } else { "" };
    let mut bad_struct = |rng: &mut Rng, ex: &mut Vec<Extra>, mut fields: Vec<String>| {
        if rng.chance(1, 2) {
            fields.push(f("tail", "unsigned", rng.range(1, 64), ""));
        }
        let v: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
        let at = 2 + any(rng, np - 2);
        ex.push(Extra { section: 1, at, text: st("Zbad", &v) });
    };
    let bad_msg = |rng: &mut Rng, ex: &mut Vec<Extra>, fields: Vec<String>| {
        let v: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
        let first = ex.iter().filter(|e| e.section == 3).count();
        let at = first + rng.idx(nm + 1);
        ex.push(Extra { section: 3, at, text: st("Zmbad", &v) });
    };
    let case = |n: &str, c: &str, it: &str| format!("{{ name: \"{}\", case: \"{}\"{} }}", n, c, if it.is_empty() { String::new() } else { format!(", item_type: \"{}\"", it) });
    let union = |name: &str, d: &str, cases: Vec<String>| format!("{{ name: \"{}\", discriminant: \"{}\", cases: [{}] }}", name, d, cases.join(", "));
    let at_u = rng.idx(p.unions.len() + 1);
    match rng.below(22) {
        0 => {
            what = "float without a view at an odd width";
            let n = loop { let n = rng.range(1, 64); if n != 32 && n != 64 { break n } };
            bad_struct(rng, &mut ex, vec![f("x", "float", n, "")]);
            want = vec!["UnsupportedViewType".into(), "UnsupportedBitSize".into(), "UnsupportedType".into()];
        }
        1 => {
            what = "enum view on a type that has none";
            let t = *rng.pick(&["signed", "boolean", "float"]);
            let n = if t == "float" { 32 } else { rng.range(1, 64) };
            bad_struct(rng, &mut ex, vec![f("x", t, n, ", view: { type: \"enum\", name: \"Ze\" }")]);
            want = w1("UnsupportedViewType");
        }
        2 => {
            what = "float view on another type";
            let t = *rng.pick(&tys);
            let v = *rng.pick(&["{ type: \"float-range\", min: 0.0, max: 1.0 }", "{ type: \"float-multiplier\", multiplier: 0.5 }"]);
            let n = rng.range(1, 64);
            bad_struct(rng, &mut ex, vec![f("x", t, n, &format!(", view: {}", v))]);
            want = w1("UnsupportedViewType");
        }
        3 => {
            what = "view on a nested struct";
            let v = *rng.pick(&["{ type: \"float-range\", min: 0.0, max: 1.0 }", "{ type: \"float-multiplier\", multiplier: 0.5 }", "{ type: \"enum\", name: \"Ze\" }"]);
            bad_struct(rng, &mut ex, vec![format!("{{ name: \"x\", info: {{ type: \"struct\", item_type: \"Zok\" }}, view: {} }}", v)]);
            want = vec!["UnsupportedViewType".into(), "UnsupportedType".into()];
        }
        4 => {
            what = "array items of a partial byte";
            let n = loop { let n = rng.range(1, 64); if n % 8 != 0 { break n } };
            let t = *rng.pick(&["unsigned", "signed", "boolean"]);
            let len = rng.range(2, 20);
            bad_struct(rng, &mut ex, vec![f("x", t, n, &format!(", array_len: {}", len))]);
            want = w1("UnalignedArrayCodec");
        }
        5 => {
            what = "array inside a byte";
            let lead = loop { let n = rng.range(1, 60); if n % 8 != 0 { break n } };
            let n = 8 * rng.range(1, 8);
            let len = rng.range(2, 20);
            bad_struct(rng, &mut ex, vec![f("lead", "unsigned", lead, ""), f("x", "unsigned", n, &format!(", array_len: {}", len))]);
            want = w1("UnalignedArrayCodec");
        }
        6 => {
            what = "nested struct inside a byte";
            let lead = loop { let n = rng.range(1, 60); if n % 8 != 0 { break n } };
            bad_struct(rng, &mut ex, vec![f("lead", "unsigned", lead, ""), "{ name: \"x\", info: { type: \"struct\", item_type: \"Zok\" } }".into()]);
            want = w1("UnalignedStruct");
        }
        7 => {
            what = "struct inside itself";
            bad_struct(rng, &mut ex, vec!["{ name: \"x\", info: { type: \"struct\", item_type: \"Zbad\" } }".into()]);
            want = und("Zbad");
        }
        8 => {
            what = "struct field that is not a struct";
            bad_struct(rng, &mut ex, vec!["{ name: \"x\", info: { type: \"struct\", item_type: \"Ze\" } }".into()]);
            want = und("Ze");
        }
        9 => {
            what = "second payload-like field";
            let mk = |rng: &mut Rng, n: &str| match rng.below(4) {
                0 => mf(n, "type: \"payload\"", opt),
                1 => mf(n, "type: \"list\", max_len: 10, item_type: \"Zm1\"", opt),
                2 => mf(n, "type: \"item\", item_type: \"Zmp\"", opt),
                _ => mf(n, "type: \"item\", item_type: \"Zml\"", opt),
            };
            ex.push(Extra { section: 3, at: 0, text: st("Zml", &[&mf("l", "type: \"list\", max_len: 10, item_type: \"Zm1\"", "")]) });
            ex.push(Extra { section: 3, at: 0, text: st("Zmp", &[&mf("p", "type: \"payload\"", "")]) });
            ex.push(Extra { section: 3, at: 0, text: st("Zm1", &[&mf("s", "type: \"string\"", "")]) });
            let (a, b) = (mk(rng, "a"), mk(rng, "b"));
            bad_msg(rng, &mut ex, vec![mf("h", "type: \"string\"", ""), a, b]);
            want = vec!["MultiPayload".into(), "VarsizeAfterPayload".into()];
        }
        10 => {
            what = "variable-sized field after a payload-like field";
            ex.push(Extra { section: 3, at: 0, text: st("Zmp", &[&mf("p", "type: \"payload\"", "")]) });
            ex.push(Extra { section: 3, at: 0, text: st("Zm1", &[&mf("s", "type: \"string\"", "")]) });
            let a = match rng.below(3) {
                0 => mf("a", "type: \"payload\"", opt),
                1 => mf("a", "type: \"list\", max_len: 10, item_type: \"Zm1\"", opt),
                _ => mf("a", "type: \"item\", item_type: \"Zmp\"", opt),
            };
            let b = match rng.below(4) {
                0 => mf("b", "type: \"string\"", opt),
                1 => mf("b", "type: \"string\", max_len: 20", opt),
                2 => mf("b", "type: \"list\", max_len: 10, item_type: \"Zok\"", opt),
                _ => mf("b", "type: \"item\", item_type: \"Zm1\"", opt),
            };
            bad_msg(rng, &mut ex, vec![a, b]);
            want = vec!["VarsizeAfterPayload".into(), "MultiPayload".into()];
        }
        11 => {
            what = "float discriminant";
            let leaf = *rng.pick(&["fl", "vw"]);
            ex.push(Extra { section: 2, at: at_u, text: union("Zubad", &format!("Zf.{}", leaf), vec![case("A", "0", "")]) });
            want = w1("FloatInUnionDiscriminant");
        }
        12 => {
            what = "discriminant path that does not end at a scalar";
            let d = *rng.pick(&["Zf", "Zf.in", "Zf.ar", "Zf.n.x", "Zf.in.z.q", "Zok"]);
            ex.push(Extra { section: 2, at: at_u, text: union("Zubad", d, vec![case("A", "0", "")]) });
            want = w1("InvalidUnionDiscriminant");
        }
        13 => {
            what = "union case out of the discriminant's range";
            let (d, c) = *rng.pick(&[("Zf.n", "256"), ("Zf.n", "-1"), ("Zf.n", ""), ("Zf.n", "0x1"), ("Zf.n", "1.0"), ("Zok.y", "32"), ("Zf.in.y", "99"), ("Zok.z", "18446744073709551616"), ("Zok.y", "Zok")]);
            let mut cases = vec![case("A", "0", ""), case("B", "1", "Zok")];
            cases.insert(rng.idx(3), case("C", c, ""));
            ex.push(Extra { section: 2, at: at_u, text: union("Zubad", d, cases) });
            want = vec![format!("InvalidUnionCase({})", c)];
        }
        14 => {
            what = "undefined type in a union case";
            ex.push(Extra { section: 2, at: at_u, text: union("Zubad", "Zok.z", vec![case("A", "0", ""), case("B", "1", *rng.pick(&["Nope", "Ze", "Zubad"]))]) });
            want = w1("UndefinedReference(");
        }
        15 | 16 => {
            what = "union attached to another type";
            let on = match rng.below(6) {
                0 => mf("d", "type: \"string\"", ""),
                1 => mf("d", "type: \"item\", item_type: \"Zf\"", ""),
                2 => mf("d", "type: \"item\", item_type: \"Zm1\"", ""),
                3 => mf("d", "type: \"list\", max_len: 3, item_type: \"Zok\"", ""),
                4 => mf("d", "type: \"item\", item_type: \"Zok\"", ", optional: true"),
                _ => mf("d", "type: \"string\", max_len: 4", opt),
            };
            ex.push(Extra { section: 2, at: at_u, text: union("Zu", "Zok.z", vec![case("A", "0", "")]) });
            ex.push(Extra { section: 3, at: 0, text: st("Zm1", &[&mf("s", "type: \"string\"", "")]) });
            bad_msg(rng, &mut ex, vec![on, mf("u", "type: \"union\", on: \"d\", item_type: \"Zu\"", "")]);
            want = w1("UnionTypeMismatch");
        }
        17 => {
            what = "union attached to a later field";
            ex.push(Extra { section: 2, at: at_u, text: union("Zu", "Zok.z", vec![case("A", "0", "")]) });
            bad_msg(rng, &mut ex, vec![mf("u", "type: \"union\", on: \"d\", item_type: \"Zu\"", ""), mf("d", "type: \"item\", item_type: \"Zok\"", "")]);
            want = und("d");
        }
        18 => {
            what = "message inside itself";
            let i = *rng.pick(&["type: \"item\", item_type: \"Zmbad\"", "type: \"list\", max_len: 4, item_type: \"Zmbad\""]);
            bad_msg(rng, &mut ex, vec![mf("a", "type: \"string\"", ""), mf("x", i, opt)]);
            want = und("Zmbad");
        }
        19 => {
            what = "message field that is not a message or a struct";
            ex.push(Extra { section: 2, at: at_u, text: union("Zu", "Zok.z", vec![case("A", "0", "")]) });
            let n = *rng.pick(&["Ze", "Zu", "u8", "", "zok"]);
            let i = if rng.chance(1, 2) { format!("type: \"item\", item_type: \"{}\"", n) } else { format!("type: \"list\", max_len: 4, item_type: \"{}\"", n) };
            bad_msg(rng, &mut ex, vec![mf("x", &i, opt)]);
            want = und(n);
        }
        20 => {
            what = "union field that is not a union";
            let n = *rng.pick(&["Zok", "Ze", "Nope"]);
            bad_msg(rng, &mut ex, vec![mf("d", "type: \"item\", item_type: \"Zok\"", ""), mf("u", &format!("type: \"union\", on: \"d\", item_type: \"{}\"", n), "")]);
            want = und(n);
        }
        _ => {
            what = "enum view naming something else";
            let n = *rng.pick(&["Zok", "Nope", "ze", ""]);
            bad_struct(rng, &mut ex, vec![f("x", "unsigned", 8, &format!(", view: {{ type: \"enum\", name: \"{}\" }}", n))]);
            want = und(n);
        }
    }
    let mut t = texts(w);
    t[k] = vir::emit::proto_with(w, p, &ex, rng.chance(1, 4));
    Some(Bad { what: what.into(), want, texts: t })
}

/// Mistakes made in existing declarations.
fn by_ir(rng: &mut Rng, w: &World) -> Option<Bad> {
    let mut w = w.clone();
    let k = rng.idx(w.protos.len());
    let what;
    let want;
    match rng.below(7) {
        0 => {
            // A payload or message list moved before something variable.
            let c: Vec<(usize, usize)> = (0..w.protos[k].msgs.len()).flat_map(|m| (0..w.protos[k].msgs[m].fields.len()).map(move |f| (m, f))).filter(|(m, f)| w.field_tail(&w.protos[k].msgs[*m].fields[*f])).collect();
            if c.is_empty() {
                return None;
            }
            let (m, _) = *rng.pick(&c);
            let kind = match rng.below(3) {
                0 => MKind::Str { max_len: None },
                1 => MKind::Str { max_len: Some(300) },
                _ => MKind::Payload,
            };
            w.protos[k].msgs[m].fields.push(vir::MField { name: "zlast".into(), kind, optional: rng.chance(1, 2) });
            what = "field after a tail";
            want = vec!["VarsizeAfterPayload".to_string(), "MultiPayload".to_string()];
        }
        1 => {
            // An enum view on a field of another type.
            let c: Vec<(usize, usize)> = (0..w.protos[k].structs.len()).flat_map(|s| (0..w.protos[k].structs[s].fields.len()).map(move |f| (s, f)))
                .filter(|(s, f)| matches!(w.protos[k].structs[*s].fields[*f].kind, SKind::Scalar { view: View::Enum(_), .. })).collect();
            if c.is_empty() {
                return None;
            }
            let (s, f) = *rng.pick(&c);
            if let SKind::Scalar { ty, bits, .. } = &mut w.protos[k].structs[s].fields[f].kind {
                *ty = *rng.pick(&[Ty::Signed, Ty::Bool, Ty::Float]);
                if *ty == Ty::Float && *bits < 8 {
                    *ty = Ty::Signed;
                }
            }
            what = "enum view on another type";
            want = w1("UnsupportedViewType");
        }
        2 => {
            // A discriminant that became optional.
            let c: Vec<(usize, usize)> = (0..w.protos[k].msgs.len()).flat_map(|m| (0..w.protos[k].msgs[m].fields.len()).map(move |f| (m, f)))
                .filter_map(|(m, f)| match w.protos[k].msgs[m].fields[f].kind { MKind::Union { on, .. } => Some((m, on)), _ => None }).collect();
            if c.is_empty() {
                return None;
            }
            let (m, on) = *rng.pick(&c);
            w.protos[k].msgs[m].fields[on].optional = true;
            what = "optional discriminant";
            want = w1("UnionTypeMismatch");
        }
        3 => {
            // A union whose discriminant field holds another struct.
            let c: Vec<(usize, usize)> = (0..w.protos[k].msgs.len()).flat_map(|m| (0..w.protos[k].msgs[m].fields.len()).map(move |f| (m, f)))
                .filter_map(|(m, f)| match w.protos[k].msgs[m].fields[f].kind { MKind::Union { on, .. } => Some((m, on)), _ => None }).collect();
            if c.is_empty() {
                return None;
            }
            let (m, on) = *rng.pick(&c);
            let cur = w.protos[k].msgs[m].fields[on].kind.clone();
            let others: Vec<_> = (0..w.protos[k].structs.len()).map(|idx| vir::TRef { proto: k, idx }).filter(|r| !matches!(cur, MKind::Item(Item::Struct(c)) if c == *r) && w.bit_size(*r) > 0).collect();
            if others.is_empty() {
                return None;
            }
            w.protos[k].msgs[m].fields[on].kind = MKind::Item(Item::Struct(*rng.pick(&others)));
            what = "discriminant in another struct";
            want = w1("UnionTypeMismatch");
        }
        4 => {
            // Nested struct or array pushed off its byte boundary.
            let c: Vec<(usize, usize)> = (0..w.protos[k].structs.len()).flat_map(|s| (0..w.protos[k].structs[s].fields.len()).map(move |f| (s, f)))
                .filter(|(s, f)| matches!(w.protos[k].structs[*s].fields[*f].kind, SKind::Struct(_) | SKind::Array { .. })).collect();
            if c.is_empty() {
                return None;
            }
            let (s, f) = *rng.pick(&c);
            let first = w.protos[k].structs[s].fields.iter().position(|f| matches!(f.kind, SKind::Struct(_) | SKind::Array { .. })).unwrap();
            let _ = f;
            want = match w.protos[k].structs[s].fields[first].kind {
                SKind::Struct(_) => w1("UnalignedStruct"),
                _ => w1("UnalignedArrayCodec"),
            };
            w.protos[k].structs[s].fields.insert(0, vir::SField { name: "zlead".into(), kind: SKind::Scalar { ty: Ty::Unsigned, bits: rng.range(1, 7) as u32, view: View::None } });
            what = "misaligned";
        }
        5 => {
            // An imported union on a local struct that only shares the name of its discriminant's.
            let taken = |n: &str| {
                let p = &w.protos[k];
                p.imports.iter().map(|i| &i.1).chain(p.structs.iter().map(|v| &v.name)).chain(p.msgs.iter().map(|v| &v.name))
                    .chain(p.unions.iter().map(|v| &v.name)).chain(p.enums.iter().map(|v| &v.name)).any(|m| m == n)
            };
            let c: Vec<(usize, usize)> = w.protos[k].imports.iter().map(|i| i.2)
                .flat_map(|j| (0..w.protos[j].unions.len()).map(move |u| (j, u)))
                .filter(|(j, u)| {
                    let u = &w.protos[*j].unions[*u];
                    u.root.proto == *j && !taken(&u.name) && !taken(&w.strukt(u.root).name)
                }).collect();
            if c.is_empty() {
                return None;
            }
            let (j, u) = *rng.pick(&c);
            let (uname, root) = (w.protos[j].unions[u].name.clone(), w.strukt(w.protos[j].unions[u].root).clone());
            let p = &mut w.protos[k];
            p.imports.push((j, uname, j));
            // Plain numbers under the names of the fields.
            let fields = root.fields.iter().map(|f| vir::SField { name: f.name.clone(), kind: SKind::Scalar { ty: Ty::Unsigned, bits: 16, view: View::None } }).collect();
            p.structs.push(vir::Struct { name: root.name, fields });
            let on = vir::TRef { proto: k, idx: p.structs.len() - 1 };
            p.msgs.push(vir::Msg { name: "Zmbad".into(), fields: vec![
                vir::MField { name: "d".into(), kind: MKind::Item(Item::Struct(on)), optional: false },
                vir::MField { name: "u".into(), kind: MKind::Union { on: 0, r: vir::TRef { proto: j, idx: u } }, optional: false },
            ] });
            what = "discriminant of the same name";
            want = w1("UnionTypeMismatch");
        }
        _ => {
            // A type used without importing it.
            if w.protos[k].imports.is_empty() {
                return None;
            }
            let i = rng.idx(w.protos[k].imports.len());
            let n = w.protos[k].imports[i].1.clone();
            let t = vir::emit::proto(&w, &w.protos[k]);
            let used = t.matches(&format!("item_type: \"{}\"", n)).count() + t.matches(&format!("type: \"enum\", name: \"{}\"", n)).count() + t.matches(&format!("discriminant: \"{}.", n)).count();
            // Re-exports of it in other protocols would fail first or later.
            let elsewhere = w.protos.iter().enumerate().any(|(j, p)| j != k && p.imports.iter().any(|(_, m, via)| *m == n && *via == k));
            if used == 0 || elsewhere {
                return None;
            }
            let mut texts = texts(&w);
            w.protos[k].imports.remove(i);
            // The references stay: only the import goes.
            let imp = if w.protos[k].imports.is_empty() { String::new() } else {
                format!("imports: [{}],\n", w.protos[k].imports.iter().map(|(_, t, via)| format!("{{ protocol: \"{}\", type: \"{}\" }}", w.protos[*via].name, t)).collect::<Vec<_>>().join(", "))
            };
            let a = texts[k].find("imports: [").unwrap();
            let b = a + texts[k][a..].find("],\n").unwrap() + 3;
            texts[k] = format!("{}{}{}", &texts[k][..a], imp, &texts[k][b..]);
            return Some(Bad { what: "type that is not imported".into(), want: und(&n), texts });
        }
    }
    Some(Bad { what: what.into(), want, texts: texts(&w) })
}

fn compile(w: &World, files: &[PathBuf], out: &Path) -> Result<(), Error> {
    let mut l = Loader::new();
    if w.protos.len() > 1 {
        for (i, f) in files.iter().enumerate() {
            l.import(f, w.module(i))?;
        }
    }
    for i in &w.load_order {
        l.load(&files[*i])?;
    }
    l.compile(SimpleImportSolver::new("::"))?.set_reads_messages(true).set_writes_messages(true).generate::<GeneratorRust>(out)?;
    Ok(())
}

/// SEED START END DIR
pub fn main(args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let (start, end): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let dir = PathBuf::from(&args[3]);
    let only_c23 = args.get(4).map(|s| s == "imports").unwrap_or(false);
    let mut o = Out::new();
    for i in start..end {
        let mut rng = Rng::of(&[seed, 20, i]);
        let fam = if only_c23 { *rng.pick(&["mimport", "mrand", "srand"]) } else { *rng.pick(&["mbasic", "munion", "mimport", "mrand", "srand", "sview", "mlist", "sarr"]) };
        let w = vir::corpus::world(fam, seed + rng.below(50), rng.below(8) as usize);
        let files: Vec<PathBuf> = w.protos.iter().map(|p| dir.join(format!("{}.json5", p.name))).collect();
        let out = dir.join("out");
        for round in 0..12 {
            let b = match round {
                _ if only_c23 => by_ir(&mut rng, &w).filter(|b| b.what == "type that is not imported"),
                r if r % 3 == 0 => by_edit(&mut rng, &w),
                r if r % 3 == 1 => by_extra(&mut rng, &w),
                _ => by_ir(&mut rng, &w),
            };
            let Some(b) = b else { continue };
            for (f, t) in files.iter().zip(&b.texts) {
                std::fs::write(f, t).unwrap();
            }
            let _ = std::fs::remove_dir_all(&out);
            std::fs::create_dir_all(&out).unwrap();
            let r = guard(|| compile(&w, &files, &out));
            o.add("rejections", 1);
            o.add(&format!("made_{}", b.what.replace([' ', '-'], "_").replace("'", "")), 1);
            o.see(b.texts.join("").as_bytes());
            let text = || b.texts.join("\n").chars().take(3000).collect::<String>();
            match r {
                Err(p) => {
                    o.check(false, || format!("{}: the compiler panicked ({}) on {}", b.what, p, text()));
                }
                Ok(Ok(())) => {
                    o.check(false, || format!("{}: accepted instead of {:?}: {}", b.what, b.want, text()));
                }
                Ok(Err(e)) => {
                    let k = kind(&e);
                    o.check(b.want.iter().any(|w| k.starts_with(w.as_str())), || format!("{}: {} instead of {:?}: {}", b.what, k, b.want, text()));
                    let left = std::fs::read_dir(&out).unwrap().count();
                    o.check(left == 0, || format!("{}: {} entries were generated for a rejected schema", b.what, left));
                    o.add(&format!("answer_{}", k.split('(').next().unwrap()), 1);
                }
            }
            if i < 1 && round < 2 {
                o.sample(&format!("{}: {}", b.what, text()));
            }
        }
        if o.viols > 10 {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(dir.join("out"));
    o.finish();
}
