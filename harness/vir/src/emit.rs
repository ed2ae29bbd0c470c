//! JSON5 text of a protocol.
use crate::*;

pub fn q(s: &str) -> String {
    format!("{:?}", s)
}

fn num(f: f64) -> String {
    format!("{:?}", f)
}

pub const SECTIONS: [&str; 4] = ["enums", "structs", "unions", "messages"];

/// A declaration put, as it is, into a section (an index into SECTIONS) at a position.
pub struct Extra {
    pub section: usize,
    pub at: usize,
    pub text: String,
}

pub fn proto(w: &World, p: &Proto) -> String {
    proto_with(w, p, &[], false)
}

/// With extra declarations, and possibly with the sections in another order.
pub fn proto_with(w: &World, p: &Proto, extra: &[Extra], turned: bool) -> String {
    let mut parts = vec![format!("name: {}", q(&p.name))];
    if let Some(b) = p.endian {
        parts.push(format!("endianness: {}", if b { "\"big\"" } else { "\"little\"" }));
    }
    if !p.imports.is_empty() {
        parts.push(format!("imports: [{}]", p.imports.iter()
            .map(|(_, t, via)| format!("{{ protocol: {}, type: {} }}", q(&w.protos[*via].name), q(t)))
            .collect::<Vec<_>>().join(", ")));
    }
    let mut sections: [Vec<String>; 4] = [
        p.enums.iter().map(enm).collect(),
        p.structs.iter().map(|s| strukt(w, s)).collect(),
        p.unions.iter().map(|u| union(w, u)).collect(),
        p.msgs.iter().map(|m| msg(w, m)).collect(),
    ];
    for e in extra {
        let v = &mut sections[e.section];
        v.insert(e.at.min(v.len()), e.text.clone());
    }
    for (n, v) in SECTIONS.iter().zip(&sections) {
        if !v.is_empty() {
            parts.push(format!("{}: [{}]", n, v.join(",\n  ")));
        }
    }
    if turned {
        parts.reverse();
    }
    format!("{{\n  {}\n}}\n", parts.join(",\n  "))
}

fn enm(e: &Enum) -> String {
    format!("{{ name: {}, variants: {{ {} }} }}", q(&e.name),
        e.variants.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", "))
}

pub fn ty_name(t: Ty) -> &'static str {
    match t {
        Ty::Unsigned => "unsigned",
        Ty::Signed => "signed",
        Ty::Bool => "boolean",
        Ty::Float => "float",
    }
}

fn strukt(w: &World, s: &Struct) -> String {
    let fields = s.fields.iter().map(|f| {
        let body = match &f.kind {
            SKind::Scalar { ty, bits, view } => {
                let v = match view {
                    View::None => String::new(),
                    View::Enum(r) => format!(", view: {{ type: \"enum\", name: {} }}", q(&w.enm(*r).name)),
                    View::Range(a, b) => format!(", view: {{ type: \"float-range\", min: {}, max: {} }}", num(*a), num(*b)),
                    View::Mult(m) => format!(", view: {{ type: \"float-multiplier\", multiplier: {} }}", num(*m)),
                };
                format!("info: {{ type: \"{}\", bits: {} }}{}", ty_name(*ty), bits, v)
            }
            SKind::Array { ty, bits, len } => format!("info: {{ type: \"{}\", bits: {} }}, array_len: {}", ty_name(*ty), bits, len),
            SKind::Struct(r) => format!("info: {{ type: \"struct\", item_type: {} }}", q(&w.strukt(*r).name)),
        };
        format!("{{ name: {}, {} }}", q(&f.name), body)
    }).collect::<Vec<_>>().join(", ");
    format!("{{ name: {}, fields: [{}] }}", q(&s.name), fields)
}

fn union(w: &World, u: &Union) -> String {
    let cases = u.cases.iter().map(|c| {
        let it = match c.item {
            None => String::new(),
            Some(i) => format!(", item_type: {}", q(w.item_name(i))),
        };
        format!("{{ name: {}, case: {}{} }}", q(&c.name), q(&c.lit), it)
    }).collect::<Vec<_>>().join(", ");
    format!("{{ name: {}, discriminant: {}, cases: [{}] }}", q(&u.name),
        q(&format!("{}.{}", w.strukt(u.root).name, u.path.join("."))), cases)
}

fn msg(w: &World, m: &Msg) -> String {
    let fields = m.fields.iter().map(|f| {
        let info = match &f.kind {
            MKind::Item(i) => format!("type: \"item\", item_type: {}", q(w.item_name(*i))),
            MKind::List { max_len, item } => format!("type: \"list\", max_len: {}, item_type: {}", max_len, q(w.item_name(*item))),
            MKind::Str { max_len: None } => "type: \"string\"".into(),
            MKind::Str { max_len: Some(n) } => format!("type: \"string\", max_len: {}", n),
            MKind::Payload => "type: \"payload\"".into(),
            MKind::Union { on, r } => format!("type: \"union\", on: {}, item_type: {}", q(&m.fields[*on].name), q(&w.union(*r).name)),
        };
        let opt = if f.optional { ", optional: true" } else { "" };
        format!("{{ name: {}, info: {{ {} }}{} }}", q(&f.name), info, opt)
    }).collect::<Vec<_>>().join(", ");
    format!("{{ name: {}, fields: [{}] }}", q(&m.name), fields)
}
