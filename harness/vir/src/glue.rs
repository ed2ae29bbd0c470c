//! Emits the driver of a world: one table of function pointers per type, over the generated API.
use crate::*;
use std::fmt::Write;

pub struct Entry {
    pub proto: String,
    pub path: String,
}

fn ty(w: &World, r: TRef, n: &str) -> String {
    format!("{}::{}", w.module(r.proto), n)
}

fn capitalize(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        Some(f) => f.to_ascii_uppercase().to_string() + c.as_str(),
        None => String::new(),
    }
}

pub fn driver(w: &World, entries: &[Entry], family: &str, seed: u64, index: usize) -> String {
    let mut o = String::new();
    o.push_str("#![allow(warnings)]\n");
    for e in entries {
        if w.wrap {
            writeln!(o, "pub mod {}_w {{ include!({:?}); }}", e.proto, e.path).unwrap();
        } else {
            writeln!(o, "include!({:?});", e.path).unwrap();
        }
    }
    o.push_str("use vmon::glue::*;\nuse vmon::guard;\nuse bp3d_proto::message::{FromSlice, FromSliceWithOffsets, WriteTo};\nuse bp3d_proto::util::FixedSize;\n");
    for r in w.all_enums() {
        enm(w, r, &mut o);
    }
    for r in w.all_structs() {
        fill(w, r, &mut o);
    }
    for r in w.all_msgs() {
        msg_fns(w, r, &mut o);
    }
    for r in w.all_unions() {
        union_fns(w, r, &mut o);
    }
    o.push_str("static STRUCTS: &[StructGlue] = &[\n");
    for r in w.all_structs() {
        strukt(w, r, &mut o);
    }
    o.push_str("];\nstatic MSGS: &[MsgGlue] = &[\n");
    for r in w.all_msgs() {
        msg(w, r, &mut o);
    }
    o.push_str("];\nstatic UNIONS: &[UnionGlue] = &[\n");
    for r in w.all_unions() {
        union(w, r, &mut o);
    }
    o.push_str("];\nstatic ENUMS: &[EnumGlue] = &[\n");
    for r in w.all_enums() {
        let t = ty(w, r, &w.enm(r).name);
        writeln!(o, "EnumGlue {{ r: ({}, {}), values: &[{}] }},", r.proto, r.idx,
            w.enm(r).variants.iter().map(|(n, _)| format!("{}::{} as u64", t, n)).collect::<Vec<_>>().join(", ")).unwrap();
    }
    writeln!(o, "];\nfn main() {{ vmon::main(Tables {{ family: {:?}, seed: {}, index: {}, structs: STRUCTS, msgs: MSGS, unions: UNIONS, enums: ENUMS }}); }}", family, seed, index).unwrap();
    o
}

fn enm(w: &World, r: TRef, o: &mut String) {
    let e = w.enm(r);
    let t = ty(w, r, &e.name);
    writeln!(o, "fn en_{p}_{i}(e: {t}) -> u64 {{ match e {{ {} }} }}",
        e.variants.iter().enumerate().map(|(i, (n, _))| format!("{}::{} => {}", t, n, i)).collect::<Vec<_>>().join(", "), p = r.proto, i = r.idx).unwrap();
    writeln!(o, "fn ne_{p}_{i}(v: u64) -> {t} {{ match v {{ {}, _ => unreachable!() }} }}",
        e.variants.iter().enumerate().map(|(i, (n, _))| format!("{} => {}::{}", i, t, n)).collect::<Vec<_>>().join(", "), p = r.proto, i = r.idx).unwrap();
}

/// Accessor chain to the struct holding a leaf.
fn chain(path: &[String], suffix: &str) -> String {
    path[..path.len() - 1].iter().map(|p| format!(".get_{}{}()", p, suffix)).collect()
}

fn fill(w: &World, r: TRef, o: &mut String) {
    let t = ty(w, r, &w.strukt(r).name);
    writeln!(o, "fn fill_{}_{}(d: &mut {t}<&mut [u8]>, src: &[u8]) {{ let s = {t}::from(src);", r.proto, r.idx).unwrap();
    for l in w.leaves(r) {
        let n = l.path.last().unwrap();
        match &l.kind {
            SKind::Array { len, .. } => writeln!(o, "  for i in 0..{len} {{ d{}.get_{n}_mut().set_raw(i, s{}.get_{n}().get_raw(i)); }}", chain(&l.path, "_mut"), chain(&l.path, "")).unwrap(),
            _ => writeln!(o, "  d{}.set_raw_{n}(s{}.get_raw_{n}());", chain(&l.path, "_mut"), chain(&l.path, "")).unwrap(),
        }
    }
    o.push_str("}\n");
}

fn strukt(w: &World, r: TRef, o: &mut String) {
    let name = &w.strukt(r).name;
    let t = ty(w, r, name);
    let sz = ty(w, r, &format!("SIZE_{}", name.to_uppercase()));
    writeln!(o, "StructGlue {{ r: ({}, {}), size: {sz}, fixed: <{t}<&[u8]> as FixedSize>::SIZE, stack: || {{ let s = {t}::new_on_stack(); sbytes(&s.to_ref()) }},", r.proto, r.idx).unwrap();
    writeln!(o, " decode: |d| match {t}::from_slice(d) {{ Ok(m) => {{ let n = m.size(); Ok((n, sbytes(&m.into_inner()))) }} Err(e) => Err(errk(e)) }},").unwrap();
    writeln!(o, " write: |b, w| {t}::write_to(&{t}::from(b), w).map_err(errk),").unwrap();
    writeln!(o, " fill: |d, s| fill_{}_{}(&mut {t}::from(d), s),", r.proto, r.idx).unwrap();
    writeln!(o, " fill_via_mut: |d, s| {{ let mut x = {t}::from(d); fill_{}_{}(&mut x.to_mut(), s); }},", r.proto, r.idx).unwrap();
    o.push_str(" leaves: &[\n");
    for l in w.leaves(r) {
        let n = l.path.last().unwrap();
        let g = format!("{}::from(b){}", t, chain(&l.path, ""));
        let m = format!("{}::from(b){}", t, chain(&l.path, "_mut"));
        match &l.kind {
            SKind::Scalar { view, .. } => {
                let (get, set) = match view {
                    View::Enum(e) => (
                        format!("V::E({g}.get_{n}().map(en_{}_{}))", e.proto, e.idx),
                        format!("{m}.set_{n}(ne_{}_{}(v.e()));", e.proto, e.idx),
                    ),
                    _ => (format!("{g}.get_{n}().to_v()"), format!("{m}.set_{n}(FromV::from_v(v));")),
                };
                writeln!(o, "  LeafGlue::S {{ get_raw: |b| {g}.get_raw_{n}() as u64, set_raw: |b, v| {{ {m}.set_raw_{n}(v as _); }}, get: |b| {get}, set: |b, v| {{ {set} }} }},").unwrap();
            }
            SKind::Array { ty: aty, bits, .. } => {
                let bytes = if *aty == Ty::Unsigned && *bits == 8 {
                    format!("Some((|b| AsRef::<[u8]>::as_ref(&{g}.get_{n}()).to_vec(), |b, i, v| {{ AsMut::<[u8]>::as_mut(&mut {m}.get_{n}_mut())[i] = v; }}))")
                } else {
                    "None".into()
                };
                writeln!(o, "  LeafGlue::A {{ len: |b| {g}.get_{n}().len(), get: |b, i| {g}.get_{n}().get_raw(i).to_u(), iter: |b| {g}.get_{n}().iter_raw().map(|v| v.to_u()).collect(), set: |b, i, v| {{ {m}.get_{n}_mut().set_raw(i, FromU::from_u(v)); }}, mut_get: |b, i| {m}.get_{n}_mut().get_raw(i).to_u(), mut_len: |b| {m}.get_{n}_mut().len(), mut_iter: |b| {m}.get_{n}_mut().iter_raw().map(|v| v.to_u()).collect(), bytes: {bytes} }},").unwrap();
            }
            _ => unreachable!(),
        }
    }
    o.push_str(" ] },\n");
}

fn lt(w: &World, r: TRef, l: &str) -> String {
    if w.msg_lt(r) { format!("<{}>", l) } else { String::new() }
}

fn item_val(w: &World, i: Item, number: bool, x: &str) -> String {
    match i {
        Item::Struct(s) => match w.inlined(s) {
            Some((_, bits, _)) if number => format!("Val::Num({x}.to_u() & vir::mask({bits}))"),
            _ => format!("Val::Bytes(sbytes({x}))"),
        },
        Item::Msg(m) => format!("v_{}_{}({x})", m.proto, m.idx),
    }
}

fn union_val(w: &World, r: TRef, x: &str) -> String {
    let u = w.union(r);
    let t = ty(w, r, &u.name);
    let arms: Vec<String> = u.cases.iter().enumerate().map(|(i, c)| match c.item {
        None => format!("{}::{} => Val::Union({}, None)", t, c.name, i),
        Some(it) => format!("{}::{}(x) => Val::Union({}, Some(Box::new({})))", t, c.name, i, item_val(w, it, false, "x")),
    }).collect();
    format!("match {} {{ {} }}", x, arms.join(", "))
}

/// Expression of the Val of a field, x being a reference to it.
fn field_val(w: &World, f: &MField) -> String {
    match &f.kind {
        MKind::Item(i) => item_val(w, *i, w.number(&f.kind), "x"),
        MKind::List { item: Item::Struct(s), .. } => format!("arr_val(x.len(), x.iter::<{}<&[u8]>>().map(|s| sbytes(&s)))", ty(w, *s, &w.strukt(*s).name)),
        MKind::List { item: Item::Msg(m), .. } => format!("list_val(x.len(), x.iter().map(|r| r.map(|y| v_{}_{}(&y))))", m.proto, m.idx),
        MKind::Str { .. } => "Val::Str(x.to_string())".into(),
        MKind::Payload => "Val::Payload(x.to_vec())".into(),
        MKind::Union { r, .. } => union_val(w, *r, "x"),
    }
}

fn item_build(w: &World, i: Item, number: bool) -> String {
    match i {
        Item::Struct(s) => match w.inlined(s) {
            Some(_) if number => "FromU::from_u(v_num(x))".into(),
            _ => format!("{}::from(k.bytes(v_bytes(x)))", ty(w, s, &w.strukt(s).name)),
        },
        Item::Msg(m) => format!("b_{}_{}(x, k)?", m.proto, m.idx),
    }
}

fn union_build(w: &World, r: TRef) -> String {
    let u = w.union(r);
    let t = ty(w, r, &u.name);
    let arms: Vec<String> = u.cases.iter().enumerate().map(|(i, c)| match c.item {
        None => format!("({}, _) => {}::{}", i, t, c.name),
        Some(it) => format!("({}, Some(x)) => {}::{}({})", i, t, c.name, item_build(w, it, false)),
    }).collect();
    format!("match v_union(x) {{ {}, _ => unreachable!() }}", arms.join(", "))
}

fn field_build(w: &World, m: TRef, f: &MField) -> String {
    let alias = ty(w, m, &format!("{}{}", w.msg(m).name, capitalize(&f.name)));
    match &f.kind {
        MKind::Item(i) => item_build(w, *i, w.number(&f.kind)),
        MKind::List { item: Item::Struct(s), .. } => {
            let t = ty(w, *s, &w.strukt(*s).name);
            let (p, i) = (s.proto, s.idx);
            format!("{{ let items = v_arr(x); match k.mode() {{ \
                0 => {{ let mut l = {alias}::new(Vec::<u8>::new()); for it in items {{ l.write_item(&{t}::from(&it[..]))?; }} k.len(l.len(), items.len()); leak(l).to_ref() }} \
                1 => {{ let mut l = {alias}::new(Vec::<u8>::new()); let v: Vec<_> = items.iter().map(|it| {t}::from(&it[..])).collect(); let h = v.len() / 2; l.write_items(&v[..h])?; l.write_items(&v[h..])?; k.len(l.len(), items.len()); leak(l).to_ref() }} \
                2 => {{ let mut l = {alias}::from_parts(k.blank(items, {p}, {i}), items.len()).expect(\"from_parts\"); for (i, it) in items.iter().enumerate() {{ fill_{p}_{i}(&mut l.get_mut(i), it); }} k.len(l.len(), items.len()); leak(l).to_ref() }} \
                _ => {{ let mut l = {alias}::from_parts(k.blank(items, {p}, {i}), items.len()).expect(\"from_parts\"); for (mut s, it) in l.iter_mut().zip(items.iter()) {{ fill_{p}_{i}(&mut s, it); }} k.len(l.len(), items.len()); leak(l).to_ref() }} }} }}")
        }
        MKind::List { item: Item::Msg(mm), .. } => {
            let (p, i) = (mm.proto, mm.idx);
            // Items that cannot be written are offered in between.
            let bad: Vec<String> = w.msg(*mm).fields.iter().filter_map(|f| match &f.kind {
                MKind::Str { max_len } if max_len.unwrap_or(0) <= 65535 => {
                    let v = match max_len {
                        None => "\"ab\\0cd\"",
                        Some(_) => "k.too_long()",
                    };
                    let v = if f.optional { format!("Some({v})") } else { v.into() };
                    Some(format!("b.{} = {v};", f.name))
                }
                _ => None,
            }).collect();
            let bad = if bad.is_empty() { String::new() } else {
                let arms: Vec<String> = bad.iter().enumerate().map(|(n, b)| format!("{n} => {{ {b} }}")).collect();
                format!("if k.spoil() {{ let h = l.len(); let mut b = b_{p}_{i}(it, k)?; match k.pick({}) {{ {} _ => unreachable!() }} \
                    let good = b_{p}_{i}(it, k)?; let way = k.pick(4); \
                    let r = match way {{ 0 => l.write_item(&b), 1 => l.write_items(&[b]), 2 => l.write_items(&[b, good]), _ => l.write_items(&[good, b]) }}; \
                    if k.refused(r.is_err(), l.len(), h, way > 1) {{ continue; }} }}", bad.len(), arms.join(" "))
            };
            format!("{{ let items = v_list(x); let mut l = {alias}::new(Vec::<u8>::new()); \
                if k.mode() % 2 == 0 {{ for (n, it) in items.iter().enumerate() {{ k.len(l.len(), n); {bad} l.write_item(&b_{p}_{i}(it, k)?)?; }} }} \
                else {{ let mut v = Vec::new(); for it in items {{ v.push(b_{p}_{i}(it, k)?); }} let h = v.len() / 2; l.write_items(&v[..h])?; k.len(l.len(), h); l.write_items(&v[h..])?; }} \
                k.len(l.len(), items.len()); leak(l).to_ref() }}")
        }
        MKind::Str { .. } => "v_str(x)".into(),
        MKind::Payload => "v_payload(x)".into(),
        MKind::Union { r, .. } => union_build(w, *r),
    }
}

fn msg_fns(w: &World, r: TRef, o: &mut String) {
    let m = w.msg(r);
    let t = ty(w, r, &m.name);
    let (p, i) = (r.proto, r.idx);
    // Value of a decoded message.
    writeln!(o, "fn v_{p}_{i}(m: &{t}{}) -> Val {{ Val::Msg(vec![", lt(w, r, "'_")).unwrap();
    for f in &m.fields {
        let e = field_val(w, f);
        if f.optional {
            writeln!(o, "  Val::Opt(match &m.{} {{ None => None, Some(x) => Some(Box::new({})) }}),", f.name, e).unwrap();
        } else {
            writeln!(o, "  {{ let x = &m.{}; {} }},", f.name, e).unwrap();
        }
    }
    o.push_str("]) }\n");
    // Value and offsets.
    writeln!(o, "fn vo_{p}_{i}(m: &{t}{}, o: &{t}Offsets) -> (Val, Vec<Off>) {{ let mut vals = Vec::new(); let mut offs = Vec::new();", lt(w, r, "'_")).unwrap();
    for f in &m.fields {
        let n = &f.name;
        let (val, sub) = match &f.kind {
            MKind::Item(Item::Msg(q)) => {
                if f.optional {
                    writeln!(o, "  let (v, s) = opt_off(m.{n}.as_ref(), o.{n}_offsets.as_ref(), |x, y| vo_{}_{}(x, y));", q.proto, q.idx).unwrap();
                } else {
                    writeln!(o, "  let (v, s) = vo_{}_{}(&m.{n}, &o.{n}_offsets); let s = Sub::Present(s);", q.proto, q.idx).unwrap();
                }
                ("v".to_string(), "s".to_string())
            }
            MKind::List { item: Item::Msg(q), .. } => {
                let e = format!("list_off(x.len(), x.iter_offsets().map(|r| r.map(|(y, z)| vo_{}_{}(&y, &z))))", q.proto, q.idx);
                if f.optional {
                    writeln!(o, "  let (v, s) = match &m.{n} {{ None => (Val::Opt(None), Sub::Plain), Some(x) => {{ let (v, s) = {e}; (Val::Opt(Some(Box::new(v))), s) }} }};").unwrap();
                } else {
                    writeln!(o, "  let (v, s) = {{ let x = &m.{n}; {e} }};").unwrap();
                }
                ("v".to_string(), "s".to_string())
            }
            _ => {
                let e = field_val(w, f);
                let e = if f.optional { format!("Val::Opt(match &m.{} {{ None => None, Some(x) => Some(Box::new({})) }})", n, e) } else { format!("{{ let x = &m.{}; {} }}", n, e) };
                (e, "Sub::Plain".to_string())
            }
        };
        writeln!(o, "  vals.push({val}); offs.push(Off {{ start: o.{n}.start, end: o.{n}.end, sub: {sub} }}); off_size(o.{n}.size(), o.{n}.start, o.{n}.end);").unwrap();
    }
    o.push_str("  (Val::Msg(vals), offs) }\n");
    // Message of a value.
    writeln!(o, "fn b_{p}_{i}<'a>(v: &'a Val, k: &'a K) -> Result<{t}{}, bp3d_proto::message::Error> {{ let fs = v_msg(v); Ok({t} {{", lt(w, r, "'a")).unwrap();
    for (n, f) in m.fields.iter().enumerate() {
        let e = field_build(w, r, f);
        if f.optional {
            writeln!(o, "  {}: match v_opt(&fs[{n}]) {{ None => None, Some(x) => Some({}) }},", f.name, e).unwrap();
        } else {
            writeln!(o, "  {}: {{ let x = &fs[{n}]; {} }},", f.name, e).unwrap();
        }
    }
    o.push_str("}) }\n");
}

fn msg(w: &World, r: TRef, o: &mut String) {
    let m = w.msg(r);
    let t = ty(w, r, &m.name);
    let (p, i) = (r.proto, r.idx);
    writeln!(o, "MsgGlue {{ r: ({p}, {i}), decode: |d| match {t}::from_slice(d) {{ Ok(m) => {{ let n = m.size(); Ok((n, v_{p}_{i}(&m.into_inner()))) }} Err(e) => Err(errk(e)) }},").unwrap();
    writeln!(o, " decode_off: |d| match {t}::from_slice_with_offsets(d) {{ Ok(m) => {{ let n = m.size(); let (m, o) = m.into_inner(); let (v, o) = vo_{p}_{i}(&m, &o); Ok((n, v, o)) }} Err(e) => Err(errk(e)) }},").unwrap();
    writeln!(o, " encode: |v, k, w| {{ let m = b_{p}_{i}(v, k).map_err(errk)?; {t}::write_to(&m, w).map_err(errk) }},").unwrap();
    writeln!(o, " size_of: |v, k| {{ let m = b_{p}_{i}(v, k).map_err(errk)?; bp3d_proto::message::util::size_of(&m).map_err(errk) }},").unwrap();
    writeln!(o, " recode: |d, w| {{ let m = {t}::from_slice(d).map_err(errk)?; {t}::write_to(&m.into_inner(), w).map_err(errk) }},").unwrap();
    o.push_str(" arrays: &[\n");
    for (n, f) in m.fields.iter().enumerate() {
        if let MKind::List { item: Item::Struct(s), .. } = &f.kind {
            arrw(w, r, n, f, *s, o);
        }
    }
    o.push_str(" ] },\n");
}

fn arrw(w: &World, m: TRef, n: usize, f: &MField, s: TRef, o: &mut String) {
    let a = ty(w, m, &format!("{}{}", w.msg(m).name, capitalize(&f.name)));
    let t = ty(w, m, &w.msg(m).name);
    let st = ty(w, s, &w.strukt(s).name);
    let (p, i) = (s.proto, s.idx);
    let size = w.byte_size(s);
    let get = if f.optional { format!("m.{}.expect(\"present\")", f.name) } else { format!("m.{}", f.name) };
    writeln!(o, "  ArrGlue {{ field: {n}, s: ({p}, {i}), \
        from_parts: |b, n| {a}::from_parts(b, n).map(|l| l.len()), \
        get: |b, n, i| sbytes(&{a}::from_parts(b, n).expect(\"from_parts\").get(i)), \
        iter: |b, n| {a}::from_parts(b, n).expect(\"from_parts\").iter().map(|s| sbytes(&s)).collect(), \
        get_mut: |b, n, i, v| {{ let mut l = {a}::from_parts(b, n).expect(\"from_parts\"); fill_{p}_{i}(&mut l.get_mut(i), v); }}, \
        iter_mut: |b, n, i, v| {{ let mut l = {a}::from_parts(b, n).expect(\"from_parts\"); let mut c = 0; for (j, mut s) in l.iter_mut().enumerate() {{ if j == i {{ fill_{p}_{i}(&mut s, v); }} c += 1; }} c }}, \
        mixed: |b, n, i, v| {{ let mut l = {a}::from_parts(b, n).expect(\"from_parts\"); fill_{p}_{i}(&mut l.get_mut(i), v); (sbytes(&l.get(i)), l.iter().map(|s| sbytes(&s)).collect()) }}, \
        append: |items, batch| {{ let mut l = {a}::new(Vec::<u8>::new()); let v: Vec<_> = items.iter().map(|it| {st}::from(&it[..])).collect(); if batch {{ l.write_items(&v).map_err(errk)?; }} else {{ for s in &v {{ l.write_item(s).map_err(errk)?; }} }} let n = l.len(); Ok((n, wire(&l.to_ref()).map_err(errk)?)) }}, \
        append_fail: |items, limit, batch| {{ let mut buf = vec![0u8; limit]; let (r, n) = {{ let mut l = {a}::new(&mut buf[..]); let mut r = Ok(()); if batch {{ let v: Vec<_> = items.iter().map(|it| {st}::from(&it[..])).collect(); r = l.write_items(&v).map_err(errk); }} else {{ for it in items {{ r = l.write_item(&{st}::from(&it[..])).map_err(errk); if r.is_err() {{ break; }} }} }} (r, l.len()) }}; (r, n, buf) }}, \
        appended: |items, i, v| {{ let mut l = {a}::new(Vec::<u8>::new()); for it in items {{ l.write_item(&{st}::from(&it[..])).map_err(errk)?; }} let got: Vec<_> = (0..items.len()).map(|j| sbytes(&l.get(j))).collect(); let it: Vec<_> = l.iter().map(|s| sbytes(&s)).collect(); fill_{p}_{i}(&mut l.get_mut(i), v); let c = l.iter_mut().count(); Ok((got, it, c, l.iter().map(|s| sbytes(&s)).collect(), wire(&l.to_ref()).map_err(errk)?)) }}, \
        odd: |data, items, way, n, j, v| {{ macro_rules! probe {{ ($l: expr) => {{{{ let mut l = $l; for k in [0, 1, j] {{ let _ = guard(|| sbytes(&l.get(k))); }} let _ = guard(|| for s in l.iter() {{ sbytes(&s); }}); let _ = guard(|| sbytes(&l.to_ref().get::<{st}<&[u8]>>(j))); let _ = guard(|| fill_{p}_{i}(&mut l.get_mut(j), v)); let _ = guard(|| for mut s in l.iter_mut() {{ fill_{p}_{i}(&mut s, v); }}); let _ = guard(|| wire(&l.to_ref()).is_ok()); }}}} }} \
            match way {{ 0 => {{ let mut l = {a}::new(data); for it in items {{ if l.write_item(&{st}::from(&it[..])).is_err() {{ break; }} }} probe!(l); }} 1 => probe!({a}::new(data)), \
            _ => if let Some(l) = {a}::from_parts(Shrink::new(data), n) {{ probe!(l); }} }} }}, \
        inplace: |b, n| {{ let l = {a}::from_parts(b, n).expect(\"from_parts\"); wire(&l.to_ref()).map_err(errk) }}, \
        decoded: |d, i| {{ let m = {t}::from_slice(d).map_err(errk)?.into_inner(); let x = {get}; let first = x.get::<{st}<&[u8]>>(i); let l = {a}::from_array(x); Ok((l.len(), sbytes(&first), sbytes(&l.get(i)), l.iter().map(|s| sbytes(&s)).collect())) }} }},", i = i).unwrap();
    let _ = size;
}

fn union_fns(w: &World, r: TRef, o: &mut String) {
    let u = w.union(r);
    let t = ty(w, r, &u.name);
    let l = if w.union_lt(r) { "<'a>" } else { "" };
    writeln!(o, "fn bu_{}_{}<'a>(x: &'a Val, k: &'a K) -> Result<{t}{l}, bp3d_proto::message::Error> {{ Ok({}) }}", r.proto, r.idx, union_build(w, r)).unwrap();
}

fn union(w: &World, r: TRef, o: &mut String) {
    let u = w.union(r);
    let t = ty(w, r, &u.name);
    let root = ty(w, u.root, &w.strukt(u.root).name);
    let (p, i) = (r.proto, r.idx);
    writeln!(o, "UnionGlue {{ r: ({p}, {i}), \
        read: |disc, d| match {t}::from_slice(d, &{root}::from(disc)) {{ Ok(m) => {{ let n = m.size(); let u = m.into_inner(); Ok((n, {})) }} Err(e) => Err(errk(e)) }}, \
        write: |v, k, disc, w| {{ let u = bu_{p}_{i}(v, k).map_err(errk)?; {t}::write_to(&u, &{root}::from(disc), w).map_err(errk) }}, \
        set: |v, k, disc| {{ let u = bu_{p}_{i}(v, k).expect(\"build\"); u.set_discriminant(&mut {root}::from(disc)); }}, \
        cases: |v, k| {{ let u = bu_{p}_{i}(v, k).expect(\"build\"); vec![{}] }} }},",
        union_val(w, r, "&u"),
        u.cases.iter().map(|c| match c.item {
            None => format!("u.is_{}()", c.name.to_lowercase()),
            Some(_) => format!("u.as_{}().is_some()", c.name.to_lowercase()),
        }).collect::<Vec<_>>().join(", ")).unwrap();
}
