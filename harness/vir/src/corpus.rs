//! Schema corpus: worlds (sets of protocols) as a function of (family, seed, index).
use crate::*;

pub const FAMILIES: &[&str] = &["bits", "sview", "sarr", "srand", "mbasic", "mlist", "munion", "mimport", "mrand", "large", "mpair"];

/// Worlds from here on are parts of others: index + PART * (1 + part).
pub const PART: usize = 1_000_000;

pub fn world(family: &str, seed: u64, index: usize) -> World {
    if index < PART {
        return whole(family, seed, index);
    }
    let mut w = part(&whole(family, seed, index % PART), index / PART - 1);
    w.name = format!("{}_{}_{}", family, seed, index);
    w
}

/// Structs, unions and messages of a world: each is a part, together with what it refers to.
pub fn parts(w: &World) -> (usize, usize, usize) {
    (w.protos.iter().map(|p| p.structs.len()).sum(), w.protos.iter().map(|p| p.unions.len()).sum(), w.protos.iter().map(|p| p.msgs.len()).sum())
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Kind {
    Enum,
    Struct,
    Union,
    Msg,
}

fn item_of(i: &Item) -> (Kind, TRef) {
    match i {
        Item::Struct(r) => (Kind::Struct, *r),
        Item::Msg(r) => (Kind::Msg, *r),
    }
}

fn part(w: &World, n: usize) -> World {
    use std::collections::BTreeMap;
    let all = |k: Kind| -> Vec<(Kind, TRef)> {
        w.protos.iter().enumerate().flat_map(|(proto, p)| {
            let len = match k {
                Kind::Enum => p.enums.len(),
                Kind::Struct => p.structs.len(),
                Kind::Union => p.unions.len(),
                Kind::Msg => p.msgs.len(),
            };
            (0..len).map(move |idx| (k, TRef { proto, idx }))
        }).collect()
    };
    let roots: Vec<(Kind, TRef)> = [Kind::Struct, Kind::Union, Kind::Msg].into_iter().flat_map(all).collect();
    let mut keep = std::collections::BTreeSet::new();
    let mut todo = vec![roots[n]];
    while let Some((k, r)) = todo.pop() {
        if !keep.insert((k, r)) {
            continue;
        }
        match k {
            Kind::Enum => (),
            Kind::Struct => for f in &w.strukt(r).fields {
                match &f.kind {
                    SKind::Struct(r) => todo.push((Kind::Struct, *r)),
                    SKind::Scalar { view: View::Enum(r), .. } => todo.push((Kind::Enum, *r)),
                    _ => (),
                }
            },
            Kind::Union => {
                let u = &w.protos[r.proto].unions[r.idx];
                todo.push((Kind::Struct, u.root));
                todo.extend(u.cases.iter().filter_map(|c| c.item.as_ref()).map(item_of));
            }
            Kind::Msg => for f in &w.msg(r).fields {
                match &f.kind {
                    MKind::Item(i) | MKind::List { item: i, .. } => todo.push(item_of(i)),
                    MKind::Union { r, .. } => todo.push((Kind::Union, *r)),
                    _ => (),
                }
            },
        }
    }
    // New indices.
    let mut at: BTreeMap<(Kind, TRef), TRef> = BTreeMap::new();
    for k in [Kind::Enum, Kind::Struct, Kind::Union, Kind::Msg] {
        let mut next = vec![0; w.protos.len()];
        for x in all(k) {
            if keep.contains(&x) {
                at.insert(x, TRef { proto: x.1.proto, idx: next[x.1.proto] });
                next[x.1.proto] += 1;
            }
        }
    }
    let item = |i: &Item| match i {
        Item::Struct(r) => Item::Struct(at[&(Kind::Struct, *r)]),
        Item::Msg(r) => Item::Msg(at[&(Kind::Msg, *r)]),
    };
    let mut o = w.clone();
    for (proto, p) in o.protos.iter_mut().enumerate() {
        let kept = |k: Kind| {
            let mut i = 0;
            let keep = &keep;
            move || {
                i += 1;
                keep.contains(&(k, TRef { proto, idx: i - 1 }))
            }
        };
        let (mut e, mut s, mut u, mut m) = (kept(Kind::Enum), kept(Kind::Struct), kept(Kind::Union), kept(Kind::Msg));
        p.enums.retain(|_| e());
        p.structs.retain(|_| s());
        p.unions.retain(|_| u());
        p.msgs.retain(|_| m());
        for s in &mut p.structs {
            for f in &mut s.fields {
                match &mut f.kind {
                    SKind::Struct(r) => *r = at[&(Kind::Struct, *r)],
                    SKind::Scalar { view: View::Enum(r), .. } => *r = at[&(Kind::Enum, *r)],
                    _ => (),
                }
            }
        }
        for u in &mut p.unions {
            u.root = at[&(Kind::Struct, u.root)];
            for c in &mut u.cases {
                c.item = c.item.as_ref().map(item);
            }
        }
        for m in &mut p.msgs {
            for f in &mut m.fields {
                match &mut f.kind {
                    MKind::Item(i) | MKind::List { item: i, .. } => *i = item(i),
                    MKind::Union { r, .. } => *r = at[&(Kind::Union, *r)],
                    _ => (),
                }
            }
        }
    }
    // Imports of what is left.
    let names: Vec<std::collections::BTreeSet<String>> = o.protos.iter().map(|p| {
        p.enums.iter().map(|x| x.name.clone()).chain(p.structs.iter().map(|x| x.name.clone())).chain(p.unions.iter().map(|x| x.name.clone())).chain(p.msgs.iter().map(|x| x.name.clone())).collect()
    }).collect();
    for p in &mut o.protos {
        p.imports.retain(|(from, name, _)| names[*from].contains(name));
    }
    o
}

fn whole(family: &str, seed: u64, index: usize) -> World {
    let fam = FAMILIES.iter().position(|f| *f == family).unwrap_or_else(|| panic!("unknown family {}", family)) as u64;
    let mut w = match family {
        "bits" => bits(index),
        "sarr" => sarr(&mut Rng::of(&[seed, fam, index as u64]), index),
        "mpair" => mpair(seed, index),
        "large" => large(&mut Rng::of(&[seed, fam, index as u64]), index),
        _ => rand_world(&mut Rng::of(&[seed, fam, index as u64]), knobs(family, index)),
    };
    w.name = format!("{}_{}_{}", family, seed, index);
    if (index % 3 == 2 || family == "mimport" && index % 3 == 1) && family != "bits" && family != "sarr" && family != "mpair" {
        rename(&mut w, &mut Rng::of(&[seed, fam, index as u64, 77]));
    }
    w
}

/// Every width, at every offset inside a byte, in both byte orders, as every integer type.
fn bits(index: usize) -> World {
    let big = index & 1 == 1;
    let ty = [Ty::Unsigned, Ty::Signed, Ty::Bool][index / 2 % 3];
    let quarter = index / 6 % 4;
    let mut p = Proto { name: "bits".into(), endian: if big { Some(true) } else if quarter % 2 == 0 { None } else { Some(false) }, ..Default::default() };
    for n in quarter * 16 + 1..=quarter * 16 + 16 {
        let mut fields = Vec::new();
        let mut cur = 0usize;
        for i in 0..8 {
            let pad = (i + 8 - cur % 8) % 8;
            if pad > 0 {
                fields.push(SField { name: format!("p{}", i), kind: SKind::Scalar { ty: Ty::Unsigned, bits: pad as u32, view: View::None } });
            }
            fields.push(SField { name: format!("f{}", i), kind: SKind::Scalar { ty, bits: n as u32, view: View::None } });
            cur += pad + n;
        }
        p.structs.push(Struct { name: format!("W{}", n), fields });
    }
    World { name: String::new(), protos: vec![p], load_order: vec![0], wrap: false }
}

/// Arrays of every item width and type, at the start, middle and end of structs, nested.
fn sarr(rng: &mut Rng, index: usize) -> World {
    let big = index & 1 == 1;
    let mut p = Proto { name: "arrs".into(), endian: Some(big), ..Default::default() };
    let mut k = 0;
    for w in 1..=8u32 {
        for ty in [Ty::Unsigned, Ty::Signed, Ty::Float, Ty::Bool] {
            if ty == Ty::Float && w != 4 && w != 8 || ty == Ty::Bool && w != 1 {
                continue;
            }
            let mut fields = Vec::new();
            let lead = if rng.chance(1, 2) { rng.range(1, 3) as u32 * 8 } else { 0 };
            if lead > 0 {
                let split = rng.range(1, lead as u64 - 1) as u32;
                fields.push(scalar("l0", Ty::Unsigned, split));
                fields.push(scalar("l1", Ty::Unsigned, lead - split));
            }
            fields.push(SField { name: "arr".into(), kind: SKind::Array { ty, bits: w * 8, len: rng.range(2, 7) as usize } });
            if rng.chance(2, 3) {
                fields.push(scalar("t0", Ty::Unsigned, rng.range(1, 20) as u32));
            }
            p.structs.push(Struct { name: format!("A{}", k), fields });
            k += 1;
        }
    }
    // Several arrays in one struct, and arrays inside nested structs.
    let n = p.structs.len();
    for j in 0..3 {
        let mut fields = Vec::new();
        let mut cur = 0;
        for i in 0..rng.range(2, 3) {
            let pick = TRef { proto: 0, idx: rng.idx(n) };
            fields.push(SField { name: format!("n{}", i), kind: SKind::Struct(pick) });
            let b: usize = {
                let w = World { name: String::new(), protos: vec![p.clone()], load_order: vec![], wrap: false };
                w.bit_size(pick)
            };
            cur += b;
            if cur % 8 != 0 {
                fields.push(scalar(&format!("q{}", i), Ty::Unsigned, 8 - cur as u32 % 8));
                cur += 8 - cur % 8;
            }
            let a = rng.range(1, 4) as u32 * 8;
            fields.push(SField { name: format!("m{}", i), kind: SKind::Array { ty: Ty::Unsigned, bits: a, len: rng.range(2, 300) as usize % 40 + 2 } });
        }
        p.structs.push(Struct { name: format!("B{}", j), fields });
    }
    World { name: String::new(), protos: vec![p], load_order: vec![0], wrap: false }
}

/// Few types, but with many or far away parts: hundreds of variants, fields beyond 256 and 65536
/// bits and bytes, deep nesting, many cases.
fn large(rng: &mut Rng, index: usize) -> World {
    let big = index & 1 == 1;
    let mut w = World { name: String::new(), protos: vec![Proto { name: "large".into(), endian: Some(big), ..Default::default() }], load_order: vec![0], wrap: index & 2 == 2 };
    let s = |idx: usize| TRef { proto: 0, idx };
    let field = |name: &str, kind: SKind| SField { name: name.into(), kind };
    let en = |bits: u32, idx: usize| SKind::Scalar { ty: Ty::Unsigned, bits, view: View::Enum(TRef { proto: 0, idx }) };
    let p = &mut w.protos[0];
    let mut dense: Vec<(String, u64)> = (0..300).map(|k| (format!("V{}", k), k)).collect();
    for i in (1..dense.len()).rev() {
        dense.swap(i, rng.idx(i + 1));
    }
    p.enums.push(Enum { name: "Dense".into(), variants: dense });
    p.enums.push(Enum { name: "Sparse".into(), variants: (0..40u64).map(|k| (format!("S{}", k), k * k * k * 7 + k)).collect() });
    // 0..=7: a chain of nested structs.
    p.structs.push(Struct { name: "D0".into(), fields: vec![scalar("lo", Ty::Unsigned, 7), scalar("kind", Ty::Unsigned, 9)] });
    for k in 1..8 {
        let a = rng.range(1, 15) as u32;
        p.structs.push(Struct { name: format!("D{}", k), fields: vec![scalar("a", Ty::Unsigned, a), scalar("b", Ty::Unsigned, 16 - a), field("inner", SKind::Struct(s(k - 1))), scalar("c", Ty::Signed, 16)] });
    }
    // 8: the discriminants.
    p.structs.push(Struct { name: "Disc".into(), fields: vec![scalar("kind", Ty::Unsigned, 8), field("dense", en(9, 0)), scalar("kind2", Ty::Unsigned, 23), field("sparse", en(24, 1)), scalar("wide", Ty::Unsigned, 64)] });
    // 9: many fields.
    let many = (0..70).map(|k| match rng.below(8) {
        0 => field(&format!("x{}", k), en(rng.range(19, 30) as u32, 1)),
        1 => scalar(&format!("x{}", k), Ty::Bool, 1),
        2 => scalar(&format!("x{}", k), Ty::Signed, rng.range(2, 64) as u32),
        _ => scalar(&format!("x{}", k), Ty::Unsigned, width(rng)),
    }).collect();
    p.structs.push(Struct { name: "Many".into(), fields: many });
    // 10, 11: fields far from the start.
    let tail = |rng: &mut Rng| vec![scalar("a", Ty::Unsigned, 3), field("e", en(9, 0)), scalar("b", Ty::Unsigned, 12), scalar("c", Ty::Signed, rng.range(9, 30) as u32), scalar("d", Ty::Bool, 1), scalar("g", Ty::Unsigned, rng.range(33, 64) as u32), scalar("h", Ty::Unsigned, 32)];
    let mut far = vec![field("pad", SKind::Array { ty: Ty::Unsigned, bits: 8, len: 250 + rng.idx(20) })];
    far.extend(tail(rng));
    p.structs.push(Struct { name: "Far".into(), fields: far });
    let mut very = vec![field("pad", SKind::Array { ty: Ty::Unsigned, bits: 16, len: 4300 }), field("deep", SKind::Struct(s(7)))];
    very.extend(tail(rng));
    p.structs.push(Struct { name: "VeryFar".into(), fields: very });
    // 12: long arrays.
    p.structs.push(Struct { name: "Long".into(), fields: vec![
        scalar("n", Ty::Unsigned, 8), field("a24", SKind::Array { ty: Ty::Unsigned, bits: 24, len: 300 }),
        field("a16", SKind::Array { ty: Ty::Signed, bits: 16, len: 700 }), field("f", SKind::Array { ty: Ty::Float, bits: 64, len: 257 }),
        field("last", SKind::Array { ty: Ty::Unsigned, bits: 8, len: 256 }),
    ] });
    // 13, 14: small ones.
    p.structs.push(Struct { name: "Small".into(), fields: vec![scalar("a", Ty::Unsigned, 4), scalar("b", Ty::Unsigned, 12)] });
    p.structs.push(Struct { name: "One".into(), fields: vec![scalar("v", Ty::Unsigned, 32)] });
    // 15: fields beyond 65536 bytes.
    p.structs.push(Struct { name: "Farther".into(), fields: vec![
        field("pad", SKind::Array { ty: Ty::Unsigned, bits: if big { 8 } else { 16 }, len: 65530 + rng.idx(20) }), field("rest", SKind::Array { ty: Ty::Unsigned, bits: if big { 8 } else { 64 }, len: 70 }), field("more", SKind::Array { ty: Ty::Unsigned, bits: 8, len: 65560 + rng.idx(500) }), scalar("a", Ty::Unsigned, 5), scalar("a2", Ty::Unsigned, 3),
        field("small", SKind::Struct(s(0))), scalar("b", Ty::Signed, 27), scalar("c", Ty::Unsigned, 5), field("end", SKind::Array { ty: Ty::Unsigned, bits: 16, len: 3 }),
    ] });
    let items = [None, Some(Item::Struct(s(13))), Some(Item::Struct(s(0))), Some(Item::Struct(s(14))), Some(Item::Struct(s(9)))];
    let cases = |rng: &mut Rng, raws: Vec<(String, u64)>| -> Vec<Case> {
        raws.into_iter().enumerate().map(|(i, (lit, raw))| Case { name: format!("C{}", i), lit, raw, item: *rng.pick(&items) }).collect()
    };
    let some = |rng: &mut Rng, n: u64, max: u64| -> Vec<(String, u64)> {
        let mut v: Vec<u64> = Vec::new();
        while (v.len() as u64) < n {
            let x = match rng.below(3) {
                0 => max - rng.below(n),
                1 => rng.below(n + 2),
                _ => rng.below(max),
            };
            if !v.contains(&x) {
                v.push(x);
            }
        }
        v.into_iter().map(|v| (v.to_string(), v)).collect()
    };
    let named = |p: &Proto, e: usize, n: usize| -> Vec<(String, u64)> { p.enums[e].variants.iter().take(n).cloned().collect() };
    let path = |v: &[&str]| v.iter().map(|v| v.to_string()).collect::<Vec<String>>();
    let raws = some(rng, 60, 255);
    let u = [
        Union { name: "ByKind".into(), root: s(8), path: path(&["kind"]), cases: cases(rng, raws) },
        Union { name: "ByDense".into(), root: s(8), path: path(&["dense"]), cases: { let n = named(p, 0, 40); cases(rng, n) } },
        Union { name: "BySparse".into(), root: s(8), path: path(&["sparse"]), cases: { let n = named(p, 1, 40); cases(rng, n) } },
        Union { name: "ByWide".into(), root: s(8), path: path(&["wide"]), cases: { let r = some(rng, 12, u64::MAX); cases(rng, r) } },
        Union { name: "ByKind2".into(), root: s(8), path: path(&["kind2"]), cases: { let r = some(rng, 12, mask(23)); cases(rng, r) } },
        Union { name: "ByDeep".into(), root: s(7), path: path(&["inner", "inner", "inner", "inner", "inner", "inner", "inner", "kind"]), cases: { let r = some(rng, 6, 511); cases(rng, r) } },
        Union { name: "ByFar".into(), root: s(10), path: path(&["b"]), cases: { let r = some(rng, 6, 4095); cases(rng, r) } },
    ];
    p.unions.extend(u);
    let f = |name: &str, kind: MKind, optional: bool| MField { name: name.into(), kind, optional };
    let item = |i: usize| MKind::Item(Item::Struct(s(i)));
    // 0..=7: a chain of nested messages.
    p.msgs.push(Msg { name: "N0".into(), fields: vec![f("v", item(14), false), f("s", MKind::Str { max_len: None }, true)] });
    for k in 1..8 {
        let opt = rng.chance(1, 2);
        p.msgs.push(Msg { name: format!("N{}", k), fields: vec![f("s", MKind::Str { max_len: Some(300) }, rng.chance(1, 2)), f("inner", MKind::Item(Item::Msg(s(k - 1))), opt), f("v", item(13), false)] });
    }
    // 8: many fields.
    let fields = (0..45).map(|k| {
        let kind = match rng.below(7) {
            0 => item(13),
            1 => item(14),
            2 => item(2),
            3 => MKind::Str { max_len: None },
            4 => MKind::Str { max_len: Some(200) },
            5 => MKind::List { max_len: 1000, item: Item::Struct(s(13)) },
            _ => MKind::Item(Item::Msg(s(0))),
        };
        f(&format!("m{}", k), kind, rng.chance(1, 3))
    }).collect();
    p.msgs.push(Msg { name: "Fields".into(), fields });
    p.msgs.push(Msg { name: "Unions".into(), fields: vec![
        f("d", item(8), false), f("a", MKind::Union { on: 0, r: s(0) }, false), f("b", MKind::Union { on: 0, r: s(1) }, false), f("c", MKind::Union { on: 0, r: s(2) }, false),
        f("t", MKind::Str { max_len: None }, true), f("e", MKind::Union { on: 0, r: s(3) }, false), f("g", MKind::Union { on: 0, r: s(4) }, false),
    ] });
    p.msgs.push(Msg { name: "Deep".into(), fields: vec![f("first", item(7), false), f("d", item(7), false), f("a", MKind::Union { on: 1, r: s(5) }, false), f("b", MKind::Union { on: 0, r: s(5) }, false)] });
    p.msgs.push(Msg { name: "Far1".into(), fields: vec![f("far", item(10), false), f("u", MKind::Union { on: 0, r: s(6) }, false), f("end", MKind::Str { max_len: Some(70000) }, false)] });
    p.msgs.push(Msg { name: "Items".into(), fields: vec![f("a", MKind::List { max_len: 70000, item: Item::Struct(s(2)) }, false), f("l", MKind::List { max_len: 300, item: Item::Msg(s(2)) }, false)] });
    p.msgs.push(Msg { name: "Longs".into(), fields: vec![f("o", item(12), true), f("p", MKind::Payload, false)] });
    w
}

/// How many worlds `mpair` has: messages of one field of every kind (0 and 1), and of every two
/// kinds after each other (the first of them plain or optional).
pub const PAIRS: usize = 60;

fn mpair(seed: u64, index: usize) -> World {
    let big = if index < 2 { index == 1 } else { (index - 2 + seed as usize) % 2 == 1 };
    let mut w = World { name: String::new(), protos: vec![Proto { name: "parts".into(), endian: if big { Some(true) } else { None }, ..Default::default() }], load_order: vec![0, 1], wrap: false };
    let s = |idx: usize| TRef { proto: 0, idx };
    let u = |idx: usize| TRef { proto: 1, idx };
    let p = &mut w.protos[0];
    p.enums.push(Enum { name: "En".into(), variants: vec![("Off".into(), 0), ("On".into(), 1), ("Far".into(), 200)] });
    // 0..: numbers, wrapped numbers, others.
    for (n, ty, bits) in [("N8", Ty::Unsigned, 8), ("N16", Ty::Signed, 16), ("N24", Ty::Unsigned, 24), ("N64", Ty::Unsigned, 64), ("F32", Ty::Float, 32), ("B8", Ty::Bool, 8), ("B16", Ty::Bool, 16), ("N56", Ty::Unsigned, 56), ("S40", Ty::Signed, 40), ("N40", Ty::Unsigned, 40), ("N48", Ty::Unsigned, 48)] {
        p.structs.push(Struct { name: n.into(), fields: vec![scalar("v", ty, bits)] });
    }
    // 11, 12, 13
    p.structs.push(Struct { name: "Two".into(), fields: vec![scalar("a", Ty::Unsigned, 5), scalar("b", Ty::Unsigned, 14)] });
    p.structs.push(Struct { name: "Disc".into(), fields: vec![scalar("x", Ty::Unsigned, 3), scalar("k", Ty::Unsigned, 2), scalar("y", Ty::Unsigned, 3)] });
    p.structs.push(Struct { name: "Tagged".into(), fields: vec![SField { name: "e".into(), kind: SKind::Scalar { ty: Ty::Unsigned, bits: 8, view: View::Enum(s(0)) } }] });
    let mut unions = Vec::new();
    let case = |name: &str, k: u64, item: Option<Item>| Case { name: name.into(), lit: k.to_string(), raw: k, item };
    let field = |name: &str, kind: MKind, optional: bool| MField { name: name.into(), kind, optional };
    unions.push(Union { name: "Plain".into(), root: s(12), path: vec!["k".into()], cases: vec![case("A", 0, None), case("B", 1, None), case("C", 3, None)] });
    // 5, on a structure that is carried as a number elsewhere; the last one signed.
    let on_number = vec![
        Union { name: "OnNumber".into(), root: s(0), path: vec!["v".into()], cases: vec![case("A", 200, Some(Item::Struct(s(11)))), case("B", 7, None)] },
        Union { name: "OnSigned".into(), root: s(1), path: vec!["v".into()], cases: vec![case("A", 0, None), Case { name: "B".into(), lit: "-2".into(), raw: 0xFFFE, item: Some(Item::Msg(s(2))) }] },
    ];
    unions.push(Union { name: "Structs".into(), root: s(12), path: vec!["k".into()], cases: vec![case("A", 0, Some(Item::Struct(s(0)))), case("B", 1, None), case("C", 2, Some(Item::Struct(s(11))))] });
    unions.push(Union { name: "Owned".into(), root: s(12), path: vec!["k".into()], cases: vec![case("A", 1, Some(Item::Msg(s(1)))), case("B", 2, Some(Item::Msg(s(0)))), case("C", 3, None)] });
    unions.push(Union { name: "Mixed".into(), root: s(12), path: vec!["k".into()], cases: vec![case("A", 0, Some(Item::Msg(s(2)))), case("B", 2, Some(Item::Struct(s(11)))), case("C", 3, Some(Item::Msg(s(1))))] });
    unions.push(Union { name: "Tail".into(), root: s(12), path: vec!["k".into()], cases: vec![case("A", 0, Some(Item::Msg(s(3)))), case("B", 2, None), case("C", 3, Some(Item::Msg(s(4))))] });
    let num = |k: usize| MKind::Item(Item::Struct(s(k)));
    // 0..=5: messages without and with borrowed parts, tails, and none at all.
    p.msgs.push(Msg { name: "Empty".into(), fields: vec![] });
    p.msgs.push(Msg { name: "Own".into(), fields: vec![field("v", num(0), false), field("w", num(1), true)] });
    p.msgs.push(Msg { name: "Ref".into(), fields: vec![field("s", MKind::Str { max_len: None }, true), field("v", num(11), false)] });
    p.msgs.push(Msg { name: "Raw".into(), fields: vec![field("v", num(0), false), field("p", MKind::Payload, false)] });
    p.msgs.push(Msg { name: "Many".into(), fields: vec![field("l", MKind::List { max_len: 255, item: Item::Msg(s(1)) }, false)] });
    p.msgs.push(Msg { name: "Unit".into(), fields: vec![field("e", MKind::Item(Item::Msg(s(0))), true)] });
    unions.extend(on_number);
    let mut q = Proto { name: "pairs".into(), endian: p.endian, unions, ..Default::default() };
    q.imports.extend(p.structs.iter().map(|s| s.name.clone()).chain(p.msgs.iter().map(|m| m.name.clone())).map(|n| (0, n, 0)));
    let kinds: Vec<Option<MKind>> = vec![
        Some(num(0)), Some(num(1)), Some(num(2)), Some(num(3)), Some(num(4)), Some(num(5)), Some(num(6)), Some(num(7)), Some(num(8)), Some(num(9)), Some(num(10)), Some(num(11)), Some(num(13)),
        Some(MKind::Item(Item::Msg(s(0)))), Some(MKind::Item(Item::Msg(s(1)))), Some(MKind::Item(Item::Msg(s(2)))), Some(MKind::Item(Item::Msg(s(5)))),
        Some(MKind::Str { max_len: None }), Some(MKind::Str { max_len: Some(255) }), Some(MKind::Str { max_len: Some(70000) }),
        Some(MKind::List { max_len: 255, item: Item::Struct(s(0)) }), Some(MKind::List { max_len: 256, item: Item::Struct(s(11)) }), Some(MKind::List { max_len: 1 << 40, item: Item::Struct(s(1)) }),
        // Unions follow their discriminant.
        None, None, None, None, None, None,
        // Everything from here on extends to the end.
        Some(MKind::Item(Item::Msg(s(3)))), Some(MKind::List { max_len: 300, item: Item::Msg(s(1)) }), Some(MKind::Payload),
        Some(MKind::List { max_len: 10, item: Item::Msg(s(2)) }), Some(MKind::List { max_len: 70000, item: Item::Msg(s(5)) }), Some(MKind::Item(Item::Msg(s(4)))), None,
    ];
    const FIXED: usize = 29;
    let push = |fields: &mut Vec<MField>, k: usize, optional: bool| {
        let kind = match &kinds[k] {
            Some(kind) => kind.clone(),
            None => {
                let k = if k < FIXED { [0, 1, 2, 3, 5, 6][k - 23] } else { 4 };
                let n = fields.len();
                fields.push(field(&format!("d{}", n), num([12, 12, 12, 12, 12, 0, 1][k]), false));
                MKind::Union { on: n, r: u(k) }
            }
        };
        let name = format!("{}{}", ["x", "y"][(fields.len() > 1) as usize], fields.len());
        let optional = optional && !matches!(kind, MKind::Union { .. });
        fields.push(field(&name, kind, optional));
    };
    let is_union = |k: usize| kinds[k].is_none();
    if index < 2 {
        for k in 0..kinds.len() {
            for optional in [false, true] {
                if optional && is_union(k) {
                    continue;
                }
                let mut fields = Vec::new();
                push(&mut fields, k, optional);
                q.msgs.push(Msg { name: format!("M{}{}", k, if optional { "o" } else { "" }), fields });
            }
        }
    } else {
        let first = (index - 2) % FIXED;
        let optional = (index - 2) / FIXED % 2 == 1;
        for k in 0..kinds.len() {
            let mut fields = Vec::new();
            push(&mut fields, first, optional);
            push(&mut fields, k, (k + first + seed as usize) % 2 == 0);
            q.msgs.push(Msg { name: format!("M{}", k), fields });
        }
    }
    w.protos.push(q);
    w
}

fn scalar(name: &str, ty: Ty, bits: u32) -> SField {
    SField { name: name.into(), kind: SKind::Scalar { ty, bits, view: View::None } }
}

#[derive(Clone, Copy, Debug)]
pub struct Knobs {
    pub protos: usize,
    pub enums: usize,
    pub structs: usize,
    pub unions: usize,
    pub msgs: usize,
    pub views: u64,
    pub arrays: bool,
    pub nested: bool,
    pub lists: u64,
    pub arrs: u64,
    pub union_fields: u64,
    pub optional: u64,
    pub payload: u64,
    pub names: bool,
}

pub fn knobs(family: &str, index: usize) -> Knobs {
    let base = Knobs { protos: 1, enums: 2, structs: 6, unions: 0, msgs: 0, views: 2, arrays: true, nested: true, lists: 0, arrs: 0, union_fields: 0, optional: 3, payload: 4, names: false };
    match family {
        "sview" => Knobs { enums: 6, structs: 10, views: 9, arrays: false, nested: index % 2 == 1, ..base },
        "srand" => Knobs { protos: 1 + index % 3, enums: 3, structs: 9, views: 3, ..base },
        "mbasic" => Knobs { msgs: 9, structs: 5, ..base },
        "mlist" => Knobs { msgs: 10, lists: 9, arrs: 6, optional: 2, payload: 1, structs: 4, ..base },
        "munion" => Knobs { protos: 1 + index % 2, msgs: 8, unions: 5, union_fields: 9, structs: 7, ..base },
        "mimport" => Knobs { protos: 3, msgs: 5, unions: 2, union_fields: 5, lists: 3, arrs: 2, structs: 4, ..base },
        _ => Knobs { protos: 1 + index % 3, msgs: 8, unions: 3, union_fields: 4, lists: 5, arrs: 4, enums: 3, structs: 6, names: index % 2 == 1, ..base },
    }
}

const FIELD_NAMES: &[&str] = &["data", "len", "size", "value", "input", "out", "msg", "discriminant", "buffer", "kind", "item", "list", "message", "result", "index", "raw", "error", "id2", "self_size", "a_b_c", "camelCase", "bits", "v", "w", "t", "b"];

struct Names {
    used: Vec<String>,
    pool: bool,
}

impl Names {
    fn next(&mut self, rng: &mut Rng) -> String {
        if self.pool && rng.chance(1, 2) {
            let n = rng.pick(FIELD_NAMES).to_string();
            // x together with x_msg, x_offsets or raw_x is not generated here.
            if !self.used.contains(&n) && !(n == "raw" || n == "msg") {
                self.used.push(n.clone());
                return n;
            }
        }
        let n = format!("f{}", self.used.len());
        self.used.push(n.clone());
        n
    }
}

const PROTOS: &[&str] = &["alpha", "beta", "gamma", "delta"];

fn rand_world(rng: &mut Rng, k: Knobs) -> World {
    let mut w = World { name: String::new(), protos: Vec::new(), load_order: Vec::new(), wrap: false };
    let first_big = rng.chance(1, 2);
    for pi in 0..k.protos {
        // Byte orders alternate more often than not.
        let big = if rng.chance(2, 3) { first_big ^ (pi % 2 == 1) } else { rng.chance(1, 2) };
        let endian = if big { Some(true) } else if rng.chance(1, 2) { Some(false) } else { None };
        w.protos.push(Proto { name: PROTOS[pi].into(), endian, ..Default::default() });
        let mut taken: Vec<String> = Vec::new();
        // Imports.
        if pi > 0 {
            let mut cands = Vec::new();
            for q in 0..pi {
                let o = &w.protos[q];
                for n in o.enums.iter().map(|v| &v.name).chain(o.structs.iter().map(|v| &v.name)).chain(o.unions.iter().map(|v| &v.name)).chain(o.msgs.iter().map(|v| &v.name)) {
                    cands.push((q, n.clone(), q));
                }
                // Types that the other protocol has itself imported.
                for (owner, n, _) in &o.imports {
                    cands.push((*owner, n.clone(), q));
                }
            }
            let n = rng.range(3, 10);
            for _ in 0..n {
                let c = rng.pick(&cands).clone();
                if !taken.contains(&c.1) {
                    taken.push(c.1.clone());
                    w.protos[pi].imports.push(c);
                }
            }
        }
        let local = |rng: &mut Rng, w: &World, taken: &mut Vec<String>, prefix: &str, i: usize| -> String {
            // Sometimes reuse the name of a type of another protocol that is not imported.
            if pi > 0 && rng.chance(1, 4) {
                let q = rng.idx(pi);
                let o = &w.protos[q];
                let all: Vec<&String> = o.enums.iter().map(|v| &v.name).chain(o.structs.iter().map(|v| &v.name)).chain(o.unions.iter().map(|v| &v.name)).chain(o.msgs.iter().map(|v| &v.name)).collect();
                let n = rng.pick(&all).to_string();
                if !taken.contains(&n) {
                    taken.push(n.clone());
                    return n;
                }
            }
            let mut n = format!("{}{}{}", prefix, (b'a' + pi as u8) as char, i);
            if taken.contains(&n) {
                n = format!("{}x", n);
            }
            taken.push(n.clone());
            n
        };
        for i in 0..k.enums {
            let name = local(rng, &w, &mut taken, "E", i);
            let e = gen_enum(rng, name);
            w.protos[pi].enums.push(e);
        }
        for i in 0..k.structs {
            let name = local(rng, &w, &mut taken, "S", i);
            let s = gen_struct(rng, &w, pi, name, k, i);
            w.protos[pi].structs.push(s);
        }
        for i in 0..k.unions {
            if let Some(mut u) = gen_union(rng, &w, pi) {
                u.name = local(rng, &w, &mut taken, "U", i);
                w.protos[pi].unions.push(u);
            }
        }
        for i in 0..k.msgs {
            let name = local(rng, &w, &mut taken, "M", i);
            let m = gen_msg(rng, &w, pi, name, k);
            w.protos[pi].msgs.push(m);
        }
    }
    if k.unions > 2 {
        twins(&mut w, &mut Rng::of(&[rng.next(), 78]));
    }
    let mut order: Vec<usize> = (0..k.protos).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, rng.idx(i + 1));
    }
    w.load_order = order;
    w.wrap = rng.chance(1, 2);
    w
}

/// Types visible by name in a protocol: its own, declared so far, and the imported ones.
pub fn visible(w: &World, pi: usize, what: u8) -> Vec<TRef> {
    let names = |p: &Proto| -> Vec<String> {
        match what {
            0 => p.enums.iter().map(|v| v.name.clone()).collect(),
            1 => p.structs.iter().map(|v| v.name.clone()).collect(),
            2 => p.unions.iter().map(|v| v.name.clone()).collect(),
            _ => p.msgs.iter().map(|v| v.name.clone()).collect(),
        }
    };
    let mut v: Vec<TRef> = (0..names(&w.protos[pi]).len()).map(|idx| TRef { proto: pi, idx }).collect();
    for (q, n, _) in &w.protos[pi].imports {
        if let Some(idx) = names(&w.protos[*q]).iter().position(|m| m == n) {
            v.push(TRef { proto: *q, idx });
        }
    }
    v
}

fn gen_enum(rng: &mut Rng, name: String) -> Enum {
    let n = rng.range(1, 6);
    let mut vals: Vec<u64> = Vec::new();
    let mut cur = rng.below(3);
    for _ in 0..n {
        vals.push(cur);
        cur += match rng.below(6) {
            0..=2 => 1,
            3 => 2,
            4 => rng.range(1, 40),
            _ => match rng.below(4) {
                0 => rng.range(1, 300),
                1 => rng.range(1, 70000),
                // Values which differ in their lower and upper halves.
                2 => (1 << rng.range(32, 44)) + rng.range(1, 9),
                _ => 1,
            },
        };
    }
    // Declaration order is not value order.
    for i in (1..vals.len()).rev() {
        vals.swap(i, rng.idx(i + 1));
    }
    Enum { name, variants: vals.into_iter().enumerate().map(|(i, v)| (format!("V{}", i), v)).collect() }
}

fn width(rng: &mut Rng) -> u32 {
    match rng.below(5) {
        0 => *rng.pick(&[8, 16, 32, 64]),
        1 => *rng.pick(&[24, 40, 48, 56]),
        2 => rng.range(1, 8) as u32,
        _ => rng.range(1, 64) as u32,
    }
}

fn gen_struct(rng: &mut Rng, w: &World, pi: usize, name: String, k: Knobs, i: usize) -> Struct {
    let mut names = Names { used: Vec::new(), pool: k.names };
    // Some structs are a single plain number.
    if k.msgs > 0 && rng.chance(1, 5) {
        let (ty, bits) = *rng.pick(&[(Ty::Unsigned, 8), (Ty::Unsigned, 16), (Ty::Unsigned, 32), (Ty::Unsigned, 64), (Ty::Signed, 8), (Ty::Signed, 16), (Ty::Signed, 32), (Ty::Signed, 64), (Ty::Float, 32), (Ty::Float, 64), (Ty::Bool, 8)]);
        return Struct { name, fields: vec![SField { name: names.next(rng), kind: SKind::Scalar { ty, bits, view: View::None } }] };
    }
    let big = w.protos[pi].big();
    let mut fields = Vec::new();
    let mut cur = 0usize;
    let n = rng.range(1, 7);
    for fi in 0..n {
        let pad = (8 - cur % 8) % 8;
        let structs = visible(w, pi, 1);
        if k.nested && !structs.is_empty() && rng.chance(1, 4) && i > 0 {
            let r = *rng.pick(&structs);
            let b = w.bit_size(r);
            let cross = w.protos[r.proto].big() != big || cross_inside(w, r);
            if cur + pad + b <= 1600 && !(cross && b % 8 != 0 && fi + 1 != n) {
                if pad > 0 {
                    fields.push(scalar(&names.next(rng), Ty::Unsigned, pad as u32));
                }
                fields.push(SField { name: names.next(rng), kind: SKind::Struct(r) });
                cur += pad + b;
                continue;
            }
        }
        if k.arrays && rng.chance(1, 5) {
            let (ty, bits) = match rng.below(4) {
                0 => (Ty::Float, *rng.pick(&[32, 64])),
                1 => (Ty::Signed, *rng.pick(&[8, 16, 32, 64])),
                _ => (Ty::Unsigned, 8 * rng.range(1, 8) as u32),
            };
            if pad > 0 {
                fields.push(scalar(&names.next(rng), Ty::Unsigned, pad as u32));
            }
            let len = rng.range(2, 5) as usize;
            fields.push(SField { name: names.next(rng), kind: SKind::Array { ty, bits, len } });
            cur += pad + bits as usize * len;
            continue;
        }
        let kind = gen_scalar(rng, w, pi, k);
        cur += match &kind {
            SKind::Scalar { bits, .. } => *bits as usize,
            _ => 0,
        };
        fields.push(SField { name: names.next(rng), kind });
    }
    Struct { name, fields }
}

/// Whether a struct of a sub-byte size ends in bits of another byte order than its own.
fn cross_inside(w: &World, r: TRef) -> bool {
    let big = w.protos[r.proto].big();
    w.leaves(r).iter().any(|l| l.big != big)
}

fn gen_scalar(rng: &mut Rng, w: &World, pi: usize, k: Knobs) -> SKind {
    let view_roll = rng.below(10) < k.views;
    if view_roll {
        match rng.below(4) {
            0 | 1 => {
                let enums = visible(w, pi, 0);
                if !enums.is_empty() {
                    let r = *rng.pick(&enums);
                    let largest = w.enm(r).variants.iter().map(|v| v.1).max().unwrap();
                    let need = 64 - largest.leading_zeros().min(63);
                    let bits = match rng.below(5) {
                        // Some fields are too narrow for some variants.
                        0 => rng.range(1, 64) as u32,
                        1 => need,
                        _ => rng.range(need as u64, 64) as u32,
                    };
                    return SKind::Scalar { ty: Ty::Unsigned, bits, view: View::Enum(r) };
                }
            }
            2 => {
                let bits = *rng.pick(&[1, 2, 3, 5, 7, 8, 9, 11, 12, 15, 16, 17, 20, 24, 31, 32]);
                let (a, b) = *rng.pick(&[(0.0, 1.0), (-1.0, 1.0), (-100.0, 100.0), (10.0, 20.0), (-90.0, 90.0), (0.0, 65535.0), (-0.5, 2.25), (1000.0, 1002.0), (-3.0, -1.0), (0.1, 0.7), (-273.15, 5000.3), (1000000.001, 1000001.001), (12345.678, 12346.5), (1e-9, 3e-9), (3.5, -3.5), (-5e12, 5.1e12)]);
                return SKind::Scalar { ty: Ty::Float, bits, view: View::Range(a, b) };
            }
            _ => {
                let bits = *rng.pick(&[1, 2, 4, 6, 8, 10, 13, 16, 18, 24, 30, 32]);
                let m = *rng.pick(&[1.0, 0.5, 0.25, 2.0, 0.1, 0.01, 3.0, 100.0, 1e13, 1e-9, 123456.789, 0.001, 7e15, -0.5]);
                return SKind::Scalar { ty: Ty::Float, bits, view: View::Mult(m) };
            }
        }
    }
    match rng.below(10) {
        0..=4 => SKind::Scalar { ty: Ty::Unsigned, bits: width(rng), view: View::None },
        5..=6 => SKind::Scalar { ty: Ty::Signed, bits: width(rng), view: View::None },
        7 => SKind::Scalar { ty: Ty::Float, bits: *rng.pick(&[32, 64]), view: View::None },
        _ => SKind::Scalar { ty: Ty::Bool, bits: if rng.chance(2, 3) { 1 } else { width(rng) }, view: View::None },
    }
}

fn gen_union(rng: &mut Rng, w: &World, pi: usize) -> Option<Union> {
    let structs = visible(w, pi, 1);
    for _ in 0..20 {
        let root = *rng.pick(&structs);
        let leaves: Vec<Leaf> = w.leaves(root).into_iter().filter(|l| match &l.kind {
            SKind::Scalar { ty: Ty::Float, .. } => false,
            SKind::Scalar { bits, view: View::Enum(r), .. } => w.enm(*r).variants.iter().any(|(_, v)| *v <= mask(*bits)),
            SKind::Scalar { .. } => true,
            _ => false,
        }).collect();
        if leaves.is_empty() {
            continue;
        }
        let l = rng.pick(&leaves).clone();
        let mut raws: Vec<(String, u64)> = Vec::new();
        match &l.kind {
            SKind::Scalar { bits, view: View::Enum(r), .. } => {
                for (n, v) in &w.enm(*r).variants {
                    if *v <= mask(*bits) && (rng.chance(3, 4) || raws.is_empty()) {
                        raws.push((n.clone(), *v));
                    }
                }
            }
            SKind::Scalar { ty: Ty::Bool, .. } => {
                raws.push(("1".into(), 1));
                if rng.chance(1, 2) {
                    raws.push(("0".into(), 0));
                }
            }
            SKind::Scalar { ty, bits, .. } => {
                let n = rng.range(1, 5);
                for _ in 0..n {
                    let v = match rng.below(4) {
                        0 => mask(*bits),
                        1 => rng.bits(*bits),
                        _ => rng.below(6) & mask(*bits),
                    };
                    if raws.iter().all(|r| r.1 != v) {
                        let lit = if *ty == Ty::Signed { refm::sign(v, *bits).to_string() } else { v.to_string() };
                        raws.push((lit, v));
                    }
                }
            }
            _ => unreachable!(),
        }
        let mut items: Vec<Item> = structs.iter().map(|r| Item::Struct(*r)).collect();
        for _ in 0..3 {
            items.extend(visible(w, pi, 3).into_iter().filter(|m| m.proto != pi).map(Item::Msg));
        }
        let cases = raws.into_iter().enumerate().map(|(i, (lit, raw))| Case {
            name: format!("C{}", i),
            lit,
            raw,
            item: if rng.chance(1, 4) { None } else { Some(*rng.pick(&items)) },
        }).collect();
        return Some(Union { name: String::new(), root, path: l.path, cases });
    }
    None
}

/// Messages with several fields of the type that holds the discriminant, under names that are alike.
fn twins(w: &mut World, rng: &mut Rng) {
    for pi in 0..w.protos.len() {
        let structs: Vec<TRef> = visible(w, pi, 1).into_iter().filter(|s| w.byte_size(*s) > 0).collect();
        let us: Vec<TRef> = visible(w, pi, 2).into_iter().filter(|u| structs.contains(&w.union(*u).root)).collect();
        if us.is_empty() {
            continue;
        }
        for t in 0..2 {
            let r = *rng.pick(&us);
            let root = w.union(r).root;
            let n = 2 + rng.idx(2);
            let at = rng.idx(CASED.len());
            let cased = rng.chance(1, 2);
            let mut alike = ALIKE.to_vec();
            for i in (1..alike.len()).rev() {
                alike.swap(i, rng.idx(i + 1));
            }
            let mut fields: Vec<MField> = (0..n).map(|k| MField {
                name: if cased { CASED[(at + k) % CASED.len()] } else { alike[k] }.into(),
                kind: MKind::Item(Item::Struct(root)),
                optional: false,
            }).collect();
            let first = rng.idx(n);
            fields.push(MField { name: "v".into(), kind: MKind::Union { on: first, r }, optional: false });
            if t == 1 && !w.field_tail(&fields[n]) {
                fields.push(MField { name: "w".into(), kind: MKind::Union { on: (first + 1) % n, r }, optional: false });
            }
            let name = format!("Twin{}{}", (b'a' + pi as u8) as char, t);
            w.protos[pi].msgs.push(Msg { name, fields });
        }
    }
}

pub const LENS: &[u64] = &[0, 1, 10, 254, 255, 256, 1000, 65535, 65536, 100000, 0xFFFF_FFFF, 0x1_0000_0000, 1 << 40];

fn gen_msg(rng: &mut Rng, w: &World, pi: usize, name: String, k: Knobs) -> Msg {
    let mut names = Names { used: Vec::new(), pool: k.names };
    let mut fields: Vec<MField> = Vec::new();
    let structs: Vec<TRef> = visible(w, pi, 1).into_iter().filter(|s| w.byte_size(*s) > 0).collect();
    let msgs = visible(w, pi, 3);
    let unions = visible(w, pi, 2);
    let n = if rng.chance(1, 25) { 0 } else { rng.range(1, 6) };
    let mut tail = false;
    for _ in 0..n {
        if tail {
            break;
        }
        let optional = rng.below(10) < k.optional;
        // A union together with the struct that holds its discriminant.
        if !unions.is_empty() && rng.below(10) < k.union_fields {
            let r = *rng.pick(&unions);
            let u = w.union(r);
            // Reuse an earlier discriminant field when its leaf is still free.
            let free = fields.iter().enumerate().position(|(i, f)| !f.optional && matches!(f.kind, MKind::Item(Item::Struct(s)) if s == u.root)
                && fields.iter().all(|g| !matches!(&g.kind, MKind::Union { on, r: o } if *on == i && w.union(*o).path == u.path)));
            let on = match free {
                Some(on) if rng.chance(1, 2) => on,
                _ => {
                    // The discriminant's struct must be visible by name only for other unions; a
                    // message field needs it by name.
                    if !structs.contains(&u.root) {
                        continue;
                    }
                    fields.push(MField { name: names.next(rng), kind: MKind::Item(Item::Struct(u.root)), optional: false });
                    if rng.chance(1, 3) {
                        fields.push(MField { name: names.next(rng), kind: MKind::Str { max_len: None }, optional: rng.chance(1, 2) });
                        fields.len() - 2
                    } else {
                        fields.len() - 1
                    }
                }
            };
            let f = MField { name: names.next(rng), kind: MKind::Union { on, r }, optional: false };
            tail = w.field_tail(&f);
            fields.push(f);
            continue;
        }
        let kind = if rng.below(20) < k.arrs && !structs.is_empty() {
            MKind::List { max_len: *rng.pick(LENS), item: Item::Struct(*rng.pick(&structs)) }
        } else if rng.below(20) < k.lists {
            let items: Vec<TRef> = msgs.iter().copied().filter(|m| {
                let mut lp = Vec::new();
                w.list_protos(*m, &mut lp);
                !w.has_payload(*m) && w.min_size(*m) > 0 && lp.iter().all(|p| *p == pi)
            }).collect();
            if items.is_empty() {
                MKind::Str { max_len: None }
            } else {
                MKind::List { max_len: *rng.pick(LENS), item: Item::Msg(*rng.pick(&items)) }
            }
        } else {
            match rng.below(10) {
                0..=3 if !structs.is_empty() => MKind::Item(Item::Struct(*rng.pick(&structs))),
                4..=5 if !msgs.is_empty() => MKind::Item(Item::Msg(*rng.pick(&msgs))),
                6 => MKind::Str { max_len: None },
                7 if rng.below(10) < k.payload => MKind::Payload,
                _ => MKind::Str { max_len: Some(*rng.pick(LENS)) },
            }
        };
        let f = MField { name: names.next(rng), kind, optional };
        tail = w.field_tail(&f);
        fields.push(f);
    }
    Msg { name, fields }
}

static ODD_NAMES: [&str; 44] = [
    "slice", "offsets", "byte_offset", "data", "out", "input", "size", "len", "value", "buffer", "msg", "start", "end", "discriminant",
    "x", "x_msg", "camelCase", "UPPER", "_under", "a1", "kind", "result", "error", "index", "count", "item", "items", "name", "id", "w",
    "n", "position", "time_of_day", "b2", "raw", "i", "bits", "field", "output", "this", "codec", "t", "x_msg_msg", "v",
];
static TYPE_NAMES: [&str; 30] = [
    "Header", "Packet", "Message", "List", "Array", "Optional", "Error", "Item", "Input", "Offsets", "Value", "Status", "Vec3f", "Kind",
    "lower_case", "UPPER", "FromSlice", "WriteTo", "FixedSize", "Field", "Union", "Data", "Event", "Payload", "Reader", "Codec", "Color", "X1", "Login", "Ping",
];
const CASE_NAMES: [&str; 20] = ["Unknown", "A", "B", "Red", "Green", "lower", "UPPER", "Login", "Logout", "X1", "Item", "Value", "Self_", "Fatal", "Io", "Data", "T", "W", "Message", "Input"];

/// Names that begin alike.
static ALIKE: [&str; 12] = ["kind", "kind2", "kind_", "kin", "kind_of", "kinds", "kind22", "k", "kind_2", "kind_off", "ki", "kinda"];

/// Names that differ in their case only.
static CASED: [&str; 10] = ["kind", "Kind", "KIND", "kIND", "k", "K", "kinD", "KinD", "kiNd", "kInd"];

fn names(rng: &mut Rng, pool: &[&str], n: usize, taken: &mut Vec<String>, near: &[String]) -> Vec<String> {
    let small = n <= 10 && taken.is_empty();
    if small && std::ptr::eq(pool.as_ptr(), ODD_NAMES.as_ptr()) && rng.chance(1, 5) {
        let at = rng.idx(CASED.len());
        return (0..n).map(|k| CASED[(at + k) % CASED.len()].to_string()).collect();
    }
    let pool = if small && rng.chance(2, 5) { &ALIKE[..] } else { pool };
    (0..n).map(|k| loop {
        let base = rng.pick(pool).to_string();
        // A type name that contains another one.
        let near = (std::ptr::eq(pool.as_ptr(), TYPE_NAMES.as_ptr()) && !taken.is_empty() && rng.chance(if near.is_empty() { 1 } else { 2 }, 3)).then(|| {
            let o = if near.is_empty() || rng.chance(1, 4) {
                let o = &taken[rng.idx(taken.len())];
                TYPE_NAMES.iter().find(|n| n.to_lowercase() == *o).map(|n| n.to_string()).unwrap_or(o.clone())
            } else {
                rng.pick(near).clone()
            };
            match rng.below(5) {
                0 => format!("My{}", o),
                1 => format!("{}s", o),
                2 => format!("{}{}", o, rng.pick(&["Ex", "Old", "Inner", "V2"])),
                3 => format!("{}{}", rng.pick(&["Sub", "Re", "Un", "The"]), o),
                _ if !o.starts_with('_') => format!("_{}", o),
                _ => format!("Un{}", o),
            }
        });
        let s = if let Some(n) = near { n } else if rng.chance(1, 3) { format!("{}{}", base, k) } else { base };
        if !taken.contains(&s.to_lowercase()) {
            taken.push(s.to_lowercase());
            break s;
        }
        if taken.len() > pool.len() / 2 {
            let s = format!("{}_{}", s, taken.len());
            taken.push(s.to_lowercase());
            break s;
        }
    }).collect()
}

/// Other names for everything, among them those a generator may use itself.
fn rename(w: &mut World, rng: &mut Rng) {
    let old = w.clone();
    // Protocols.
    let mut pool = ["net", "network", "net2", "cor", "net_cor", "co", "ne", "network_2"];
    for i in (1..pool.len()).rev() {
        pool.swap(i, rng.idx(i + 1));
    }
    for (p, n) in w.protos.iter_mut().zip(pool) {
        p.name = n.into();
    }
    // Variants and the literals that name them.
    for p in &mut w.protos {
        for e in &mut p.enums {
            let n = names(rng, &CASE_NAMES, e.variants.len(), &mut vec![], &[]);
            for (v, n) in e.variants.iter_mut().zip(n) {
                v.0 = n;
            }
        }
    }
    // Fields.
    for p in &mut w.protos {
        for s in &mut p.structs {
            let n = names(rng, &ODD_NAMES, s.fields.len(), &mut vec![], &[]);
            for (f, n) in s.fields.iter_mut().zip(n) {
                f.name = n;
            }
        }
        for m in &mut p.msgs {
            let n = names(rng, &ODD_NAMES, m.fields.len(), &mut vec![], &[]);
            for (f, n) in m.fields.iter_mut().zip(n) {
                // Lists have a type named after the capitalised field.
                let n = if matches!(f.kind, MKind::List { .. }) && CASED.contains(&&n[..]) { format!("list_{}", n) } else { n };
                let n = if n == "offsets" && matches!(f.kind, MKind::List { .. }) { "offset_list".into() } else { n };
                f.name = n;
            }
        }
    }
    // Types; a name is used once in the world.
    let mut taken = Vec::new();
    let mut map: Vec<(usize, String, String)> = Vec::new();
    for (k, p) in w.protos.iter_mut().enumerate() {
        let near: Vec<String> = p.imports.iter().filter_map(|i| map.iter().find(|m| m.0 == i.0 && m.1 == i.1).map(|m| m.2.clone())).collect();
        let mut all: Vec<&mut String> = p.enums.iter_mut().map(|e| &mut e.name).collect();
        all.extend(p.structs.iter_mut().map(|e| &mut e.name));
        all.extend(p.unions.iter_mut().map(|e| &mut e.name));
        all.extend(p.msgs.iter_mut().map(|e| &mut e.name));
        let n = names(rng, &TYPE_NAMES, all.len(), &mut taken, &near);
        for (o, n) in all.into_iter().zip(n) {
            map.push((k, o.clone(), n.clone()));
            *o = n;
        }
    }
    for p in &mut w.protos {
        for i in &mut p.imports {
            if let Some(m) = map.iter().find(|m| m.0 == i.0 && m.1 == i.1) {
                i.1 = m.2.clone();
            }
        }
    }
    // Unions: cases, paths and literals.
    for k in 0..w.protos.len() {
        for u in 0..w.protos[k].unions.len() {
            let was = old.protos[k].unions[u].clone();
            let mut at = was.root;
            let mut path = Vec::new();
            let mut view = None;
            for n in &was.path {
                let i = old.strukt(at).fields.iter().position(|f| f.name == *n).unwrap();
                path.push(w.strukt(at).fields[i].name.clone());
                match &old.strukt(at).fields[i].kind {
                    SKind::Struct(r) => at = *r,
                    SKind::Scalar { view: View::Enum(e), .. } => view = Some(*e),
                    _ => (),
                }
            }
            let n = names(rng, &CASE_NAMES, was.cases.len(), &mut vec![], &[]);
            let lits: Vec<String> = was.cases.iter().map(|c| match view {
                Some(e) => match old.enm(e).variants.iter().position(|v| v.0 == c.lit) {
                    Some(i) => w.enm(e).variants[i].0.clone(),
                    None => c.lit.clone(),
                },
                None => c.lit.clone(),
            }).collect();
            let new = &mut w.protos[k].unions[u];
            new.path = path;
            for ((c, n), l) in new.cases.iter_mut().zip(n).zip(lits) {
                c.name = n;
                c.lit = l;
            }
        }
    }
}
