//! Monitors of structs: layout, accessors, views, arrays.
use crate::glue::*;
use crate::*;
use vir::refm::{get_bits, set_bits, sign};
use vir::{mask, raw_width, Leaf, SKind, Ty, View};

macro_rules! call {
    ($c: expr, $what: expr, $e: expr, $fail: expr) => {
        match guard(|| $e) {
            Ok(v) => v,
            Err(p) => {
                let w = $what;
                $c.viol(format!("{} panicked: {}", w, p));
                $fail
            }
        }
    };
}
pub(crate) use call;

fn name(l: &Leaf) -> String {
    format!("{}@{}+{}{}", l.path.join("."), l.off, l.bits(), if l.big { " big" } else { " little" })
}

fn begin<'a>(c: &mut Ctx, g: &'a StructGlue) -> (TRef, Vec<Leaf>) {
    let w = world();
    let r = tref(g.r);
    c.what = format!("{} struct {}::{}", w.name, w.protos[r.proto].name, w.strukt(r).name);
    let leaves = w.leaves(r);
    assert_eq!(leaves.len(), g.leaves.len());
    c.add("structs", 1);
    (r, leaves)
}

/// Buffers that stress one leaf: random contents, and single bits around the field.
fn buffers(c: &mut Ctx, l: &Leaf, size: usize, n: usize) -> Vec<Vec<u8>> {
    let extra = c.rng.idx(6);
    let mut v = vec![vec![0; size], vec![0xFF; size]];
    for _ in 0..n {
        v.push(c.rng.bytes(size + extra));
    }
    let lo = l.off.saturating_sub(9);
    let hi = (l.off + l.bits() + 9).min(size * 8);
    let step = if c.miri { 7 } else { 1 };
    for p in (lo..hi).step_by(step) {
        for inv in [0u8, 0xFF] {
            let mut b = vec![inv; size];
            b[p / 8] ^= 1 << (p % 8);
            v.push(b);
        }
    }
    v
}

fn rounds(c: &Ctx, quick: usize, thorough: usize) -> usize {
    if c.rounds > 0 {
        c.rounds
    } else if c.tier > 0 {
        thorough
    } else {
        quick
    }
}

pub fn c01(c: &mut Ctx, t: &Tables) {
    let w = world();
    for g in t.structs {
        let (r, leaves) = begin(c, g);
        let size = w.byte_size(r);
        c.check(g.size == size, || format!("declared size {} instead of {}", g.size, size));
        c.check(g.fixed == size, || format!("FixedSize {} instead of {}", g.fixed, size));
        let st = call!(c, "new_on_stack", (g.stack)(), Vec::new());
        c.check(st == vec![0; size], || format!("stack buffer is {} instead of {} zeros", hex(&st), size));
        // Reading a struct out of a longer input takes exactly its bytes.
        for extra in 0..3 {
            let b = c.rng.bytes(size + extra);
            let d = call!(c, "from_slice", (g.decode)(&b), continue);
            c.check(d == Ok((size, b[..size].to_vec())), || format!("from_slice of {} gives {}", hex(&b), short(&d)));
            if size > 0 {
                let cut = c.rng.idx(size);
                let d = call!(c, "from_slice", (g.decode)(&b[..cut]), continue);
                c.check(d == Err(ErrK::Truncated), || format!("from_slice of {} bytes gives {}", cut, short(&d)));
            }
        }
        for (l, lg) in leaves.iter().zip(g.leaves) {
            if let LeafGlue::S { get_raw, get, .. } = lg {
                let (ty, bits, plain) = match &l.kind {
                    SKind::Scalar { ty, bits, view } => (*ty, *bits, matches!(view, View::None)),
                    _ => unreachable!(),
                };
                c.see_u(&[l.off as u64 % 8, bits as u64, l.big as u64, ty as u64, l.path.len() as u64]);
                let n = rounds(c, 6, 60);
                for b in buffers(c, l, size, n) {
                    let want = get_bits(&b, l.off, bits as usize, l.big);
                    let got = call!(c, format!("reading {} of {}", name(l), hex(&b)), get_raw(&b), continue);
                    c.add("reads", 1);
                    c.check(got == want, || format!("field {} of {} reads {:#x} instead of {:#x}", name(l), hex(&b), got, want));
                    if plain && ty == Ty::Unsigned {
                        let got = call!(c, format!("reading {}", name(l)), get(&b), continue);
                        c.check(got == V::U(want), || format!("field {} of {} reads {:?} instead of {:#x}", name(l), hex(&b), got, want));
                    }
                }
            } else if let LeafGlue::A { get, .. } = lg {
                if let SKind::Array { bits, len, ty } = &l.kind {
                    let b = c.rng.bytes(size + 3);
                    for i in 0..*len {
                        let want = get_bits(&b, l.off + i * *bits as usize, *bits as usize, l.big);
                        let want = if *ty == Ty::Bool { (want != 0) as u64 } else { want };
                        let got = call!(c, format!("reading item {} of {}", i, name(l)), get(&b, i), continue) & mask(*bits);
                        c.check(got == want, || format!("item {} of {} in {} reads {:#x} instead of {:#x}", i, name(l), hex(&b), got, want));
                    }
                }
            }
            if c.full() {
                return;
            }
        }
    }
}

/// One write through the API and the same write in the reference.
fn write(c: &mut Ctx, w: &World, l: &Leaf, lg: &LeafGlue, buf: &mut Vec<u8>, model: &mut Vec<u8>) -> Option<String> {
    match (lg, &l.kind) {
        (LeafGlue::S { get_raw, set_raw, get, set }, SKind::Scalar { ty, bits, view }) => {
            let n = *bits;
            let raw = c.rng.bits(n);
            match view {
                View::None if c.rng.chance(1, 2) => {
                    let v = match ty {
                        Ty::Unsigned => V::U(raw),
                        Ty::Signed => V::I(sign(raw, n)),
                        Ty::Bool => V::B(raw & 1 == 1),
                        Ty::Float if n == 32 => V::F32(raw as u32),
                        Ty::Float => V::F64(raw),
                    };
                    let raw = if *ty == Ty::Bool { raw & 1 } else { raw };
                    let d = format!("set {} to {:?}", name(l), v);
                    call!(c, &d, set(buf, v), return None);
                    set_bits(model, l.off, n as usize, l.big, raw);
                    let back = call!(c, &d, get(buf), return None);
                    c.check(back == v, || format!("{} then reads {:?}", d, back));
                    Some(d)
                }
                View::Enum(r) if c.rng.chance(1, 2) => {
                    let vs = &w.enm(*r).variants;
                    let i = c.rng.idx(vs.len());
                    if vs[i].1 > mask(n) {
                        return None;
                    }
                    let d = format!("set {} to variant {} ({})", name(l), vs[i].0, vs[i].1);
                    call!(c, &d, set(buf, V::E(Some(i as u64))), return None);
                    set_bits(model, l.off, n as usize, l.big, vs[i].1);
                    let back = call!(c, &d, get(buf), return None);
                    c.check(back == V::E(Some(i as u64)), || format!("{} then reads {:?}", d, back));
                    Some(d)
                }
                View::Range(a, b) if c.rng.chance(1, 2) => {
                    let v = a + (b - a) * (c.rng.below(1001) as f64 / 1000.0);
                    let d = format!("set {} to {}", name(l), v);
                    call!(c, &d, set(buf, V::F64(v.to_bits())), return None);
                    // Which raw value it takes is another property; nothing else may change.
                    let got = call!(c, &d, get_raw(buf), return None);
                    set_bits(model, l.off, n as usize, l.big, got);
                    Some(d)
                }
                View::Mult(m) if c.rng.chance(1, 2) => {
                    let v = m * raw as f64;
                    let d = format!("set {} to {}", name(l), v);
                    call!(c, &d, set(buf, V::F64(v.to_bits())), return None);
                    let got = call!(c, &d, get_raw(buf), return None);
                    set_bits(model, l.off, n as usize, l.big, got);
                    Some(d)
                }
                _ => {
                    // Excess bits of the raw type are ignored.
                    let v = if c.rng.chance(1, 2) { (raw | c.rng.next() & !mask(n)) & mask(raw_width(n)) } else { raw };
                    let d = format!("set raw {} to {:#x}", name(l), v);
                    call!(c, &d, set_raw(buf, v), return None);
                    set_bits(model, l.off, n as usize, l.big, v & mask(n));
                    let back = call!(c, &d, get_raw(buf), return None);
                    c.check(back == v & mask(n), || format!("{} then reads {:#x}", d, back));
                    Some(d)
                }
            }
        }
        (LeafGlue::A { set, get, .. }, SKind::Array { bits, len, ty }) => {
            let i = c.rng.idx(*len);
            let v = c.rng.bits(*bits);
            let v = if *ty == Ty::Bool { v & 1 } else { v };
            let d = format!("set item {} of {} to {:#x}", i, name(l), v);
            call!(c, &d, set(buf, i, v), return None);
            set_bits(model, l.off + i * *bits as usize, *bits as usize, l.big, v);
            let back = call!(c, &d, get(buf, i), return None) & mask(*bits);
            c.check(back == v, || format!("{} then reads {:#x}", d, back));
            Some(d)
        }
        _ => unreachable!(),
    }
}

pub fn c02(c: &mut Ctx, t: &Tables) {
    let w = world();
    for g in t.structs {
        let (r, leaves) = begin(c, g);
        let size = w.byte_size(r);
        // Single writes on chosen backgrounds.
        for (l, lg) in leaves.iter().zip(g.leaves) {
            c.see_u(&[l.off as u64 % 8, l.bits() as u64, l.big as u64, l.path.len() as u64]);
            for k in 0..rounds(c, 24, 200) {
                let mut buf = match k % 3 {
                    0 => vec![0; size + 2],
                    1 => vec![0xFF; size + 2],
                    _ => c.rng.bytes(size + k % 4),
                };
                let before = buf.clone();
                let mut model = buf.clone();
                if let Some(d) = write(c, w, l, lg, &mut buf, &mut model) {
                    c.add("writes", 1);
                    c.check(buf == model, || format!("{} in {} gives {} instead of {}", d, hex(&before), hex(&buf), hex(&model)));
                }
            }
            if c.full() {
                return;
            }
        }
        if leaves.is_empty() {
            continue;
        }
        // Histories of writes.
        for _ in 0..rounds(c, 6, 60) {
            let mut buf = c.rng.bytes(size + 3);
            let mut model = buf.clone();
            let n = (leaves.len() * 3).min(60);
            let mut hist = Vec::new();
            for _ in 0..n {
                let i = c.rng.idx(leaves.len());
                if let Some(d) = write(c, w, &leaves[i], &g.leaves[i], &mut buf, &mut model) {
                    hist.push(d);
                    c.add("writes", 1);
                }
            }
            c.add("histories", 1);
            c.check(buf == model, || format!("after {:?}: {} instead of {}", hist, hex(&buf), hex(&model)));
            // Copying field by field through the other constructors.
            let mut src = c.rng.bytes(size);
            for l in &leaves {
                // Items of boolean arrays are carried as booleans.
                if let SKind::Array { ty: Ty::Bool, bits, len } = &l.kind {
                    for i in 0..*len {
                        let at = l.off + i * *bits as usize;
                        let v = get_bits(&src, at, *bits as usize, l.big) & 1;
                        set_bits(&mut src, at, *bits as usize, l.big, v);
                    }
                }
            }
            let m = field_mask(r);
            for f in [g.fill, g.fill_via_mut] {
                let mut dst = c.rng.bytes(size + 1);
                let old = dst.clone();
                call!(c, "copying every field", f(&mut dst, &src), continue);
                let want: Vec<u8> = (0..size + 1).map(|i| if i < size { src[i] & m[i] | old[i] & !m[i] } else { old[i] }).collect();
                c.check(dst == want, || format!("copying the fields of {} into {} gives {} instead of {}", hex(&src), hex(&old), hex(&dst), hex(&want)));
            }
        }
    }
}

pub fn c03(c: &mut Ctx, t: &Tables) {
    let w = world();
    for g in t.structs {
        let (r, leaves) = begin(c, g);
        let size = w.byte_size(r);
        for (l, lg) in leaves.iter().zip(g.leaves) {
            for _ in 0..rounds(c, 16, 200) {
                let b = c.rng.bytes(size);
                match (lg, &l.kind) {
                    (LeafGlue::S { get_raw, set_raw, .. }, SKind::Scalar { bits, .. }) => {
                        if l.off % 8 + *bits as usize <= 8 {
                            break;
                        }
                        c.see_u(&[l.off as u64 % 8, *bits as u64, l.big as u64, w.protos[r.proto].big() as u64]);
                        c.add("multibyte_fields", 1);
                        let want = get_bits(&b, l.off, *bits as usize, l.big);
                        let got = call!(c, name(l), get_raw(&b), continue);
                        c.check(got == want, || format!("field {} of {} reads {:#x} instead of {:#x}", name(l), hex(&b), got, want));
                        let v = c.rng.bits(*bits);
                        let mut x = b.clone();
                        let mut y = b.clone();
                        call!(c, name(l), set_raw(&mut x, v), continue);
                        set_bits(&mut y, l.off, *bits as usize, l.big, v);
                        c.check(x == y, || format!("setting {} of {} to {:#x} gives {} instead of {}", name(l), hex(&b), v, hex(&x), hex(&y)));
                    }
                    (LeafGlue::A { get, set, iter, .. }, SKind::Array { bits, len, .. }) => {
                        if *bits <= 8 {
                            break;
                        }
                        c.see_u(&[l.off as u64 % 8, *bits as u64, l.big as u64, 77]);
                        c.add("multibyte_items", *len as u64);
                        let i = c.rng.idx(*len);
                        let at = l.off + i * *bits as usize;
                        let want = get_bits(&b, at, *bits as usize, l.big);
                        let got = call!(c, name(l), get(&b, i), continue) & mask(*bits);
                        c.check(got == want, || format!("item {} of {} in {} reads {:#x} instead of {:#x}", i, name(l), hex(&b), got, want));
                        let got = call!(c, name(l), iter(&b), continue).get(i).map(|v| v & mask(*bits));
                        c.check(got == Some(want), || format!("item {} of {} in {} iterates as {:x?} instead of {:#x}", i, name(l), hex(&b), got, want));
                        let v = c.rng.bits(*bits);
                        let mut x = b.clone();
                        let mut y = b.clone();
                        call!(c, name(l), set(&mut x, i, v), continue);
                        set_bits(&mut y, at, *bits as usize, l.big, v);
                        c.check(x == y, || format!("setting item {} of {} in {} to {:#x} gives {} instead of {}", i, name(l), hex(&b), v, hex(&x), hex(&y)));
                    }
                    _ => unreachable!(),
                }
                if c.full() {
                    return;
                }
            }
        }
    }
}

pub fn c04(c: &mut Ctx, t: &Tables) {
    let w = world();
    for g in t.structs {
        let (r, leaves) = begin(c, g);
        let size = w.byte_size(r);
        for (l, lg) in leaves.iter().zip(g.leaves) {
            let (ty, n, get, set) = match (&l.kind, lg) {
                (SKind::Scalar { ty, bits, view: View::None }, LeafGlue::S { get, set, .. }) => (*ty, *bits, get, set),
                _ => continue,
            };
            if ty == Ty::Unsigned {
                continue;
            }
            c.see_u(&[l.off as u64 % 8, n as u64, l.big as u64, ty as u64]);
            let mut raws: Vec<u64> = Vec::new();
            let exhaustive = if c.miri { 2 } else if c.tier > 0 { 14 } else { 8 };
            if n <= exhaustive {
                raws.extend(0..=mask(n));
                c.add("exhaustive_fields", 1);
            } else {
                let h = 1u64 << (n - 1);
                raws.extend([0, 1, 2, h - 2, h - 1, h, h + 1, mask(n) - 1, mask(n)]);
                for _ in 0..rounds(c, 24, 400) {
                    raws.push(c.rng.bits(n));
                }
                if n == 32 {
                    raws.extend([0x80000000u64, 0x7f800000, 0xff800000, 0x7fc00001, 0x7f800001, 0xffc12345, 1]);
                }
                if n == 64 {
                    raws.extend([0x8000000000000000u64, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 1]);
                }
            }
            for raw in raws {
                let want = match ty {
                    Ty::Signed => V::I(sign(raw, n)),
                    Ty::Bool => V::B(raw != 0),
                    _ if n == 32 => V::F32(raw as u32),
                    _ => V::F64(raw),
                };
                let mut b = c.rng.bytes(size);
                set_bits(&mut b, l.off, n as usize, l.big, raw);
                let got = call!(c, format!("reading {} with bits {:#x}", name(l), raw), get(&b), continue);
                c.add("values", 1);
                c.check(got == want, || format!("{} with bits {:#x} reads {:?} instead of {:?}", name(l), raw, got, want));
                // Writing it on another background.
                let mut x = c.rng.bytes(size);
                let mut y = x.clone();
                let bits = if ty == Ty::Bool { (raw != 0) as u64 } else { raw };
                call!(c, format!("writing {:?} to {}", want, name(l)), set(&mut x, want), continue);
                set_bits(&mut y, l.off, n as usize, l.big, bits);
                let back = call!(c, name(l), get(&x), continue);
                c.check(back == want, || format!("{} set to {:?} reads back {:?}", name(l), want, back));
                c.check(get_bits(&x, l.off, n as usize, l.big) == bits, || format!("{} set to {:?} stores {:#x}", name(l), want, get_bits(&x, l.off, n as usize, l.big)));
                if c.full() {
                    return;
                }
            }
        }
    }
}

pub fn c05(c: &mut Ctx, t: &Tables) {
    let w = world();
    for g in t.structs {
        let (r, leaves) = begin(c, g);
        let size = w.byte_size(r);
        for (l, lg) in leaves.iter().zip(g.leaves) {
            let (n, view, get, set) = match (&l.kind, lg) {
                (SKind::Scalar { bits, view, .. }, LeafGlue::S { get, set, .. }) if matches!(view, View::Range(..) | View::Mult(..)) => (*bits, view.clone(), get, set),
                _ => continue,
            };
            let m = mask(n);
            let (a, b) = match view {
                View::Range(min, max) => ((max - min) / m as f64, min),
                View::Mult(k) => (k, 0.0),
                _ => unreachable!(),
            };
            let (min, max) = (b, a * m as f64 + b);
            // Precision of the type the view is computed in: a float for up to 16 bits and for 32.
            let eps = if n <= 16 || n == 32 { f32::EPSILON as f64 } else { f64::EPSILON };
            let ratio = (min.abs() + max.abs()) / a.abs();
            if ratio * eps > 0.25 && n != 8 && n != 16 && n != 32 {
                c.add("skipped_imprecise", 1);
                continue;
            }
            c.see_u(&[n as u64, l.off as u64 % 8, l.big as u64, min.to_bits(), max.to_bits()]);
            let tol = 8.0 * eps * (min.abs() + max.abs());
            let mut raws: Vec<u64> = vec![0, 1.min(m), m, m - 1.min(m), m / 2];
            if n <= if c.miri { 3 } else if c.tier > 0 { 12 } else { 9 } {
                raws = (0..=m).collect();
                c.add("exhaustive_fields", 1);
            } else {
                for _ in 0..rounds(c, 60, 2000) {
                    raws.push(c.rng.bits(n));
                }
            }
            for raw in raws {
                let mut buf = c.rng.bytes(size);
                set_bits(&mut buf, l.off, n as usize, l.big, raw);
                let got = call!(c, format!("reading {}", name(l)), get(&buf), continue).f();
                let want = raw as f64 * a + b;
                c.add("values", 1);
                c.check((got - want).abs() <= tol, || format!("{} ({:?}) with bits {:#x} reads {} instead of {}", name(l), view, raw, got, want));
                if let View::Range(min, max) = view {
                    if raw == 0 {
                        c.check((got - min).abs() <= tol, || format!("{} reads {} at raw 0", name(l), got));
                    }
                    if raw == m {
                        c.check((got - max).abs() <= tol, || format!("{} reads {} at the largest raw value", name(l), got));
                    }
                }
                if c.full() {
                    return;
                }
            }
            // Writing.
            for k in 0..rounds(c, 80, 3000) {
                let v = match k {
                    0 => min,
                    1 => max,
                    _ => {
                        let raw = c.rng.bits(n) as f64 + match c.rng.below(3) { 0 => 0.0, 1 => 0.5, _ => c.rng.below(1000) as f64 / 1000.0 };
                        (raw * a + b).clamp(min.min(max), max.max(min))
                    }
                };
                // The value as the type of the view carries it.
                let v = if n <= 16 || n == 32 { v as f32 as f64 } else { v };
                let mut x = c.rng.bytes(size + 1);
                let old = x.clone();
                call!(c, format!("writing {} to {}", v, name(l)), set(&mut x, V::F64(v.to_bits())), continue);
                let got = call!(c, name(l), get(&x), continue).f();
                let lim = a.abs() * (1.0 + 8.0 * eps * (ratio + m as f64)) + tol;
                c.add("writes", 1);
                c.check((got - v).abs() <= lim, || format!("{} ({:?}) set to {} reads back {} (step {})", name(l), view, v, got, a));
                let raw = get_bits(&x, l.off, n as usize, l.big);
                let mut y = old.clone();
                set_bits(&mut y, l.off, n as usize, l.big, raw);
                c.check(x == y, || format!("setting {} to {} changes other bits: {} to {}", name(l), v, hex(&old), hex(&x)));
            }
        }
    }
}

pub fn c06(c: &mut Ctx, t: &Tables) {
    let w = world();
    for e in t.enums {
        let r = tref(e.r);
        c.what = format!("{} enum {}::{}", w.name, w.protos[r.proto].name, w.enm(r).name);
        for ((n, v), got) in w.enm(r).variants.iter().zip(e.values) {
            c.check(got == v, || format!("variant {} has value {} instead of {}", n, got, v));
        }
    }
    for g in t.structs {
        let (r, leaves) = begin(c, g);
        let size = w.byte_size(r);
        for (l, lg) in leaves.iter().zip(g.leaves) {
            let (n, e, get, set, get_raw) = match (&l.kind, lg) {
                (SKind::Scalar { bits, view: View::Enum(e), .. }, LeafGlue::S { get, set, get_raw, .. }) => (*bits, *e, get, set, get_raw),
                _ => continue,
            };
            let vs = &w.enm(e).variants;
            c.see_u(&[n as u64, l.off as u64 % 8, l.big as u64, e.proto as u64, e.idx as u64]);
            let mut raws: Vec<u64> = Vec::new();
            if n <= if c.miri { 3 } else { 12 } {
                raws.extend(0..=mask(n));
                c.add("exhaustive_fields", 1);
            } else {
                raws.extend([0, mask(n)]);
                for (_, v) in vs {
                    for d in [0u64, 1, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63] {
                        for x in [v.wrapping_add(d), v.wrapping_sub(d)] {
                            raws.push(x & mask(n));
                        }
                    }
                }
                for _ in 0..rounds(c, 40, 1000) {
                    raws.push(c.rng.bits(n));
                }
            }
            for raw in raws {
                let mut b = c.rng.bytes(size);
                set_bits(&mut b, l.off, n as usize, l.big, raw);
                let want = vs.iter().position(|(_, v)| *v == raw).map(|i| i as u64);
                let got = call!(c, format!("reading {} with bits {:#x}", name(l), raw), get(&b), continue);
                c.add("values", 1);
                c.add(if want.is_some() { "declared" } else { "undeclared" }, 1);
                c.check(got == V::E(want), || format!("{} with bits {:#x} reads variant {:?} instead of {:?} of {:?}", name(l), raw, got, want, vs));
                if c.full() {
                    return;
                }
            }
            for (i, (vn, v)) in vs.iter().enumerate() {
                if *v > mask(n) {
                    continue;
                }
                for _ in 0..rounds(c, 4, 20) {
                    let mut b = c.rng.bytes(size);
                    let mut y = b.clone();
                    call!(c, format!("writing variant {} to {}", vn, name(l)), set(&mut b, V::E(Some(i as u64))), continue);
                    set_bits(&mut y, l.off, n as usize, l.big, *v);
                    c.add("writes", 1);
                    let raw = call!(c, name(l), get_raw(&b), continue);
                    c.check(raw == *v && get_bits(&b, l.off, n as usize, l.big) == *v, || format!("{} set to variant {} stores {:#x} instead of {:#x}", name(l), vn, raw, v));
                    let back = call!(c, name(l), get(&b), continue);
                    c.check(back == V::E(Some(i as u64)), || format!("{} set to variant {} reads back {:?}", name(l), vn, back));
                }
            }
        }
    }
}

pub fn c07(c: &mut Ctx, t: &Tables) {
    let w = world();
    for g in t.structs {
        let (r, leaves) = begin(c, g);
        let size = w.byte_size(r);
        for (l, lg) in leaves.iter().zip(g.leaves) {
            let (ty, n, len) = match &l.kind {
                SKind::Array { ty, bits, len } => (*ty, *bits, *len),
                _ => continue,
            };
            let a = match lg {
                LeafGlue::A { len, get, iter, set, mut_get, mut_len, mut_iter, bytes } => (len, get, iter, set, mut_get, mut_len, mut_iter, bytes),
                _ => unreachable!(),
            };
            c.see_u(&[n as u64, len as u64, l.off as u64, l.big as u64, ty as u64]);
            c.add("arrays", 1);
            let canon = |v: u64| if ty == Ty::Bool { (v != 0) as u64 } else { v };
            for k in 0..rounds(c, 12, 200) / if len > 10_000 { 6 } else { 1 } {
                let mut b = c.rng.bytes(size + k % 3 * 8);
                let at = |b: &[u8], i: usize| canon(get_bits(b, l.off + i * n as usize, n as usize, l.big));
                let want: Vec<u64> = (0..len).map(|i| at(&b, i)).collect();
                let nn = call!(c, name(l), (a.0(&b), a.5(&mut b.clone())), continue);
                c.check(nn == (len, len), || format!("{} has length {:?} instead of {}", name(l), nn, len));
                let it: Vec<u64> = call!(c, format!("iterating {}", name(l)), a.2(&b), continue).into_iter().map(|v| v & mask(n)).collect();
                c.check(it == want, || format!("{} in {} iterates as {:x?} instead of {:x?}", name(l), hex(&b), it, want));
                let it: Vec<u64> = call!(c, format!("iterating {}", name(l)), a.6(&mut b.clone()), continue).into_iter().map(|v| v & mask(n)).collect();
                c.check(it == want, || format!("{} in {} iterates (mutable) as {:x?} instead of {:x?}", name(l), hex(&b), it, want));
                let before = b.clone();
                for i in 0..len {
                    let got = call!(c, format!("item {} of {}", i, name(l)), a.1(&b, i), continue) & mask(n);
                    c.check(got == want[i], || format!("item {} of {} in {} is {:#x} instead of {:#x}", i, name(l), hex(&b), got, want[i]));
                    let got = call!(c, format!("item {} of {}", i, name(l)), a.4(&mut b, i), continue) & mask(n);
                    c.check(got == want[i], || format!("item {} of mutable {} in {} is {:#x} instead of {:#x}", i, name(l), hex(&b), got, want[i]));
                }
                c.check(b == before, || format!("reading the items of mutable {} turns {} into {}", name(l), hex(&before), hex(&b)));
                if let Some((view, view_mut)) = a.7 {
                    let got = call!(c, "byte view", view(&b), continue);
                    c.check(got == b[l.off / 8..l.off / 8 + len], || format!("byte view of {} in {} is {}", name(l), hex(&b), hex(&got)));
                    let i = c.rng.idx(len);
                    let mut x = b.clone();
                    let mut y = b.clone();
                    y[l.off / 8 + i] = 0x5A;
                    call!(c, "mutable byte view", view_mut(&mut x, i, 0x5A), continue);
                    c.check(x == y, || format!("byte {} of {} written through the slice view: {} instead of {}", i, name(l), hex(&x), hex(&y)));
                }
                c.add("items", len as u64);
                // Writes.
                for _ in 0..len.min(8) {
                    let i = c.rng.idx(len);
                    let v = canon(c.rng.bits(n));
                    let mut y = b.clone();
                    set_bits(&mut y, l.off + i * n as usize, n as usize, l.big, v);
                    let before = b.clone();
                    call!(c, format!("setting item {} of {}", i, name(l)), a.3(&mut b, i, v), continue);
                    c.check(b == y, || format!("setting item {} of {} to {:#x} in {} gives {} instead of {}", i, name(l), v, hex(&before), hex(&b), hex(&y)));
                    b = y;
                }
                // Indices past the end, near and far, where index times item size wraps around.
                let isz = n as usize / 8;
                let mut idx = vec![len, len + 1, len + c.rng.idx(20), usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / isz, (usize::MAX / isz).saturating_add(1)];
                idx.push(c.rng.next() as usize | 1 << 63);
                if isz.is_power_of_two() {
                    // Wraps to items that exist.
                    idx.extend((0..len).step_by(1 + len / 1000).map(|i| i.wrapping_add(usize::MAX / isz).wrapping_add(1)).filter(|i| *i >= len));
                } else {
                    let q = (u128::pow(2, 64) / isz as u128) as usize;
                    idx.extend([q + 1, q + 2]);
                }
                for i in idx {
                    if i < len {
                        continue;
                    }
                    c.add("out_of_bounds", 1);
                    let r = guard(|| a.1(&b, i));
                    c.check(r.is_err(), || format!("item {} of the {} items of {} reads {:?}", i, len, name(l), r));
                    let before = b.clone();
                    let r = guard(|| a.3(&mut b, i, 0xA5A5A5A5A5A5A5A5 & mask(n)));
                    c.check(r.is_err(), || format!("item {} of the {} items of {} can be written", i, len, name(l)));
                    c.check(b == before, || format!("writing item {} of the {} items of {} changed {} to {}", i, len, name(l), hex(&before), hex(&b)));
                    b = before;
                }
                if c.full() {
                    return;
                }
            }
        }
    }
}

/// Structs declared in one protocol and used in another are the same struct.
pub fn c23(c: &mut Ctx, t: &Tables) {
    let w = world();
    for g in t.structs {
        let (r, leaves) = begin(c, g);
        let size = w.byte_size(r);
        // Nested structs of other protocols, directly.
        let mut off = 0;
        for f in &w.strukt(r).fields {
            if let SKind::Struct(n) = &f.kind {
                if n.proto != r.proto {
                    let def = t.structs.iter().find(|s| tref(s.r) == *n).expect("struct");
                    let dl = w.leaves(*n);
                    let bytes = off / 8;
                    let nsize = w.byte_size(*n);
                    c.see_u(&[r.proto as u64, r.idx as u64, n.proto as u64, n.idx as u64]);
                    for _ in 0..rounds(c, 20, 200) {
                        // Written through the importing struct, read through the defining one.
                        let mut b = c.rng.bytes(size);
                        for (l, lg) in leaves.iter().zip(g.leaves).filter(|(l, _)| l.path[0] == f.name) {
                            let k = dl.iter().position(|d| d.path[..] == l.path[1..]).expect("leaf");
                            let (a, d) = (lg, &def.leaves[k]);
                            if let (LeafGlue::S { get_raw, set_raw, get, .. }, LeafGlue::S { get_raw: dget, set_raw: dset, get: dv, .. }) = (a, d) {
                                let v = c.rng.bits(l.bits() as u32);
                                call!(c, name(l), set_raw(&mut b, v), continue);
                                let got = call!(c, name(l), dget(&b[bytes..bytes + nsize]), continue);
                                c.check(got == v, || format!("{} set to {:#x} through {} reads {:#x} through {}::{}", name(l), v, w.strukt(r).name, got, w.protos[n.proto].name, w.strukt(*n).name));
                                let v = c.rng.bits(l.bits() as u32);
                                call!(c, name(l), dset(&mut b[bytes..bytes + nsize], v), continue);
                                let got = call!(c, name(l), get_raw(&b), continue);
                                c.check(got == v, || format!("{} set to {:#x} through its own protocol reads {:#x} through {}", name(l), v, got, w.strukt(r).name));
                                let x = call!(c, name(l), (get(&b), dv(&b[bytes..bytes + nsize])), continue);
                                c.check(x.0 == x.1 || matches!(x.0, V::F32(_) | V::F64(_)) && x.0.f().is_nan(), || format!("{} reads {:?} through {} but {:?} through its own protocol", name(l), x.0, w.strukt(r).name, x.1));
                                c.add("cross_accesses", 3);
                            } else if let (LeafGlue::A { set, .. }, LeafGlue::A { get: dget, .. }) = (a, d) {
                                if let SKind::Array { bits, len, ty } = &l.kind {
                                    let i = c.rng.idx(*len);
                                    let v = c.rng.bits(*bits);
                                    let v = if *ty == Ty::Bool { v & 1 } else { v };
                                    call!(c, name(l), set(&mut b, i, v), continue);
                                    let got = call!(c, name(l), dget(&b[bytes..bytes + nsize], i), continue) & mask(*bits);
                                    c.check(got == v, || format!("item {} of {} set to {:#x} reads {:#x} through its own protocol", i, name(l), v, got));
                                    c.add("cross_accesses", 1);
                                }
                            }
                        }
                    }
                }
            }
            off += w.field_bits(f);
        }
        // Views on imported enums.
        for (l, lg) in leaves.iter().zip(g.leaves) {
            if let (SKind::Scalar { bits, view: View::Enum(e), .. }, LeafGlue::S { get, set_raw, .. }) = (&l.kind, lg) {
                if e.proto != r.proto {
                    c.see_u(&[r.proto as u64, r.idx as u64, e.proto as u64, e.idx as u64, 5]);
                    for (i, (_, v)) in w.enm(*e).variants.iter().enumerate() {
                        if *v <= mask(*bits) {
                            let mut b = c.rng.bytes(size);
                            call!(c, name(l), set_raw(&mut b, *v), continue);
                            let got = call!(c, name(l), get(&b), continue);
                            c.check(got == V::E(Some(i as u64)), || format!("{} with bits {:#x} reads {:?}", name(l), v, got));
                            c.add("cross_accesses", 1);
                        }
                    }
                }
            }
        }
        if c.full() {
            return;
        }
    }
}

/// Exercises every accessor on arbitrary contents; the sanitizer or interpreter is the judge.
pub fn touch(c: &mut Ctx, t: &Tables) {
    let w = world();
    for g in t.structs {
        let (r, leaves) = begin(c, g);
        let size = w.byte_size(r);
        for _ in 0..rounds(c, 4, 30) {
            // Exactly sized allocations: one byte too far is an error.
            let mut b = c.rng.bytes(size).into_boxed_slice();
            let src = c.rng.bytes(size).into_boxed_slice();
            let _ = guard(|| (g.stack)());
            let _ = guard(|| (g.decode)(&b));
            for (l, lg) in leaves.iter().zip(g.leaves) {
                c.see_u(&[l.off as u64 % 8, l.bits() as u64, l.big as u64, l.path.len() as u64, r.idx as u64]);
                match (lg, &l.kind) {
                    (LeafGlue::S { get_raw, set_raw, get, set }, SKind::Scalar { ty, bits, view }) => {
                        let _ = guard(|| get_raw(&b));
                        let _ = guard(|| get(&b));
                        let v = c.rng.next();
                        let _ = guard(|| set_raw(&mut b, v));
                        let _ = guard(|| get(&b));
                        let v = match (view, ty) {
                            (View::Enum(e), _) => V::E(Some(c.rng.idx(w.enm(*e).variants.len()) as u64)),
                            (View::Range(..) | View::Mult(..), _) | (_, Ty::Float) => match c.rng.below(4) {
                                0 => V::F64(f64::NAN.to_bits()),
                                1 => V::F64(f64::INFINITY.to_bits()),
                                2 => V::F64((-1e300f64).to_bits()),
                                _ => V::F64(v),
                            },
                            (_, Ty::Signed) => V::I(sign(v, *bits)),
                            (_, Ty::Bool) => V::B(v & 1 == 1),
                            _ => V::U(v),
                        };
                        let _ = guard(|| set(&mut b, v));
                        let _ = guard(|| get(&b));
                        c.add("accesses", 6);
                    }
                    (LeafGlue::A { len, get, iter, set, mut_get, mut_len, mut_iter, bytes }, SKind::Array { len: n, .. }) => {
                        let i = c.rng.idx(*n);
                        let far = c.rng.next() as usize;
                        let v = c.rng.next();
                        let _ = guard(|| (len(&b), iter(&b), mut_iter(&mut b), mut_len(&mut b)));
                        for i in [i, *n, far, usize::MAX] {
                            if i >= *n && !c.dear() {
                                continue;
                            }
                            let _ = guard(|| get(&b, i));
                            let _ = guard(|| set(&mut b, i, v));
                            let _ = guard(|| mut_get(&mut b, i));
                            if let Some((x, y)) = bytes {
                                let _ = guard(|| x(&b));
                                let _ = guard(|| y(&mut b, i, 3));
                            }
                            c.add("accesses", 3);
                        }
                    }
                    _ => unreachable!(),
                }
            }
            let _ = guard(|| (g.fill)(&mut b, &src));
            let _ = guard(|| (g.fill_via_mut)(&mut b, &src));
            // Buffers that are too small.
            if size > 0 {
                let n = c.rng.idx(size);
                let mut s = c.rng.bytes(n).into_boxed_slice();
                for lg in g.leaves {
                    if !c.dear() {
                        continue;
                    }
                    match lg {
                        LeafGlue::S { get_raw, set_raw, get, .. } => {
                            let _ = guard(|| get_raw(&s));
                            let _ = guard(|| get(&s));
                            let _ = guard(|| set_raw(&mut s, 1));
                        }
                        LeafGlue::A { get, set, iter, .. } => {
                            let _ = guard(|| get(&s, 0));
                            let _ = guard(|| iter(&s));
                            let _ = guard(|| set(&mut s, 0, 1));
                        }
                    }
                    c.add("accesses", 3);
                }
                let _ = guard(|| (g.decode)(&s));
                let _ = guard(|| {
                    let mut o = Vec::new();
                    (g.write)(&s, &mut o).is_ok()
                });
            }
        }
    }
}
