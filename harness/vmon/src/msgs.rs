//! Monitors of messages: wire format, round trips, hostile input, offsets, lists, arrays, output.
use crate::glue::*;
use crate::structs::call;
use crate::*;
use std::io::{Error as IoError, ErrorKind, Write};
use vir::refm::{self, decode, encode, gen, gen_item, gen_str, GenOpt};
use vir::{mask, prefix_size, Item, MKind};

fn begin<'a>(c: &mut Ctx, g: &'a MsgGlue) -> TRef {
    let w = world();
    let r = tref(g.r);
    c.what = format!("{} message {}::{}", w.name, w.protos[r.proto].name, w.msg(r).name);
    c.add("messages", 1);
    r
}

fn rounds(c: &Ctx, quick: usize, thorough: usize) -> usize {
    if c.rounds > 0 {
        c.rounds
    } else if c.tier > 0 {
        thorough
    } else {
        quick
    }
}

/// Runs the rounds of every message in turn, so that a time limit cuts all of them alike.
fn each(c: &mut Ctx, t: &Tables, quick: usize, thorough: usize, mut f: impl FnMut(&mut Ctx, &'static MsgGlue, TRef, usize)) {
    let n = rounds(c, quick, thorough);
    for k in 0..n {
        for g in t.msgs {
            let r = begin(c, g);
            f(c, g, r, k);
            free_all();
            NOTES.with(|n| n.borrow_mut().clear());
            if c.full() {
                return;
            }
        }
        c.add("rounds", 1);
        if c.late() {
            return;
        }
    }
}

fn opt(c: &mut Ctx, k: usize) -> GenOpt {
    match k % 5 {
        0 => GenOpt { max_items: 0, max_str: 0 },
        1 => GenOpt { max_items: 1, max_str: 3 },
        2 => GenOpt { max_items: 9, max_str: 40 },
        _ => GenOpt { max_items: 1 + c.rng.idx(5), max_str: c.rng.idx(20) },
    }
}

fn value(c: &mut Ctx, r: TRef, k: usize) -> Val {
    let o = opt(c, k);
    let v = gen(world(), r, &mut c.rng, o);
    // Now and then one with something long in it.
    if k % 12 == 7 && !c.miri {
        let first = c.rng.idx(5) as isize;
        let small = *c.rng.pick(&[255, 256, 257, 300, 1025, 4096, 8193, 9001, 20000]);
        let large = *c.rng.pick(&[32769, 40000, 65535]);
        // As long as the field which comes first allows.
        for (at, len) in [(first, large), (first, small), (0, large), (1, large), (2, small), (0, small)] {
            let mut big = v.clone();
            if len == large && c.rng.chance(1, 3) {
                continue;
            }
            if resize(r, &mut big, &mut at.clone(), len, &mut c.rng, false) && encode(world(), r, &big).bytes.len() < if len == large { 400_000 } else { 100_000 } {
                c.add("long_values", 1);
                if len == large {
                    c.add("very_long_values", 1);
                }
                return big;
            }
        }
    }
    v
}

fn enc(g: &MsgGlue, v: &Val, k: &K) -> Result<Vec<u8>, ErrK> {
    let mut o = Vec::new();
    (g.encode)(v, k, &mut o)?;
    Ok(o)
}

fn kind(c: &mut Ctx, k: usize) -> K {
    let mut b = K::new(c.rng.next());
    if k % 2 == 0 {
        b.fixed = Some(k as u64 / 2 % 4);
    }
    b
}

/// Which shape a value has, for counting what was seen.
fn shape(v: &Val, out: &mut Vec<u8>) {
    match v {
        Val::Bytes(_) => out.push(1),
        Val::Num(_) => out.push(2),
        Val::Str(s) => out.extend([3, (s.len() > 0) as u8]),
        Val::Payload(s) => out.extend([4, (s.len() > 0) as u8]),
        Val::Arr(v) => out.extend([5, v.len().min(3) as u8]),
        Val::List(_, v, e) => {
            out.extend([6, v.len().min(3) as u8, e.is_some() as u8]);
            v.iter().take(3).for_each(|v| shape(v, out));
        }
        Val::Msg(f) => {
            out.push(7);
            f.iter().for_each(|v| shape(v, out));
        }
        Val::Opt(None) => out.push(8),
        Val::Opt(Some(v)) => {
            out.push(9);
            shape(v, out);
        }
        Val::Union(c, v) => {
            out.extend([10, *c as u8]);
            if let Some(v) = v {
                shape(v, out);
            }
        }
    }
}

fn see_val(c: &mut Ctx, r: TRef, tag: u8, v: &Val) {
    let mut s = vec![tag, r.proto as u8, r.idx as u8];
    shape(v, &mut s);
    c.see(&s);
}

fn ek(e: &ErrK) -> u8 {
    match e {
        ErrK::Truncated => 1,
        ErrK::Utf8 => 2,
        ErrK::Disc(_) => 3,
        ErrK::Io(_) => 4,
    }
}

/// Compares a decode of `data` with what the reference says; Some(text) tells how it differs.
fn differs(r: TRef, data: &[u8], want: &Result<refm::Dec, ErrK>, got: &Result<(usize, Val), ErrK>) -> Option<String> {
    let w = world();
    let want_err = match want {
        Err(e) => Some(e),
        Ok(d) => d.val.list_err(),
    };
    match (got, want) {
        (Err(e), _) => match want_err {
            Some(x) if x == e => None,
            Some(x) => Some(format!("input {} fails with {:?} instead of {:?}", hex(data), e, x)),
            None => Some(format!("valid input {} is refused with {:?}", hex(data), e)),
        },
        (Ok((n, v)), Err(e)) => Some(format!("input {} is accepted as {} (size {}) but is malformed: {:?}", hex(data), short(v), n, e)),
        (Ok((n, v)), Ok(d)) => {
            if *n > data.len() {
                return Some(format!("size {} reported for an input of {} bytes {}", n, data.len(), hex(data)));
            }
            if *v != d.val {
                return Some(format!("input {} reads as {} instead of {}", hex(data), short(v), short(&d.val)));
            }
            if *n != d.size && !(w.has_tail(r) && *n == data.len()) {
                return Some(format!("size of {} is reported as {} instead of {}", hex(data), n, d.size));
            }
            None
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SiteK {
    Marker,
    Prefix,
    Str,
    Num,
    Struct,
    Payload,
    /// The struct whose bits select the case of the union at message field `usize`.
    Disc(usize, TRef),
}

#[derive(Clone, Debug)]
pub struct Site {
    pub at: usize,
    pub len: usize,
    pub kind: SiteK,
    pub big: bool,
}

/// Where in an encoding what is found.
pub fn sites(m: TRef, v: &Val, offs: &[Off], base: usize, out: &mut Vec<Site>) {
    let w = world();
    let vals = match v {
        Val::Msg(v) => v,
        _ => return,
    };
    let big = w.protos[m.proto].big();
    for (i, (f, (v, o))) in w.msg(m).fields.iter().zip(vals.iter().zip(offs)).enumerate() {
        let mut at = base + o.start;
        let end = base + o.end;
        let v = match v {
            Val::Opt(x) => {
                out.push(Site { at, len: 1, kind: SiteK::Marker, big });
                at += 1;
                match x {
                    None => continue,
                    Some(x) => &**x,
                }
            }
            v => v,
        };
        for g in &w.msg(m).fields {
            if let MKind::Union { on, r } = &g.kind {
                if *on == i {
                    out.push(Site { at, len: end - at, kind: SiteK::Disc(*on, *r), big });
                }
            }
        }
        match (&f.kind, v) {
            (MKind::Item(Item::Struct(s)), Val::Num(_)) => out.push(Site { at, len: end - at, kind: SiteK::Num, big: w.protos[s.proto].big() }),
            (MKind::Item(Item::Struct(_)), _) => out.push(Site { at, len: end - at, kind: SiteK::Struct, big }),
            (MKind::Item(Item::Msg(n)), v) => {
                if let Sub::Present(s) = &o.sub {
                    sites(*n, v, s, at, out);
                }
            }
            (MKind::Str { max_len: None }, _) => out.push(Site { at, len: end - at - 1, kind: SiteK::Str, big }),
            (MKind::Str { max_len: Some(n) }, _) => {
                let p = prefix_size(*n);
                out.push(Site { at, len: p, kind: SiteK::Prefix, big });
                out.push(Site { at: at + p, len: end - at - p, kind: SiteK::Str, big });
            }
            (MKind::Payload, _) => out.push(Site { at, len: end - at, kind: SiteK::Payload, big }),
            (MKind::List { max_len, item }, v) => {
                let p = prefix_size(*max_len);
                out.push(Site { at, len: p, kind: SiteK::Prefix, big });
                let mut pos = at + p;
                if let (Item::Msg(n), Val::List(_, vs, _), Sub::Items(offs)) = (item, v, &o.sub) {
                    for (v, o) in vs.iter().zip(offs) {
                        sites(*n, v, o, pos, out);
                        pos += o.last().map(|o| o.end).unwrap_or(0);
                    }
                }
            }
            (MKind::Union { r, .. }, Val::Union(k, Some(v))) => match w.union(*r).cases[*k].item {
                Some(Item::Msg(n)) => {
                    let e = encode(w, n, v);
                    sites(n, v, &e.offs, at, out);
                }
                _ => out.push(Site { at, len: end - at, kind: SiteK::Struct, big }),
            },
            _ => (),
        }
    }
}

fn sites_of(r: TRef, v: &Val, e: &refm::Enc) -> Vec<Site> {
    let mut s = Vec::new();
    sites(r, v, &e.offs, 0, &mut s);
    s
}

pub fn c03(c: &mut Ctx, t: &Tables) {
    let w = world();
    each(c, t, 12, 150, |c, g, r, k| {
        let v = value(c, r, k + 2);
        let e = encode(w, r, &v);
        let ss: Vec<Site> = sites_of(r, &v, &e).into_iter().filter(|s| matches!(s.kind, SiteK::Prefix | SiteK::Num) && s.len > 1).collect();
        if ss.is_empty() {
            return;
        }
        let b = kind(c, k);
        let got = call!(c, "writing", enc(g, &v, &b), return);
        c.add("encodes", 1);
        if let Ok(got) = &got {
            if got.len() == e.bytes.len() {
                for s in &ss {
                    let x = &got[s.at..s.at + s.len];
                    let y = &e.bytes[s.at..s.at + s.len];
                    c.add("multi_byte_values", 1);
                    c.see_u(&[1, s.len as u64, s.big as u64, (s.kind == SiteK::Num) as u64, r.proto as u64, r.idx as u64]);
                    c.check(x == y, || format!("{:?} of {} bytes ({} endian) at {} of {} is written as {} instead of {}", s.kind, s.len, if s.big { "big" } else { "little" }, s.at, short(&v), hex(x), hex(y)));
                }
            }
        }
        // Reading: numbers come back as the declared order says.
        let got = call!(c, "reading", (g.decode)(&e.bytes), return);
        let d = differs(r, &e.bytes, &decode(w, r, &e.bytes, true), &got);
        c.check(d.is_none(), || d.unwrap());
    });
}

pub fn c08(c: &mut Ctx, t: &Tables) {
    let w = world();
    each(c, t, 20, 400, |c, g, r, k| {
        let v = value(c, r, k);
        see_val(c, r, 0, &v);
        c.add("values", v.weight());
        let seed = c.rng.next();
        let mut kk = K::new(seed);
        if k % 2 == 0 {
            kk.fixed = Some(k as u64 / 2 % 4);
        }
        let bytes = match call!(c, format!("writing {}", short(&v)), enc(g, &v, &kk), return) {
            Ok(b) => b,
            Err(e) => return c.viol(format!("{} cannot be written: {:?}", short(&v), e)),
        };
        c.add("round_trips", 1);
        let n = call!(c, "size_of", (g.size_of)(&v, &kk), return);
        c.check(n == Ok(bytes.len()), || format!("size_of {} is {:?} but {} bytes are written", short(&v), n, bytes.len()));
        match call!(c, format!("reading {}", hex(&bytes)), (g.decode)(&bytes), return) {
            Err(e) => c.viol(format!("{} written as {} cannot be read: {:?}", short(&v), hex(&bytes), e)),
            Ok((n, got)) => {
                c.check(got == v, || format!("{} written as {} reads back as {}", short(&v), hex(&bytes), short(&got)));
                c.check(n == bytes.len(), || format!("{} takes {} bytes but its size is reported as {}", short(&v), bytes.len(), n));
            }
        }
        let mut again = Vec::new();
        let res = call!(c, "writing what was read", (g.recode)(&bytes, &mut again), return);
        c.check(res == Ok(()) && again == bytes, || format!("{} read and written again gives {:?} {}", hex(&bytes), res, hex(&again)));
        if !w.has_tail(r) && k % 3 == 0 {
            let extra = c.rng.idx(9) + 1;
            let mut b2 = bytes.clone();
            b2.extend(c.rng.bytes(extra));
            let got = call!(c, "reading", (g.decode)(&b2), return);
            c.check(got == Ok((bytes.len(), v.clone())), || format!("{} followed by {} bytes reads as {}", hex(&bytes), extra, short(&got)));
        }
    });
}

/// Replaces strings and lists somewhere in a value by ones of a given length; counts the places.
fn resize(m: TRef, v: &mut Val, at: &mut isize, len: usize, rng: &mut vir::Rng, over: bool) -> bool {
    let w = world();
    let vals = match v {
        Val::Msg(v) => v,
        _ => return false,
    };
    for (f, v) in w.msg(m).fields.iter().zip(vals) {
        let (v, was_opt) = match v {
            Val::Opt(None) => continue,
            Val::Opt(Some(v)) => (&mut **v, true),
            v => (v, false),
        };
        let _ = was_opt;
        match (&f.kind, v) {
            (MKind::Str { max_len }, Val::Str(s)) => {
                *at -= 1;
                if *at < 0 {
                    let cap = max_len.unwrap_or(u64::MAX);
                    if !over && len as u64 > cap || over && (len as u64) <= mask(prefix_size(cap) as u32 * 8) {
                        return false;
                    }
                    let mut n = gen_str(rng, 30.min(len), max_len.is_some());
                    while n.len() < len {
                        n.push((b'a' + n.len() as u8 % 26) as char);
                    }
                    *s = n;
                    return true;
                }
            }
            (MKind::Payload, Val::Payload(p)) if !over => {
                *at -= 1;
                if *at < 0 {
                    *p = rng.bytes(len);
                    return true;
                }
            }
            (MKind::List { max_len, item: Item::Struct(i) }, Val::Arr(a)) => {
                *at -= 1;
                if *at < 0 {
                    let size = w.byte_size(*i);
                    if !over && len as u64 > *max_len || over && (len as u64) <= mask(prefix_size(*max_len) as u32 * 8) || size * len > 3_000_000 {
                        return false;
                    }
                    *a = (0..len).map(|_| rng.bytes(size)).collect();
                    return true;
                }
            }
            (MKind::List { max_len, item: Item::Msg(i) }, Val::List(n, vs, _)) => {
                *at -= 1;
                if *at < 0 {
                    if !over && len as u64 > *max_len || over && (len as u64) <= mask(prefix_size(*max_len) as u32 * 8) {
                        return false;
                    }
                    let one = gen(w, *i, rng, GenOpt { max_items: 0, max_str: 0 });
                    if encode(w, *i, &one).bytes.len() * len > 3_000_000 {
                        return false;
                    }
                    *vs = vec![one; len];
                    for _ in 0..3.min(len) {
                        let k = rng.idx(len);
                        vs[k] = gen(w, *i, rng, GenOpt { max_items: 1, max_str: 3 });
                    }
                    *n = len;
                    return true;
                }
                for v in vs {
                    if resize(*i, v, at, len, rng, over) {
                        return true;
                    }
                    if *at < 0 {
                        return false;
                    }
                }
            }
            (MKind::Item(Item::Msg(i)), v) => {
                if resize(*i, v, at, len, rng, over) {
                    return true;
                }
            }
            (MKind::Union { r, .. }, Val::Union(k, Some(v))) => {
                if let Some(Item::Msg(i)) = w.union(*r).cases[*k].item {
                    if resize(i, v, at, len, rng, over) {
                        return true;
                    }
                }
            }
            _ => (),
        }
        if *at < 0 {
            return false;
        }
    }
    false
}

const BOUNDS: &[usize] = &[254, 255, 256, 257, 65535, 65536, 65537, 1, 0];

pub fn c09(c: &mut Ctx, t: &Tables) {
    let w = world();
    each(c, t, 20, 400, |c, g, r, k| {
        let mut v = value(c, r, k + 2);
        if k % 3 == 2 && !c.miri {
            // Lengths around the capacity of length prefixes.
            let len = BOUNDS[c.rng.idx(if k % 2 == 0 { 4 } else { BOUNDS.len() })];
            let mut at = c.rng.idx(4) as isize;
            if resize(r, &mut v, &mut at, len, &mut c.rng, false) {
                c.add("boundary_lengths", 1);
                c.see_u(&[77, len as u64, r.proto as u64, r.idx as u64]);
            }
        }
        let e = encode(w, r, &v);
        see_val(c, r, 0, &v);
        let kk = kind(c, k);
        match call!(c, format!("writing {}", short(&v)), enc(g, &v, &kk), return) {
            Err(x) => return c.viol(format!("{} cannot be written: {:?}", short(&v), x)),
            Ok(b) => {
                c.add("encodes", 1);
                c.add("bytes", b.len() as u64);
                c.check(b == e.bytes, || format!("{} is written as {} instead of {}", short(&v), hex(&b), hex(&e.bytes)));
            }
        }
        let got = call!(c, "reading", (g.decode)(&e.bytes), return);
        let d = differs(r, &e.bytes, &decode(w, r, &e.bytes, true), &got);
        c.check(d.is_none(), || d.unwrap());
        c.add("decodes", 1);
        // Any non-zero marker means present.
        let ss = sites_of(r, &v, &e);
        let marks: Vec<&Site> = ss.iter().filter(|s| s.kind == SiteK::Marker && e.bytes[s.at] == 1).collect();
        if !marks.is_empty() {
            let mut b = e.bytes.clone();
            for m in marks {
                b[m.at] = *c.rng.pick(&[1, 2, 3, 4, 8, 16, 32, 64, 127, 128, 254, 255]);
            }
            let got = call!(c, "reading", (g.decode)(&b), return);
            c.check(got == Ok((e.bytes.len(), v.clone())), || format!("{} with other presence markers reads as {} instead of {}", hex(&b), short(&got), short(&v)));
            c.add("marker_variants", 1);
        }
    });
}

/// Hostile variations of a valid encoding.
fn mutate(c: &mut Ctx, b: &mut Vec<u8>, ss: &[Site]) -> u64 {
    let kind = c.rng.below(12);
    match kind {
        0 => {
            let n = c.rng.idx(b.len() + 1);
            b.truncate(n);
        }
        1 => {
            let n = c.rng.idx(20) + 1;
            let x = c.rng.bytes(n);
            b.extend(x);
        }
        2 | 3 if !b.is_empty() => {
            let i = c.rng.idx(b.len());
            b[i] ^= 1 << c.rng.idx(8);
        }
        4 if !b.is_empty() => {
            let i = c.rng.idx(b.len());
            b.remove(i);
        }
        5 => {
            let i = c.rng.idx(b.len() + 1);
            b.insert(i, c.rng.next() as u8);
        }
        6 if !b.is_empty() => {
            for _ in 0..c.rng.idx(6) + 1 {
                let i = c.rng.idx(b.len());
                b[i] = *c.rng.pick(&[0, 1, 2, 0x7F, 0x80, 0xC0, 0xE0, 0xF0, 0xFF]);
            }
        }
        _ => {
            let p: Vec<&Site> = ss.iter().filter(|s| s.kind == SiteK::Prefix && s.at + s.len <= b.len()).collect();
            if p.is_empty() {
                return 99;
            }
            let s = (*c.rng.pick(&p)).clone();
            let cur = refm::num(&b[s.at..], s.len, s.big);
            let n = match c.rng.below(10) {
                0 => u64::MAX,
                1 => u64::MAX / 2 + c.rng.below(4),
                2 => 1 << (8 * s.len - 1),
                3 => cur.wrapping_add(1),
                4 => cur.wrapping_sub(1),
                5 => b.len() as u64,
                6 => (b.len() - s.at - s.len) as u64,
                7 => (u64::MAX / (c.rng.below(24) + 1)).wrapping_add(c.rng.below(3)),
                8 => u64::MAX - c.rng.below(20),
                _ => c.rng.bits(8 * s.len as u32),
            } & mask(s.len as u32 * 8);
            let mut x = Vec::new();
            refm::put(&mut x, n, s.len, s.big);
            b[s.at..s.at + s.len].copy_from_slice(&x);
        }
    }
    kind
}

fn hostile(c: &mut Ctx, r: TRef, k: usize) -> (Vec<u8>, u64) {
    let w = world();
    if k % 4 == 3 {
        let n = c.rng.idx(w.min_size(r) * 2 + 24);
        let style = c.rng.below(3);
        let b = (0..n).map(|_| match style {
            0 => c.rng.next() as u8,
            1 => c.rng.below(3) as u8,
            _ => *c.rng.pick(&[0u8, 1, 2, 3, 0xFF, b'a', 0xC3, 0xA9]),
        }).collect();
        return (b, 50 + style);
    }
    let v = value(c, r, k + 1);
    let e = encode(w, r, &v);
    let ss = sites_of(r, &v, &e);
    let mut b = e.bytes;
    let mut tag = 0;
    // Some long ones stay as they are.
    let least = (b.len() < 250 || c.rng.chance(1, 2)) as usize;
    for _ in 0..c.rng.idx(3) + least {
        tag = tag * 13 + mutate(c, &mut b, &ss);
    }
    (b, tag)
}

pub fn c10(c: &mut Ctx, t: &Tables) {
    let w = world();
    each(c, t, 80, 2000, |c, g, r, k| {
        let (b, tag) = hostile(c, r, k);
        let want = decode(w, r, &b, true);
        let verdict = match &want {
            Err(e) => ek(e),
            Ok(d) => d.val.list_err().map(|e| ek(e) + 10).unwrap_or(0),
        };
        c.add(match verdict {
            0 => "accepted",
            1 => "truncated",
            2 => "bad_utf8",
            3 => "bad_discriminant",
            _ => "bad_list_item",
        }, 1);
        c.see_u(&[r.proto as u64, r.idx as u64, verdict as u64, tag]);
        // An exactly sized allocation.
        let data = b.clone().into_boxed_slice();
        c.add("inputs", 1);
        let got = call!(c, format!("decoding {}", hex(&b)), (g.decode)(&data), return);
        let d = differs(r, &b, &want, &got);
        c.check(d.is_none(), || d.unwrap());
        let got = call!(c, format!("decoding {} with offsets", hex(&b)), (g.decode_off)(&data), return);
        let d = differs(r, &b, &want, &got.map(|(n, v, _)| (n, v)));
        c.check(d.is_none(), || format!("with offsets: {}", d.unwrap()));
        c.notes(&["C14"], || format!("input {}", hex(&b)));
    });
}

pub fn c11(c: &mut Ctx, t: &Tables) {
    let w = world();
    each(c, t, 12, 200, |c, g, r, k| {
        let v = value(c, r, k + 2);
        let e = encode(w, r, &v);
        let b = &e.bytes;
        see_val(c, r, 0, &v);
        let trunc = |x: &Result<(usize, Val), ErrK>| match x {
            Err(e) => *e == ErrK::Truncated,
            Ok((_, v)) => v.list_err() == Some(&ErrK::Truncated),
        };
        if !w.has_payload(r) {
            let cuts: Vec<usize> = if b.len() <= 200 { (0..b.len()).collect() } else { (0..200).map(|_| c.rng.idx(b.len())).collect() };
            for n in cuts {
                let data = b[..n].to_vec().into_boxed_slice();
                let got = call!(c, format!("decoding {}", hex(&data)), (g.decode)(&data), return);
                c.add("prefixes", 1);
                c.check(trunc(&got), || format!("the first {} of {} bytes {} read as {}", n, b.len(), hex(b), short(&got)));
                let got = call!(c, format!("decoding {} with offsets", hex(&data)), (g.decode_off)(&data), return).map(|(n, v, _)| (n, v));
                c.check(trunc(&got), || format!("the first {} of {} bytes {} read with offsets as {}", n, b.len(), hex(b), short(&got)));
                if c.full() {
                    return;
                }
            }
        }
        let ss = sites_of(r, &v, &e);
        let is = |x: &Result<(usize, Val), ErrK>, e: &ErrK| match x {
            Err(x) => x == e,
            Ok((_, v)) => v.list_err() == Some(e),
        };
        for s in &ss {
            match s.kind {
                SiteK::Str if s.len > 0 => {
                    let bad: &[u8] = match c.rng.below(9) {
                        0 => &[0xFF],
                        1 => &[0x80],
                        2 => &[0xC3],
                        3 => &[0xC0, 0xAF],
                        4 => &[0xED, 0xA0, 0x80],
                        5 => &[0xF4, 0x90, 0x80, 0x80],
                        6 => &[0xE0, 0x80, 0x80],
                        7 => &[0xF0, 0x82, 0x82, 0xAC],
                        _ => &[0xE2, 0x82],
                    };
                    let mut x = b.clone();
                    // Whole characters before, nothing after: exactly one thing is wrong.
                    let text = &b[s.at..s.at + s.len];
                    if bad.len() > s.len {
                        continue;
                    }
                    let pos = c.rng.idx(s.len - bad.len() + 1);
                    for (i, q) in x[s.at..s.at + s.len].iter_mut().enumerate() {
                        *q = if i >= pos && i < pos + bad.len() { bad[i - pos] } else { b'k' };
                    }
                    let _ = text;
                    let got = call!(c, format!("decoding {}", hex(&x)), (g.decode)(&x), return);
                    c.add("bad_strings", 1);
                    c.see_u(&[2, bad[0] as u64, r.proto as u64, r.idx as u64]);
                    c.check(is(&got, &ErrK::Utf8), || format!("a string containing {} in {} is reported as {}", hex(bad), hex(&x), short(&got)));
                    let got = call!(c, "decoding with offsets", (g.decode_off)(&x), return).map(|(n, v, _)| (n, v));
                    c.check(is(&got, &ErrK::Utf8), || format!("with offsets, a string containing {} in {} is reported as {}", hex(bad), hex(&x), short(&got)));
                }
                SiteK::Disc(_, u) => {
                    let l = w.disc_leaf(u);
                    let n = l.bits() as u32;
                    let cases = &w.union(u).cases;
                    for _ in 0..3 {
                        let raw = if c.rng.chance(1, 2) { c.rng.bits(n) } else { c.rng.pick(cases).raw ^ 1 << c.rng.below(n as u64) };
                        if cases.iter().any(|k| k.raw == raw) {
                            continue;
                        }
                        let mut x = b.clone();
                        refm::set_bits(&mut x[s.at..s.at + s.len], l.off, n as usize, l.big, raw);
                        let got = call!(c, format!("decoding {}", hex(&x)), (g.decode)(&x), return);
                        c.add("bad_discriminants", 1);
                        c.check(is(&got, &ErrK::Disc(raw)), || format!("discriminant {:#x} in {} is reported as {}", raw, hex(&x), short(&got)));
                    }
                }
                _ => (),
            }
        }
        if !w.has_payload(r) {
            for extra in [1, c.rng.idx(30) + 2] {
                let mut x = b.clone();
                x.extend(c.rng.bytes(extra));
                let got = call!(c, format!("decoding {}", hex(&x)), (g.decode)(&x), return);
                let ok = match &got {
                    Ok((n, got)) => *got == v && (*n == b.len() || w.has_tail(r) && *n == x.len()),
                    _ => false,
                };
                c.add("trailing", 1);
                c.check(ok, || format!("{} followed by {} bytes reads as {} instead of {} with size {}", hex(b), extra, short(&got), short(&v), b.len()));
            }
        }
    });
}

/// Ranges start at 0, are contiguous and end at `end`.
fn tiles(m: TRef, offs: &[Off], vals: &Val, end: usize, exact: bool) -> Option<String> {
    let w = world();
    let mut at = 0;
    let vals = match vals {
        Val::Msg(v) => v,
        _ => return None,
    };
    for ((f, o), v) in w.msg(m).fields.iter().zip(offs).zip(vals) {
        if o.start != at || o.end < o.start {
            return Some(format!("range {}..{} of {} does not continue at {}", o.start, o.end, f.name, at));
        }
        at = o.end;
        let head = matches!(v, Val::Opt(_)) as usize;
        let inner = match v {
            Val::Opt(Some(v)) => Some(&**v),
            Val::Opt(None) => None,
            v => Some(v),
        };
        match (&f.kind, &o.sub, inner) {
            (MKind::Item(Item::Msg(n)), Sub::Present(s), Some(v)) => {
                if let Some(e) = tiles(*n, s, v, o.end - o.start - head, exact) {
                    return Some(format!("{} in {}", e, f.name));
                }
            }
            (MKind::Item(Item::Msg(_)), Sub::Absent, None) => (),
            (MKind::Item(Item::Msg(_)), s, v) => return Some(format!("nested message {} has offsets {} but its value is {}", f.name, short(s), short(&v))),
            (MKind::List { item: Item::Msg(n), .. }, Sub::Items(s), Some(Val::List(_, vs, _))) => {
                for (s, v) in s.iter().zip(vs) {
                    if let Some(e) = tiles(*n, s, v, s.last().map(|o| o.end).unwrap_or(0), exact) {
                        return Some(format!("{} in an item of {}", e, f.name));
                    }
                }
            }
            _ => (),
        }
    }
    if at != end {
        return Some(format!("ranges end at {} but the size is {}", at, end));
    }
    None
}

pub fn c12(c: &mut Ctx, t: &Tables) {
    let w = world();
    each(c, t, 40, 800, |c, g, r, k| {
        let b = if k % 2 == 0 {
            let v = value(c, r, k / 2 + 2);
            let e = encode(w, r, &v);
            see_val(c, r, 0, &v);
            // Ranges of a valid message, alone and followed by other bytes.
            let got = call!(c, format!("decoding {} with offsets", hex(&e.bytes)), (g.decode_off)(&e.bytes), return);
            match &got {
                Err(x) => c.viol(format!("valid {} is refused with offsets: {:?}", hex(&e.bytes), x)),
                Ok((_, gv, o)) => {
                    c.check(*gv == v, || format!("{} reads with offsets as {} instead of {}", hex(&e.bytes), short(gv), short(&v)));
                    c.check(*o == e.offs, || format!("fields of {} are located at {} instead of {}", hex(&e.bytes), short(o), short(&e.offs)));
                    c.add("ranges", o.len() as u64);
                }
            }
            c.notes(&["C12"], || format!("input {}", hex(&e.bytes)));
            if !w.has_tail(r) {
                let mut x = e.bytes.clone();
                let n = c.rng.idx(12) + 1;
                x.extend(c.rng.bytes(n));
                let got = call!(c, "decoding with offsets", (g.decode_off)(&x), return);
                c.check(matches!(&got, Ok((n, _, o)) if *n == e.bytes.len() && *o == e.offs), || format!("{} followed by {} bytes: fields located at {} instead of {}", hex(&e.bytes), n, short(&got), short(&e.offs)));
            }
            e.bytes
        } else {
            hostile(c, r, k).0
        };
        let plain = call!(c, "decoding", (g.decode)(&b), return);
        let offs = call!(c, "decoding with offsets", (g.decode_off)(&b), return);
        c.add("inputs", 1);
        c.see_u(&[9, r.proto as u64, r.idx as u64, plain.is_ok() as u64, k as u64 % 4]);
        match (&plain, &offs) {
            (Ok((n, v)), Ok((m, u, o))) => {
                c.check(n == m && v == u, || format!("{} reads as {} (size {}), but with offsets as {} (size {})", hex(&b), short(v), n, short(u), m));
                if v.list_err().is_none() {
                    let e = tiles(r, o, u, *m, true);
                    c.check(e.is_none(), || format!("{} for {}", e.unwrap(), hex(&b)));
                }
            }
            (Err(a), Err(b2)) => {
                c.check(a == b2, || format!("{} fails with {:?}, but with offsets with {:?}", hex(&b), a, b2));
            }
            _ => {
                // Where a list of messages is read lazily in one and at once in the other.
                let ea = plain.as_ref().err().or(plain.as_ref().ok().and_then(|p| p.1.list_err()));
                let eb = offs.as_ref().err().or(offs.as_ref().ok().and_then(|p| p.1.list_err()));
                c.check(false, || format!("{} gives {:?} plainly, {:?} with offsets", hex(&b), ea, eb));
            }
        }
        c.notes(&["C12"], || format!("input {}", hex(&b)));
    });
}

fn has_list(m: TRef) -> bool {
    let w = world();
    w.msg(m).fields.iter().any(|f| match &f.kind {
        MKind::List { item: Item::Msg(_), .. } => true,
        MKind::Item(Item::Msg(n)) => has_list(*n),
        MKind::Union { r, .. } => w.union(*r).cases.iter().any(|k| matches!(k.item, Some(Item::Msg(n)) if has_list(n))),
        _ => false,
    })
}

pub fn c14(c: &mut Ctx, t: &Tables) {
    let w = world();
    each(c, t, 24, 400, |c, g, r, k| {
        if !has_list(r) {
            return;
        }
        let o = GenOpt { max_items: [3, 6, 12, 40][k % 4], max_str: 6 };
        let mut v = gen(w, r, &mut c.rng, o);
        // Long lists, once in a while.
        let long = k % 24 == 7 && !c.miri && lengthen(c, r, &mut v);
        see_val(c, r, 0, &v);
        let e = encode(w, r, &v);
        let mut kk = kind(c, k);
        if long {
            kk.fixed = Some(1);
            c.add("long_lists", 1);
        }
        kk.spoils = k % 2 == 0 && !c.miri;
        let bytes = call!(c, format!("writing {}", short(&v)), enc(g, &v, &kk), return);
        c.add("lists_built", kk.lens.get());
        c.add("refused_items", kk.refusals.get());
        c.notes(&["C14", "C17"], || format!("building {}", short(&v)));
        match &bytes {
            Err(x) => return c.viol(format!("{} cannot be written: {:?}", short(&v), x)),
            Ok(b) => {
                let got = call!(c, "reading", (g.decode)(b), return);
                c.check(matches!(&got, Ok((_, x)) if *x == v), || format!("{} written as {} reads back as {}", short(&v), hex(b), short(&got)));
                let got = call!(c, "reading with offsets", (g.decode_off)(b), return);
                c.check(matches!(&got, Ok((_, x, _)) if *x == v), || format!("{} written as {} reads back with offsets as {}", short(&v), hex(b), short(&got)));
                c.notes(&["C14"], || format!("iterating {}", short(&v)));
                c.add("lists_read", 2);
            }
        }
        // Damaged lists: the intact leading items, then an error, then nothing.
        let ss = sites_of(r, &v, &e);
        for _ in 0..rounds(c, 6, 12) {
            let mut b = e.bytes.clone();
            if b.is_empty() {
                break;
            }
            if c.rng.chance(1, 2) {
                let n = c.rng.idx(b.len());
                b.truncate(n);
            } else {
                mutate(c, &mut b, &ss);
            }
            let want = decode(w, r, &b, true);
            let got = call!(c, format!("reading {}", hex(&b)), (g.decode)(&b), return);
            let off = call!(c, format!("reading {} with offsets", hex(&b)), (g.decode_off)(&b), return).map(|(n, v, _)| (n, v));
            c.add("damaged_lists", 1);
            c.see_u(&[3, r.proto as u64, r.idx as u64, want.as_ref().ok().and_then(|d| d.val.list_err()).map(|e| ek(e) as u64).unwrap_or(9)]);
            c.notes(&["C14"], || format!("iterating {}", hex(&b)));
            for got in [got, off] {
                if let (Ok((_, x)), Ok(d)) = (&got, &want) {
                    c.check(*x == d.val, || format!("{} reads as {} instead of {}", hex(&b), short(x), short(&d.val)));
                } else if let (Ok((_, x)), Err(e)) = (&got, &want) {
                    c.check(false, || format!("{} reads as {} but fails: {:?}", hex(&b), short(x), e));
                } else if let (Err(e), Ok(d)) = (&got, &want) {
                    c.check(d.val.list_err() == Some(e), || format!("{} is refused with {:?}, its lists are {}", hex(&b), e, short(&d.val)));
                }
            }
        }
    });
}

/// Repeats the items of a list until there are many.
fn lengthen(c: &mut Ctx, r: TRef, v: &mut Val) -> bool {
    let w = world();
    let lists: Vec<(usize, usize)> = w.msg(r).fields.iter().enumerate().filter_map(|(n, f)| match &f.kind {
        MKind::List { max_len, .. } => Some((n, prefix_size(*max_len))),
        _ => None,
    }).collect();
    if lists.is_empty() {
        return false;
    }
    let (n, p) = *c.rng.pick(&lists);
    let max = (mask(8 * p as u32) as usize).min(*c.rng.pick(&[280, 600, 1100, 2500, 4500, 9000, 33000, 66000]));
    let fs = match v {
        Val::Msg(fs) => fs,
        _ => return false,
    };
    let list = match &mut fs[n] {
        Val::Opt(Some(l)) => &mut **l,
        l => l,
    };
    match list {
        Val::List(len, items, None) if !items.is_empty() => {
            let size: usize = items.iter().map(weight).sum();
            let max = max.min(400_000 * items.len() / size.max(1));
            while items.len() < max {
                let x = items[c.rng.idx(items.len().min(40))].clone();
                items.push(x);
            }
            *len = items.len();
        }
        Val::Arr(items) if !items.is_empty() => {
            let max = max.min(400_000 / items[0].len().max(1));
            while items.len() < max {
                let mut x = items[0].clone();
                x[0] ^= items.len() as u8;
                items.push(x);
            }
        }
        _ => return false,
    }
    true
}

/// About how much memory a value takes.
fn weight(v: &Val) -> usize {
    8 + match v {
        Val::Bytes(b) | Val::Payload(b) => b.len(),
        Val::Str(s) => s.len(),
        Val::Arr(a) => a.iter().map(|v| v.len()).sum(),
        Val::List(_, l, _) | Val::Msg(l) => l.iter().map(weight).sum(),
        Val::Opt(Some(v)) | Val::Union(_, Some(v)) => weight(v),
        _ => 0,
    }
}

pub fn c15(c: &mut Ctx, t: &Tables) {
    let w = world();
    each(c, t, 10, 150, |c, g, r, k| {
        for a in g.arrays {
            let s = tref(a.s);
            let size = w.byte_size(s);
            let mk = field_mask(s);
            let f = &w.msg(r).fields[a.field];
            let max_len = match &f.kind {
                MKind::List { max_len, .. } => *max_len,
                _ => unreachable!(),
            };
            let name = f.name.clone();
            let n = if k % 5 == 0 { 0 } else { 1 + c.rng.idx(8) };
            let mut b = c.rng.bytes(n * size);
            c.see_u(&[r.proto as u64, r.idx as u64, a.field as u64, n as u64, size as u64]);
            c.add("arrays", 1);
            // Accepted exactly when the sizes agree, also when the product wraps around.
            let mut counts = vec![(n, b.len()), (n + 1, b.len()), (n.wrapping_sub(1), b.len()), (n, b.len() + 1), (n, b.len() + size), (n * size, b.len()), (usize::MAX, b.len()), (0, b.len()), (n, 0)];
            for q in [1u128, 2, size as u128 - 1, size as u128 / 2] {
                let x = b.len() as u128 + (q << 64);
                if x % size as u128 == 0 && x / (size as u128) <= u64::MAX as u128 {
                    counts.push(((x / size as u128) as usize, b.len()));
                }
            }
            for (n, l) in counts {
                let x = vec![0u8; l];
                let got = call!(c, format!("from_parts of {} bytes and {} items of {}", l, n, name), (a.from_parts)(&x, n), continue);
                let ok = n as u128 * size as u128 == l as u128;
                c.check(got == if ok { Some(n) } else { None }, || format!("{} bytes as {} items of {} bytes of {}: {:?}", l, n, size, name, got));
                c.add("sizes", 1);
            }
            let items = |b: &[u8]| -> Vec<Vec<u8>> { b.chunks(size).map(|v| v.to_vec()).collect() };
            let want = items(&b);
            let it = call!(c, format!("iterating {}", name), (a.iter)(&b, n), continue);
            c.check(it == want, || format!("{} over {} iterates as {}", name, hex(&b), short(&it)));
            let far = [n, n + 1, usize::MAX, usize::MAX / size, (usize::MAX / size).saturating_add(1), (u64::MAX / 2) as usize];
            for i in 0..n {
                let x = call!(c, format!("item {} of {}", i, name), (a.get)(&b, n, i), continue);
                c.check(x == want[i], || format!("item {} of {} over {} is {}", i, name, hex(&b), hex(&x)));
                // Mutation through one path, seen through all, changing nothing else.
                let src = c.rng.bytes(size);
                let mut y = b.clone();
                for j in 0..size {
                    y[i * size + j] = y[i * size + j] & !mk[j] | src[j] & mk[j];
                }
                let before = b.clone();
                match c.rng.below(3) {
                    0 => call!(c, "get_mut", (a.get_mut)(&mut b, n, i, &src), continue),
                    1 => {
                        let m = call!(c, "iter_mut", (a.iter_mut)(&mut b, n, i, &src), continue);
                        c.check(m == n, || format!("mutable iteration of {} items of {} yields {}", n, name, m));
                    }
                    _ => {
                        let (x, all) = call!(c, "get_mut then get", (a.mixed)(&mut b, n, i, &src), continue);
                        c.check(x == y[i * size..(i + 1) * size], || format!("item {} of {} set to {} in {} reads {}", i, name, hex(&src), hex(&before), hex(&x)));
                        c.check(all == items(&y), || format!("item {} of {} set to {} in {} iterates as {}", i, name, hex(&src), hex(&before), short(&all)));
                    }
                }
                c.check(b == y, || format!("item {} of {} set to {} turns {} into {} instead of {}", i, name, hex(&src), hex(&before), hex(&b), hex(&y)));
                b = before;
                c.add("mutations", 1);
            }
            for i in far {
                if i < n {
                    continue;
                }
                let x = guard(|| (a.get)(&b, n, i));
                c.check(x.is_err(), || format!("item {} of the {} items of {} reads {:?}", i, n, name, x));
                let before = b.clone();
                let src = vec![0xA5; size];
                let x = guard(|| (a.get_mut)(&mut b, n, i, &src));
                c.check(x.is_err() && b == before, || format!("item {} of the {} items of {} can be written", i, n, name));
                b = before;
            }
            let mut head = Vec::new();
            refm::put(&mut head, n as u64, prefix_size(max_len), w.protos[r.proto].big());
            head.extend(&b);
            let got = call!(c, "writing an array", (a.inplace)(&b, n), continue);
            c.check(got.as_ref() == Ok(&head), || format!("{} over {} is written as {}", name, hex(&b), short(&got)));
            for batch in [false, true] {
                let got = call!(c, "appending", (a.append)(&want, batch), continue);
                c.check(got == Ok((n, head.clone())), || format!("{} items appended to {}: {} instead of {}", n, name, short(&got), hex(&head)));
                c.add("appends", n as u64);
            }
            if n > 0 {
                // The access paths of a list that was appended to.
                let i = c.rng.idx(n);
                let src = c.rng.bytes(size);
                let mut y = b.clone();
                for j in 0..size {
                    y[i * size + j] = y[i * size + j] & !mk[j] | src[j] & mk[j];
                }
                let mut whole = head[..head.len() - b.len()].to_vec();
                whole.extend(&y);
                let got = call!(c, "reading appended items", (a.appended)(&want, i, &src), continue);
                let should = (want.clone(), want.clone(), n, items(&y), whole);
                c.check(got.as_ref() == Ok(&should), || format!("{} with the items {} appended, item {} then set to {}: {} instead of {}", name, short(&want), i, hex(&src), short(&got), short(&should)));
                let limit = c.rng.idx(n * size + 1);
                let fit = (limit / size).min(n);
                let (res, len, buf) = call!(c, "appending to a full buffer", (a.append_fail)(&want, limit, false), continue);
                c.check(len == fit && (res.is_err() == (fit < n)), || format!("{} items of {} bytes appended to {} bytes: {:?}, length {}", n, size, limit, res, len));
                c.check(buf[..fit * size] == b[..fit * size], || format!("{} items of {} bytes appended to {} bytes: {}", n, size, limit, hex(&buf)));
                // A batch: what is counted is there.
                let (res, len, buf) = call!(c, "appending to a full buffer", (a.append_fail)(&want, limit, true), continue);
                c.check(len <= fit && (res.is_err() == (fit < n)) && (res.is_err() || len == n), || format!("{} items of {} bytes appended at once to {} bytes: {:?}, length {}", n, size, limit, res, len));
                c.check(len > fit || buf[..len * size] == b[..len * size], || format!("{} items of {} bytes appended at once to {} bytes: {}", n, size, limit, hex(&buf)));
            }
            // Many items at once.
            if k == 1 && !c.miri {
                let n = *c.rng.pick(&[300usize, 1100, 5000, 33000, 40000, 66000]);
                let n = n.min(mask(8 * prefix_size(max_len) as u32) as usize).min(300_000 / size);
                let b = c.rng.bytes(n * size);
                let want: Vec<Vec<u8>> = b.chunks(size).map(|v| v.to_vec()).collect();
                let mut head = Vec::new();
                refm::put(&mut head, n as u64, prefix_size(max_len), w.protos[r.proto].big());
                head.extend(&b);
                for batch in [false, true] {
                    let got = call!(c, "appending many", (a.append)(&want, batch), continue);
                    c.check(got.as_ref() == Ok(&(n, head.clone())), || match &got {
                        Ok((len, bytes)) => format!("{} items appended to {} {}: length {}, {} bytes instead of {}", n, name, if batch { "at once" } else { "one by one" }, len, bytes.len(), head.len()),
                        Err(e) => format!("{} items appended to {}: {:?}", n, name, e),
                    });
                    c.add("appends", n as u64);
                }
                // Reading that many, on their own and through a decoded message.
                let it = call!(c, format!("iterating {} items of {}", n, name), (a.iter)(&b, n), continue);
                c.check(it == want, || format!("{} over {} items of {} bytes iterates as {} items, the first one which differs is {:?}", name, n, size, it.len(), it.iter().zip(&want).position(|(x, y)| x != y)));
                if n > 0 {
                    let mut v = value(c, r, 3);
                    if let Val::Msg(fs) = &mut v {
                        let arr = Val::Arr(want.clone());
                        fs[a.field] = if f.optional { Val::Opt(Some(Box::new(arr))) } else { arr };
                    }
                    let e = encode(w, r, &v);
                    let i = *c.rng.pick(&[n - 1, n / 2]);
                    let got = call!(c, "reading many", (a.decoded)(&e.bytes, i), continue);
                    c.check(got.as_ref() == Ok(&(n, want[i].clone(), want[i].clone(), want.clone())), || match &got {
                        Ok((m, x, y, all)) => format!("{} items of {}: length {}, item {} is {} and {} instead of {}, {} are iterated", n, name, m, i, hex(x), hex(y), hex(&want[i]), all.len()),
                        Err(e) => format!("{} items of {}: {:?}", n, name, e),
                    });
                    c.add("many_read", n as u64);
                }
            }
            // Through a decoded message.
            let mut v = value(c, r, 3);
            if let Val::Msg(fs) = &mut v {
                let arr = Val::Arr(want.clone());
                fs[a.field] = if f.optional { Val::Opt(Some(Box::new(arr))) } else { arr };
            }
            if n > 0 {
                let e = encode(w, r, &v);
                let i = c.rng.idx(n);
                let got = call!(c, "reading", (a.decoded)(&e.bytes, i), continue);
                c.check(got == Ok((n, want[i].clone(), want[i].clone(), want.clone())), || format!("item {} of {} of {} in {}: {}", i, name, short(&want), hex(&e.bytes), short(&got)));
            }
            c.notes(&["C15"], || format!("{} over {}", name, hex(&b)));
            if c.full() {
                return;
            }
        }
        // Arrays built in every way inside messages.
        if !g.arrays.is_empty() {
            let v = value(c, r, 2);
            for m in 0..4 {
                let mut kk = K::new(c.rng.next());
                kk.fixed = Some(m);
                let want = encode(w, r, &v).bytes;
                let got = call!(c, "writing", enc(g, &v, &kk), return);
                c.check(got.as_ref() == Ok(&want), || format!("{} built in way {} is written as {} instead of {}", short(&v), m, short(&got), hex(&want)));
            }
            c.notes(&["C14", "C15"], || short(&v));
        }
    });
}

/// Output that fails, is slow or interrupted.
struct Out {
    data: Vec<u8>,
    mode: OutMode,
    rng: vir::Rng,
    failed: bool,
    calls: u64,
    after: u64,
}

#[derive(Clone, Copy, Debug)]
enum OutMode {
    /// Fails once after so many bytes and works again afterwards.
    Fail(usize, ErrorKind),
    /// Stays full after so many bytes (accepts 0).
    Full(usize),
    /// One byte at a time.
    Bytes,
    /// Random pieces with interruptions.
    Bumpy,
}

const BOOM: &str = "the output broke";

impl Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.failed {
            self.after += 1;
        }
        let n = match self.mode {
            OutMode::Fail(at, kind) => {
                if self.failed {
                    b.len()
                } else if self.data.len() >= at && !b.is_empty() {
                    self.failed = true;
                    return Err(IoError::new(kind, BOOM));
                } else {
                    b.len().min(at - self.data.len().min(at))
                }
            }
            OutMode::Full(at) => {
                let n = b.len().min(at - self.data.len().min(at));
                if n == 0 && !b.is_empty() {
                    self.failed = true;
                }
                n
            }
            OutMode::Bytes => b.len().min(1),
            OutMode::Bumpy => {
                if self.rng.chance(1, 3) {
                    return Err(IoError::new(ErrorKind::Interrupted, "again"));
                }
                if b.is_empty() { 0 } else { self.rng.range(1, b.len() as u64) as usize }
            }
        };
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn c16(c: &mut Ctx, t: &Tables) {
    let w = world();
    each(c, t, 6, 80, |c, g, r, k| {
        let v = value(c, r, k + 2);
        let want = encode(w, r, &v).bytes;
        see_val(c, r, 0, &v);
        let seed = c.rng.next();
        let full = match call!(c, "writing", enc(g, &v, &K::new(seed)), return) {
            Ok(b) => b,
            Err(e) => return c.viol(format!("{} cannot be written: {:?}", short(&v), e)),
        };
        let _ = want;
        let n = full.len();
        let mut modes = vec![OutMode::Bytes, OutMode::Bumpy, OutMode::Bumpy, OutMode::Fail(n, ErrorKind::Other), OutMode::Full(n)];
        let cuts: Vec<usize> = if n <= 150 { (0..n).collect() } else { (0..150).map(|_| c.rng.idx(n)).collect() };
        for at in cuts {
            modes.push(OutMode::Fail(at, *c.rng.pick(&[ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::ConnectionReset])));
            if c.rng.chance(1, 4) {
                modes.push(OutMode::Full(at));
            }
        }
        for mode in modes {
            let mut o = Out { data: Vec::new(), mode, rng: vir::Rng::new(c.rng.next()), failed: false, calls: 0, after: 0 };
            let kk = K::new(seed);
            let res = call!(c, format!("writing to {:?}", mode), (g.encode)(&v, &kk, &mut o), continue);
            c.add("writes", 1);
            c.add("write_calls", o.calls);
            c.see_u(&[r.proto as u64, r.idx as u64, match mode { OutMode::Fail(a, _) => a as u64, OutMode::Full(a) => a as u64 + 10000, OutMode::Bytes => 99999, _ => 99998 }]);
            match mode {
                OutMode::Fail(at, kind) if at < n => {
                    c.add("faults", 1);
                    let e = ErrK::Io(format!("{:?}: {}", kind, BOOM));
                    c.check(res == Err(e.clone()), || format!("writing {} to an output failing at byte {} gives {:?} instead of {:?}", short(&v), at, res, e));
                }
                OutMode::Full(at) if at < n => {
                    c.add("faults", 1);
                    c.check(matches!(&res, Err(ErrK::Io(_))), || format!("writing {} to an output of {} bytes gives {:?}", short(&v), at, res));
                }
                _ => {
                    c.check(res == Ok(()), || format!("writing {} to {:?} gives {:?}", short(&v), mode, res));
                }
            }
            if res.is_ok() {
                c.check(o.data == full, || format!("writing {} to {:?} reports success but delivers {} instead of {}", short(&v), mode, hex(&o.data), hex(&full)));
            } else {
                c.check(full.starts_with(&o.data) && o.after == 0, || format!("after the failure of {:?}, the output holds {} which is not a prefix of {} ({} writes after the failure)", mode, hex(&o.data), hex(&full), o.after));
            }
            if c.full() {
                return;
            }
        }
    });
}

/// Puts a NUL into some string that is NUL-terminated.
fn add_nul(m: TRef, v: &mut Val, at: &mut isize, rng: &mut vir::Rng) -> bool {
    let w = world();
    let vals = match v {
        Val::Msg(v) => v,
        _ => return false,
    };
    for (f, v) in w.msg(m).fields.iter().zip(vals) {
        let v = match v {
            Val::Opt(None) => continue,
            Val::Opt(Some(v)) => &mut **v,
            v => v,
        };
        let hit = match (&f.kind, v) {
            (MKind::Str { max_len: None }, Val::Str(s)) => {
                *at -= 1;
                if *at < 0 {
                    let cuts: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
                    s.insert(*rng.pick(&cuts), '\0');
                }
                *at < 0
            }
            (MKind::List { item: Item::Msg(i), .. }, Val::List(_, vs, _)) => vs.iter_mut().any(|v| add_nul(*i, v, at, rng)),
            (MKind::Item(Item::Msg(i)), v) => add_nul(*i, v, at, rng),
            (MKind::Union { r, .. }, Val::Union(k, Some(v))) => match w.union(*r).cases[*k].item {
                Some(Item::Msg(i)) => add_nul(i, v, at, rng),
                _ => false,
            },
            _ => false,
        };
        if hit {
            return true;
        }
    }
    false
}

pub fn c17(c: &mut Ctx, t: &Tables) {
    let w = world();
    let _ = w;
    each(c, t, 30, 300, |c, g, r, k| {
        let mut v = value(c, r, k + 2);
        let mut at = c.rng.idx(4) as isize;
        let bad = match k % 3 {
            0 => add_nul(r, &mut v, &mut at, &mut c.rng),
            1 => {
                let len = *c.rng.pick(&[256, 257, 300, 511, 512, 513, 1024]);
                resize(r, &mut v, &mut at, len, &mut c.rng, true)
            }
            _ => {
                let len = if c.miri { 256 } else { *c.rng.pick(&[65536, 65537, 65792, 131072, 131073]) };
                resize(r, &mut v, &mut at, len, &mut c.rng, true)
            }
        };
        if !bad {
            return;
        }
        c.add("unrepresentable", 1);
        see_val(c, r, k as u8 % 3, &v);
        let mut kk = kind(c, k);
        kk.longer = false;
        let mut out = Vec::new();
        let res = call!(c, format!("writing {}", short(&v)), (g.encode)(&v, &kk, &mut out), return);
        c.check(res.is_err(), || format!("{} has no encoding but is written as {}", short(&v), hex(&out)));
        if let Err(e) = &res {
            c.check(matches!(e, ErrK::Io(_)), || format!("{} is refused with {:?}", short(&v), e));
        }
        NOTES.with(|n| n.borrow_mut().clear());
        // Values that can be represented still are.
        let mut v = value(c, r, k);
        let mut at = c.rng.idx(3) as isize;
        let len = *c.rng.pick(&[255, 254, 65535]);
        resize(r, &mut v, &mut at, len, &mut c.rng, false);
        kk.spoils = k % 2 == 1 && !c.miri;
        let b = call!(c, "writing", enc(g, &v, &kk), return);
        c.add("representable", 1);
        c.add("refused_items", kk.refusals.get());
        c.notes(&["C14", "C17"], || format!("building {}", short(&v)));
        match b {
            Err(e) => c.viol(format!("{} can be represented but is refused: {:?}", short(&v), e)),
            Ok(b) => {
                let got = call!(c, "reading", (g.decode)(&b), return);
                c.check(matches!(&got, Ok((_, x)) if *x == v), || format!("{} is written as {} which reads as {}", short(&v), hex(&b), short(&got)));
            }
        }
    });
}

/// Messages of one protocol used inside messages of another.
pub fn c23(c: &mut Ctx, t: &Tables) {
    let w = world();
    each(c, t, 20, 200, |c, g, r, k| {
        for (i, f) in w.msg(r).fields.iter().enumerate() {
            let foreign = match &f.kind {
                MKind::Item(Item::Msg(q)) | MKind::List { item: Item::Msg(q), .. } if q.proto != r.proto => Some(*q),
                MKind::Item(Item::Struct(q)) | MKind::List { item: Item::Struct(q), .. } if q.proto != r.proto => {
                    whole(c, g, r, k);
                    None
                }
                MKind::Union { r: q, .. } if q.proto != r.proto || w.union(*q).root.proto != r.proto || w.union(*q).cases.iter().any(|x| matches!(x.item, Some(Item::Msg(m)) | Some(Item::Struct(m)) if m.proto != r.proto)) => {
                    whole(c, g, r, k);
                    None
                }
                _ => None,
            };
            let q = match foreign {
                Some(q) => q,
                None => continue,
            };
            let def = t.msgs.iter().find(|m| tref(m.r) == q).expect("message");
            let v = value(c, r, k + 2);
            let e = encode(w, r, &v);
            let inner = match &v {
                Val::Msg(fs) => match &fs[i] {
                    Val::Opt(None) => continue,
                    Val::Opt(Some(v)) => (**v).clone(),
                    v => v.clone(),
                },
                _ => unreachable!(),
            };
            let o = &e.offs[i];
            let start = o.start + f.optional as usize;
            c.see_u(&[r.proto as u64, r.idx as u64, q.proto as u64, q.idx as u64, i as u64]);
            // Written by the importer, read by the definer.
            let kk = kind(c, k);
            let b = match call!(c, "writing", enc(g, &v, &kk), continue) {
                Ok(b) => b,
                Err(x) => return c.viol(format!("{} cannot be written: {:?}", short(&v), x)),
            };
            if b.len() != e.bytes.len() {
                c.viol(format!("{} is written as {} instead of {}", short(&v), hex(&b), hex(&e.bytes)));
                return;
            }
            let (items, mut pos) = match (&inner, &f.kind) {
                (Val::List(_, vs, _), MKind::List { max_len, .. }) => (vs.clone(), start + prefix_size(*max_len)),
                _ => (vec![inner.clone()], start),
            };
            for it in &items {
                let n = encode(w, q, it).bytes.len();
                let got = call!(c, "reading", (def.decode)(&b[pos..pos + n]), continue);
                c.check(got == Ok((n, it.clone())), || format!("{} written inside {} reads as {} through {}", short(it), w.msg(r).name, short(&got), w.protos[q.proto].name));
                c.add("cross_messages", 1);
                // Written by the definer, read by the importer.
                let kk = kind(c, k);
                let own = call!(c, "writing", enc(def, it, &kk), continue);
                if let Ok(own) = own {
                    if own.len() == n {
                        let mut x = b.clone();
                        x[pos..pos + n].copy_from_slice(&own);
                        let got = call!(c, "reading", (g.decode)(&x), continue);
                        c.check(matches!(&got, Ok((_, y)) if *y == v), || format!("{} written by {} reads as {} inside {}", short(it), w.protos[q.proto].name, short(&got), w.msg(r).name));
                    } else {
                        c.viol(format!("{} takes {} bytes inside {} but {} in its own protocol", short(it), n, w.msg(r).name, own.len()));
                    }
                }
                pos += n;
            }
        }
    });
}

fn whole(c: &mut Ctx, g: &MsgGlue, r: TRef, k: usize) {
    let w = world();
    let v = value(c, r, k + 2);
    let e = encode(w, r, &v);
    let kk = kind(c, k);
    let b = call!(c, "writing", enc(g, &v, &kk), return);
    c.check(b.as_ref() == Ok(&e.bytes), || format!("{} is written as {} instead of {}", short(&v), short(&b), hex(&e.bytes)));
    let got = call!(c, "reading", (g.decode)(&e.bytes), return);
    c.check(matches!(&got, Ok((_, x)) if *x == v), || format!("{} reads as {} instead of {}", hex(&e.bytes), short(&got), short(&v)));
    c.add("cross_messages", 1);
    c.see_u(&[55, r.proto as u64, r.idx as u64]);
}

/// Everything at once; the interpreter or sanitizer is the judge.
pub fn touch(c: &mut Ctx, t: &Tables) {
    let w = world();
    each(c, t, 6, 60, |c, g, r, k| {
        for j in 0..3 {
            let (b, tag) = hostile(c, r, k * 3 + j);
            let data = b.into_boxed_slice();
            c.see_u(&[r.proto as u64, r.idx as u64, tag]);
            let _ = guard(|| (g.decode)(&data));
            let _ = guard(|| (g.decode_off)(&data));
            let _ = guard(|| {
                let mut o = Vec::new();
                (g.recode)(&data, &mut o).is_ok()
            });
            c.add("decodes", 3);
        }
        let v = value(c, r, k + 2);
        for m in 0..4 {
            let mut kk = K::new(c.rng.next());
            kk.fixed = Some(m);
            let _ = guard(|| enc(g, &v, &kk));
            c.add("encodes", 1);
        }
        let seed = c.rng.next();
        let _ = guard(|| (g.size_of)(&v, &K::new(seed)));
        if let Val::Msg(_) = &v {
            let e = encode(w, r, &v);
            let at = c.rng.idx(e.bytes.len() + 1);
            let mut o = Out { data: Vec::new(), mode: OutMode::Fail(at, ErrorKind::Other), rng: vir::Rng::new(1), failed: false, calls: 0, after: 0 };
            let _ = guard(|| (g.encode)(&v, &K::new(seed), &mut o));
        }
        for a in g.arrays {
            let size = w.byte_size(tref(a.s));
            let n = c.rng.idx(4);
            let mut b = c.rng.bytes(n * size).into_boxed_slice();
            let src = c.rng.bytes(size).into_boxed_slice();
            let items: Vec<Vec<u8>> = b.chunks(size).map(|v| v.to_vec()).collect();
            for i in 0..n + 1 {
                if i == n && !c.dear() {
                    break;
                }
                let _ = guard(|| (a.get)(&b, n, i));
                let _ = guard(|| (a.get_mut)(&mut b, n, i, &src));
                let _ = guard(|| (a.iter_mut)(&mut b, n, i, &src));
                let _ = guard(|| (a.mixed)(&mut b, n, i, &src));
            }
            let _ = guard(|| (a.iter)(&b, n));
            let _ = guard(|| (a.append)(&items, true));
            let _ = guard(|| (a.append_fail)(&items, n * size / 2, n % 2 == 0));
            let _ = guard(|| (a.inplace)(&b, n));
            let _ = guard(|| (a.appended)(&items, 0, &src));
            let way = c.rng.idx(3);
            let at = if c.dear() { c.rng.idx(n + 2) } else { 0 };
            let _ = guard(|| (a.odd)(&mut b, &items[..n.min(2)], way, n, at, &src));
            c.add("array_accesses", 4 * n as u64 + 4);
        }
    });
    let _ = gen_item;
}
