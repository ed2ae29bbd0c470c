//! Reference semantics: what the bytes of structs, unions and messages mean.
use crate::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ErrK {
    Truncated,
    Utf8,
    Disc(u64),
    Io(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    /// A struct: its bytes.
    Bytes(Vec<u8>),
    /// A struct carried as a number: its raw bits.
    Num(u64),
    Str(String),
    Payload(Vec<u8>),
    Arr(Vec<Vec<u8>>),
    /// Announced length, items in order, and the error that ended the iteration.
    List(usize, Vec<Val>, Option<ErrK>),
    Msg(Vec<Val>),
    Opt(Option<Box<Val>>),
    Union(usize, Option<Box<Val>>),
}

impl Val {
    /// First error met while iterating the lists of a value, in declaration order.
    pub fn list_err(&self) -> Option<&ErrK> {
        match self {
            Val::List(_, items, e) => items.iter().find_map(|v| v.list_err()).or(e.as_ref()),
            Val::Msg(f) => f.iter().find_map(|v| v.list_err()),
            Val::Opt(Some(v)) => v.list_err(),
            Val::Union(_, Some(v)) => v.list_err(),
            _ => None,
        }
    }
    /// Number of scalar values, items and strings inside (coverage accounting).
    pub fn weight(&self) -> u64 {
        match self {
            Val::List(_, items, _) => 1 + items.iter().map(|v| v.weight()).sum::<u64>(),
            Val::Msg(f) => f.iter().map(|v| v.weight()).sum::<u64>(),
            Val::Opt(Some(v)) => 1 + v.weight(),
            Val::Union(_, Some(v)) => 1 + v.weight(),
            Val::Arr(v) => 1 + v.len() as u64,
            _ => 1,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sub {
    Plain,
    /// Nested message that is absent.
    Absent,
    /// Nested message, offsets relative to its first byte.
    Present(Vec<Off>),
    /// Items of a list of messages.
    Items(Vec<Vec<Off>>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Off {
    pub start: usize,
    pub end: usize,
    pub sub: Sub,
}

/// Reads n bits at stream position off.
pub fn get_bits(buf: &[u8], off: usize, n: usize, big: bool) -> u64 {
    let mut v = 0u64;
    for k in 0..n {
        let p = off + k;
        if big {
            v = (v << 1) | (buf[p / 8] >> (7 - p % 8) & 1) as u64;
        } else {
            v |= ((buf[p / 8] >> (p % 8) & 1) as u64) << k;
        }
    }
    v
}

/// Writes the n low bits of v at stream position off.
pub fn set_bits(buf: &mut [u8], off: usize, n: usize, big: bool, v: u64) {
    for k in 0..n {
        let p = off + k;
        let (bit, sh) = if big { (v >> (n - 1 - k) & 1, 7 - p % 8) } else { (v >> k & 1, p % 8) };
        buf[p / 8] = buf[p / 8] & !(1 << sh) | (bit as u8) << sh;
    }
}

pub fn sign(v: u64, n: u32) -> i64 {
    ((v << (64 - n)) as i64) >> (64 - n)
}

/// Byte order aware number of `n` bytes.
pub fn num(buf: &[u8], n: usize, big: bool) -> u64 {
    let mut v = 0u64;
    for k in 0..n {
        v |= (buf[k] as u64) << (8 * if big { n - 1 - k } else { k });
    }
    v
}

pub fn put(out: &mut Vec<u8>, v: u64, n: usize, big: bool) {
    for k in 0..n {
        out.push((v >> (8 * if big { n - 1 - k } else { k })) as u8);
    }
}

pub struct Enc {
    pub bytes: Vec<u8>,
    pub offs: Vec<Off>,
}

pub fn encode(w: &World, m: TRef, v: &Val) -> Enc {
    let fields = match v {
        Val::Msg(f) => f,
        _ => panic!("not a message value"),
    };
    let mut bytes = Vec::new();
    let mut offs = Vec::new();
    let big = w.protos[m.proto].big();
    for (f, v) in w.msg(m).fields.iter().zip(fields) {
        let start = bytes.len();
        let inner = match v {
            Val::Opt(None) => {
                bytes.push(0);
                None
            }
            Val::Opt(Some(v)) => {
                bytes.push(1);
                Some(&**v)
            }
            v => Some(v),
        };
        let is_msg = matches!(f.kind, MKind::Item(Item::Msg(_)));
        let sub = match inner {
            Some(v) => encode_field(w, &f.kind, big, v, &mut bytes),
            None if is_msg => Sub::Absent,
            None => Sub::Plain,
        };
        offs.push(Off { start, end: bytes.len(), sub });
    }
    Enc { bytes, offs }
}

fn encode_item(w: &World, i: Item, v: &Val, out: &mut Vec<u8>) -> Sub {
    match (i, v) {
        (Item::Struct(_), Val::Bytes(b)) => {
            out.extend_from_slice(b);
            Sub::Plain
        }
        (Item::Struct(s), Val::Num(n)) => {
            let (_, bits, big) = w.inlined(s).expect("number");
            put(out, *n, bits as usize / 8, big);
            Sub::Plain
        }
        (Item::Msg(m), v) => {
            let e = encode(w, m, v);
            out.extend_from_slice(&e.bytes);
            Sub::Present(e.offs)
        }
        _ => panic!("value does not match the schema"),
    }
}

fn encode_field(w: &World, k: &MKind, big: bool, v: &Val, out: &mut Vec<u8>) -> Sub {
    match (k, v) {
        (MKind::Item(i), v) => return encode_item(w, *i, v, out),
        (MKind::List { max_len, .. }, Val::Arr(items)) => {
            put(out, items.len() as u64, prefix_size(*max_len), big);
            for i in items {
                out.extend_from_slice(i);
            }
        }
        (MKind::List { max_len, item: Item::Msg(m) }, Val::List(n, items, _)) => {
            put(out, *n as u64, prefix_size(*max_len), big);
            let mut offs = Vec::new();
            for i in items {
                let e = encode(w, *m, i);
                out.extend_from_slice(&e.bytes);
                offs.push(e.offs);
            }
            return Sub::Items(offs);
        }
        (MKind::Str { max_len: None }, Val::Str(s)) => {
            out.extend_from_slice(s.as_bytes());
            out.push(0);
        }
        (MKind::Str { max_len: Some(n) }, Val::Str(s)) => {
            put(out, s.len() as u64, prefix_size(*n), big);
            out.extend_from_slice(s.as_bytes());
        }
        (MKind::Payload, Val::Payload(b)) => out.extend_from_slice(b),
        (MKind::Union { r, .. }, Val::Union(c, v)) => {
            if let (Some(i), Some(v)) = (w.union(*r).cases[*c].item, v) {
                // A struct in a union is always its bytes.
                if let (Item::Struct(_), Val::Bytes(b)) = (i, &**v) {
                    out.extend_from_slice(b);
                } else {
                    encode_item(w, i, v, out);
                }
            }
        }
        _ => panic!("value does not match the schema"),
    }
    Sub::Plain
}

#[derive(Clone, Debug)]
pub struct Dec {
    pub val: Val,
    pub offs: Vec<Off>,
    /// Bytes the encoding occupies (all of the input after an error in a lazily read list).
    pub size: usize,
}

/// Decodes a message. With `lazy`, an error inside a list of messages that is not part of a list
/// item is kept in the value next to the intact leading items.
pub fn decode(w: &World, m: TRef, data: &[u8], lazy: bool) -> Result<Dec, ErrK> {
    let big = w.protos[m.proto].big();
    let mut pos = 0;
    let mut vals: Vec<Val> = Vec::new();
    let mut offs = Vec::new();
    for f in &w.msg(m).fields {
        let start = pos;
        let mut present = true;
        if f.optional {
            present = *data.get(pos).ok_or(ErrK::Truncated)? != 0;
            pos += 1;
        }
        let is_msg = matches!(f.kind, MKind::Item(Item::Msg(_)));
        let mut sub = if is_msg { Sub::Absent } else { Sub::Plain };
        let mut v = None;
        if present {
            let disc = match &f.kind {
                MKind::Union { on, r } => {
                    let root = match &vals[*on] {
                        Val::Bytes(b) => b.clone(),
                        _ => panic!("discriminant"),
                    };
                    let l = w.disc_leaf(*r);
                    Some(get_bits(&root, l.off, l.bits(), l.big))
                }
                _ => None,
            };
            let (value, size, s) = decode_field(w, &f.kind, big, &data[pos..], disc, lazy)?;
            pos += size;
            sub = s;
            v = Some(value);
        }
        vals.push(if f.optional { Val::Opt(v.map(Box::new)) } else { v.unwrap() });
        offs.push(Off { start, end: pos, sub });
    }
    Ok(Dec { val: Val::Msg(vals), offs, size: pos })
}

fn take(data: &[u8], n: usize) -> Result<&[u8], ErrK> {
    data.get(..n).ok_or(ErrK::Truncated)
}

pub fn decode_item(w: &World, i: Item, number: bool, data: &[u8], lazy: bool) -> Result<(Val, usize, Sub), ErrK> {
    match i {
        Item::Struct(s) => match w.inlined(s) {
            Some((ty, bits, big)) if number => {
                let n = bits as usize / 8;
                let mut v = num(take(data, n)?, n, big);
                if ty == Ty::Bool {
                    v = (v != 0) as u64;
                }
                Ok((Val::Num(v), n, Sub::Plain))
            }
            _ => {
                let n = w.byte_size(s);
                Ok((Val::Bytes(take(data, n)?.to_vec()), n, Sub::Plain))
            }
        },
        Item::Msg(m) => {
            let d = decode(w, m, data, lazy)?;
            Ok((d.val, d.size, Sub::Present(d.offs)))
        }
    }
}

fn decode_field(w: &World, k: &MKind, big: bool, data: &[u8], disc: Option<u64>, lazy: bool) -> Result<(Val, usize, Sub), ErrK> {
    match k {
        MKind::Item(i) => decode_item(w, *i, w.number(k), data, lazy),
        MKind::List { max_len, item } => {
            let p = prefix_size(*max_len);
            let n = num(take(data, p)?, p, big);
            match item {
                Item::Struct(s) => {
                    let size = w.byte_size(*s);
                    let total = (n as usize).checked_mul(size).ok_or(ErrK::Truncated)?;
                    let end = total.checked_add(p).ok_or(ErrK::Truncated)?;
                    let body = &take(data, end)?[p..];
                    Ok((Val::Arr(body.chunks(size).map(|v| v.to_vec()).collect()), end, Sub::Plain))
                }
                Item::Msg(m) => {
                    let mut pos = p;
                    let mut items = Vec::new();
                    let mut offs = Vec::new();
                    for _ in 0..n {
                        match decode(w, *m, &data[pos..], false) {
                            Ok(d) => {
                                pos += d.size;
                                items.push(d.val);
                                offs.push(d.offs);
                            }
                            Err(e) if lazy => {
                                return Ok((Val::List(n as usize, items, Some(e)), data.len(), Sub::Items(offs)));
                            }
                            Err(e) => return Err(e),
                        }
                    }
                    Ok((Val::List(n as usize, items, None), pos, Sub::Items(offs)))
                }
            }
        }
        MKind::Str { max_len: None } => {
            let n = data.iter().position(|b| *b == 0).ok_or(ErrK::Truncated)?;
            let s = std::str::from_utf8(&data[..n]).map_err(|_| ErrK::Utf8)?;
            Ok((Val::Str(s.into()), n + 1, Sub::Plain))
        }
        MKind::Str { max_len: Some(m) } => {
            let p = prefix_size(*m);
            let n = num(take(data, p)?, p, big) as usize;
            let end = n.checked_add(p).ok_or(ErrK::Truncated)?;
            let s = std::str::from_utf8(&take(data, end)?[p..]).map_err(|_| ErrK::Utf8)?;
            Ok((Val::Str(s.into()), end, Sub::Plain))
        }
        MKind::Payload => Ok((Val::Payload(data.to_vec()), data.len(), Sub::Plain)),
        MKind::Union { r, .. } => {
            let (v, n) = decode_union(w, *r, disc.unwrap(), data, lazy)?;
            Ok((v, n, Sub::Plain))
        }
    }
}

pub fn decode_union(w: &World, r: TRef, disc: u64, data: &[u8], lazy: bool) -> Result<(Val, usize), ErrK> {
    let (c, case) = w.union(r).cases.iter().enumerate().find(|(_, c)| c.raw == disc).ok_or(ErrK::Disc(disc))?;
    match case.item {
        None => Ok((Val::Union(c, None), 0)),
        Some(i) => {
            let (v, n, _) = decode_item(w, i, false, data, lazy)?;
            Ok((Val::Union(c, Some(Box::new(v))), n))
        }
    }
}

/// What random values look like.
#[derive(Clone, Copy, Debug)]
pub struct GenOpt {
    pub max_items: usize,
    pub max_str: usize,
}

impl Default for GenOpt {
    fn default() -> Self {
        GenOpt { max_items: 4, max_str: 12 }
    }
}

const CHARS: &[char] = &['a', 'Z', '0', ' ', '\n', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '€', '\u{ffff}', '𝄞', '\u{10ffff}', '\u{1}'];

pub fn gen_str(rng: &mut Rng, max: usize, nul: bool) -> String {
    let n = match rng.below(6) {
        0 => 0,
        1 => max,
        _ => rng.idx(max + 1),
    };
    let mut s = String::new();
    while s.len() < n {
        let c = if nul && rng.chance(1, 12) { '\0' } else { *rng.pick(CHARS) };
        if s.len() + c.len_utf8() > n {
            s.push('x');
        } else {
            s.push(c);
        }
    }
    s
}

pub fn gen(w: &World, m: TRef, rng: &mut Rng, o: GenOpt) -> Val {
    let fields = &w.msg(m).fields;
    let mut vals = Vec::new();
    for f in fields {
        let v = match &f.kind {
            MKind::Union { on, r } => {
                let cases = &w.union(*r).cases;
                let c = rng.idx(cases.len());
                let l = w.disc_leaf(*r);
                if let Val::Bytes(b) = &mut vals[*on] {
                    set_bits(b, l.off, l.bits(), l.big, cases[c].raw);
                }
                Val::Union(c, cases[c].item.map(|i| Box::new(gen_item(w, i, false, rng, o))))
            }
            k => {
                if f.optional && rng.chance(2, 5) {
                    Val::Opt(None)
                } else {
                    let v = gen_kind(w, k, rng, o);
                    if f.optional {
                        Val::Opt(Some(Box::new(v)))
                    } else {
                        v
                    }
                }
            }
        };
        vals.push(v);
    }
    Val::Msg(vals)
}

pub fn gen_struct(w: &World, s: TRef, rng: &mut Rng) -> Vec<u8> {
    let n = w.byte_size(s);
    match rng.below(6) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        _ => rng.bytes(n),
    }
}

pub fn gen_item(w: &World, i: Item, number: bool, rng: &mut Rng, o: GenOpt) -> Val {
    match i {
        Item::Struct(s) => match w.inlined(s) {
            Some((ty, bits, _)) if number => Val::Num(if ty == Ty::Bool { rng.below(2) } else { rng.bits(bits) }),
            _ => Val::Bytes(gen_struct(w, s, rng)),
        },
        Item::Msg(m) => gen(w, m, rng, GenOpt { max_items: o.max_items.min(3), ..o }),
    }
}

fn gen_kind(w: &World, k: &MKind, rng: &mut Rng, o: GenOpt) -> Val {
    match k {
        MKind::Item(i) => gen_item(w, *i, w.number(k), rng, o),
        MKind::List { item, max_len } => {
            let max = (o.max_items as u64).min(*max_len) as usize;
            let n = if rng.chance(1, 8) { max } else { rng.idx(max + 1) };
            match item {
                Item::Struct(s) => Val::Arr((0..n).map(|_| gen_struct(w, *s, rng)).collect()),
                Item::Msg(m) => {
                    let oo = GenOpt { max_items: o.max_items.min(3), ..o };
                    Val::List(n, (0..n).map(|_| gen(w, *m, rng, oo)).collect(), None)
                }
            }
        }
        MKind::Str { max_len } => {
            let max = max_len.unwrap_or(u64::MAX).min(o.max_str as u64) as usize;
            Val::Str(gen_str(rng, max, max_len.is_some()))
        }
        MKind::Payload => {
            let n = rng.idx(10);
            Val::Payload(rng.bytes(n))
        }
        MKind::Union { .. } => unreachable!(),
    }
}
