//! Schema IR: what a protocol file means, independent of the code under test.
pub mod corpus;
pub mod emit;
pub mod glue;
pub mod refm;
pub mod rng;
pub use rng::{hash, mask, Rng};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TRef {
    pub proto: usize,
    pub idx: usize,
}

#[derive(Clone, Debug)]
pub struct World {
    pub name: String,
    pub protos: Vec<Proto>,
    /// Order in which the protocols are handed to `Loader::load` (indices into protos).
    pub load_order: Vec<usize>,
    /// Protocols live in a module of their own rather than at the crate root.
    pub wrap: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Proto {
    pub name: String,
    pub endian: Option<bool>, // Some(true) = big
    /// Declaring protocol, type name, and the protocol named by the import (which may itself have
    /// imported the type).
    pub imports: Vec<(usize, String, usize)>,
    pub enums: Vec<Enum>,
    pub structs: Vec<Struct>,
    pub unions: Vec<Union>,
    pub msgs: Vec<Msg>,
}

impl Proto {
    pub fn big(&self) -> bool {
        self.endian == Some(true)
    }
}

#[derive(Clone, Debug)]
pub struct Enum {
    pub name: String,
    pub variants: Vec<(String, u64)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Unsigned,
    Signed,
    Bool,
    Float,
}

#[derive(Clone, Debug)]
pub enum View {
    None,
    Enum(TRef),
    Range(f64, f64),
    Mult(f64),
}

#[derive(Clone, Debug)]
pub enum SKind {
    Scalar { ty: Ty, bits: u32, view: View },
    Array { ty: Ty, bits: u32, len: usize },
    Struct(TRef),
}

#[derive(Clone, Debug)]
pub struct SField {
    pub name: String,
    pub kind: SKind,
}

#[derive(Clone, Debug)]
pub struct Struct {
    pub name: String,
    pub fields: Vec<SField>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Item {
    Struct(TRef),
    Msg(TRef),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub name: String,
    pub lit: String,
    pub raw: u64,
    pub item: Option<Item>,
}

#[derive(Clone, Debug)]
pub struct Union {
    pub name: String,
    pub root: TRef,
    pub path: Vec<String>,
    pub cases: Vec<Case>,
}

#[derive(Clone, Debug)]
pub enum MKind {
    Item(Item),
    List { max_len: u64, item: Item },
    Str { max_len: Option<u64> },
    Payload,
    Union { on: usize, r: TRef },
}

#[derive(Clone, Debug)]
pub struct MField {
    pub name: String,
    pub kind: MKind,
    pub optional: bool,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub name: String,
    pub fields: Vec<MField>,
}

/// A scalar leaf or array leaf of a struct, flattened through nested structs.
#[derive(Clone, Debug)]
pub struct Leaf {
    /// Field names from the outermost struct to the leaf.
    pub path: Vec<String>,
    /// Absolute bit offset in the outermost struct (in units of stream bits).
    pub off: usize,
    pub big: bool,
    pub kind: SKind,
}

impl Leaf {
    pub fn bits(&self) -> usize {
        match &self.kind {
            SKind::Scalar { bits, .. } => *bits as usize,
            SKind::Array { bits, len, .. } => *bits as usize * len,
            SKind::Struct(_) => 0,
        }
    }
}

/// Width of the unsigned integer type carrying the raw value of an n-bit field.
pub fn raw_width(bits: u32) -> u32 {
    match bits {
        0..=8 => 8,
        9..=16 => 16,
        17..=32 => 32,
        _ => 64,
    }
}

impl World {
    /// Path of the module generated for a protocol, which is also the import path.
    pub fn module(&self, proto: usize) -> String {
        let n = &self.protos[proto].name;
        if self.wrap { format!("crate::{}_w::{}", n, n) } else { format!("crate::{}", n) }
    }
    pub fn strukt(&self, r: TRef) -> &Struct {
        &self.protos[r.proto].structs[r.idx]
    }
    pub fn msg(&self, r: TRef) -> &Msg {
        &self.protos[r.proto].msgs[r.idx]
    }
    pub fn union(&self, r: TRef) -> &Union {
        &self.protos[r.proto].unions[r.idx]
    }
    pub fn enm(&self, r: TRef) -> &Enum {
        &self.protos[r.proto].enums[r.idx]
    }
    pub fn item_name(&self, i: Item) -> &str {
        match i {
            Item::Struct(r) => &self.strukt(r).name,
            Item::Msg(r) => &self.msg(r).name,
        }
    }
    pub fn bit_size(&self, r: TRef) -> usize {
        self.strukt(r).fields.iter().map(|f| self.field_bits(f)).sum()
    }
    pub fn field_bits(&self, f: &SField) -> usize {
        match &f.kind {
            SKind::Scalar { bits, .. } => *bits as usize,
            SKind::Array { bits, len, .. } => *bits as usize * *len,
            SKind::Struct(r) => self.bit_size(*r),
        }
    }
    pub fn byte_size(&self, r: TRef) -> usize {
        (self.bit_size(r) + 7) / 8
    }
    pub fn leaves(&self, r: TRef) -> Vec<Leaf> {
        let mut out = Vec::new();
        self.collect(r, 0, &mut Vec::new(), &mut out);
        out
    }
    fn collect(&self, r: TRef, base: usize, path: &mut Vec<String>, out: &mut Vec<Leaf>) {
        let mut off = base;
        let big = self.protos[r.proto].big();
        for f in &self.strukt(r).fields {
            path.push(f.name.clone());
            match &f.kind {
                SKind::Struct(n) => self.collect(*n, off, path, out),
                k => out.push(Leaf { path: path.clone(), off, big, kind: k.clone() }),
            }
            path.pop();
            off += self.field_bits(f);
        }
    }
    /// A struct that consists of one plain number whose width is that of a number of Rust is
    /// carried by messages as that number.
    pub fn inlined(&self, r: TRef) -> Option<(Ty, u32, bool)> {
        let s = self.strukt(r);
        if s.fields.len() != 1 {
            return None;
        }
        match &s.fields[0].kind {
            SKind::Scalar { ty, bits, view: View::None } => {
                let native = match ty {
                    Ty::Bool => *bits == 8,
                    Ty::Float => *bits == 32 || *bits == 64,
                    _ => [8, 16, 32, 64].contains(bits),
                };
                native.then(|| (*ty, *bits, self.protos[r.proto].big()))
            }
            _ => None,
        }
    }
    /// Whether the field (of a message of this world) is carried as a number: one that a union of
    /// the message depends on remains a struct.
    pub fn number(&self, k: &MKind) -> bool {
        match k {
            MKind::Item(Item::Struct(s)) if self.inlined(*s).is_some() => (),
            _ => return false,
        }
        for p in &self.protos {
            for m in &p.msgs {
                if let Some(i) = m.fields.iter().position(|f| std::ptr::eq(&f.kind, k)) {
                    return !m.fields.iter().any(|f| matches!(f.kind, MKind::Union { on, .. } if on == i));
                }
            }
        }
        panic!("not a field of this world");
    }
    /// Lists of messages and payloads extend to the end of the input when they are not inside
    /// a list item.
    pub fn has_tail(&self, m: TRef) -> bool {
        self.msg(m).fields.iter().any(|f| self.field_tail(f))
    }
    pub fn field_tail(&self, f: &MField) -> bool {
        match &f.kind {
            MKind::Payload => true,
            MKind::List { item: Item::Msg(_), .. } => true,
            MKind::Item(Item::Msg(m)) => self.has_tail(*m),
            MKind::Union { r, .. } => self.union(*r).cases.iter().any(|c| matches!(c.item, Some(Item::Msg(m)) if self.has_tail(m))),
            _ => false,
        }
    }
    pub fn has_payload(&self, m: TRef) -> bool {
        self.msg(m).fields.iter().any(|f| match &f.kind {
            MKind::Payload => true,
            MKind::Item(Item::Msg(m)) | MKind::List { item: Item::Msg(m), .. } => self.has_payload(*m),
            MKind::Union { r, .. } => self.union(*r).cases.iter().any(|c| matches!(c.item, Some(Item::Msg(m)) if self.has_payload(m))),
            _ => false,
        })
    }
    /// Protocols whose messages, reachable from m, directly contain lists of messages.
    pub fn list_protos(&self, m: TRef, out: &mut Vec<usize>) {
        for f in &self.msg(m).fields {
            match &f.kind {
                MKind::List { item: Item::Msg(i), .. } => {
                    out.push(m.proto);
                    self.list_protos(*i, out);
                }
                MKind::Item(Item::Msg(i)) => self.list_protos(*i, out),
                MKind::Union { r, .. } => {
                    for c in &self.union(*r).cases {
                        if let Some(Item::Msg(i)) = c.item {
                            self.list_protos(i, out);
                        }
                    }
                }
                _ => (),
            }
        }
    }
    /// Whether the generated Rust type of a message has a lifetime parameter.
    pub fn msg_lt(&self, m: TRef) -> bool {
        self.msg(m).fields.iter().any(|f| match &f.kind {
            MKind::Item(Item::Struct(_)) => !self.number(&f.kind),
            MKind::Item(Item::Msg(m)) => self.msg_lt(*m),
            MKind::Union { r, .. } => self.union_lt(*r),
            _ => true,
        })
    }
    pub fn union_lt(&self, r: TRef) -> bool {
        self.union(r).cases.iter().any(|c| match c.item {
            None => false,
            Some(Item::Struct(_)) => true,
            Some(Item::Msg(m)) => self.msg_lt(m),
        })
    }
    /// The scalar leaf a union's discriminant path designates.
    pub fn disc_leaf(&self, r: TRef) -> Leaf {
        let u = self.union(r);
        self.leaves(u.root).into_iter().find(|l| l.path == u.path).expect("discriminant path")
    }
    /// Fewest bytes an encoding of m can have.
    pub fn min_size(&self, m: TRef) -> usize {
        self.msg(m).fields.iter().map(|f| {
            if f.optional {
                return 1;
            }
            match &f.kind {
                MKind::Item(i) => self.min_item(*i),
                MKind::List { max_len, .. } => prefix_size(*max_len),
                MKind::Str { max_len: None } => 1,
                MKind::Str { max_len: Some(n) } => prefix_size(*n),
                MKind::Payload => 0,
                MKind::Union { r, .. } => self.union(*r).cases.iter().map(|c| c.item.map(|i| self.min_item(i)).unwrap_or(0)).min().unwrap_or(0),
            }
        }).sum()
    }
    pub fn min_item(&self, i: Item) -> usize {
        match i {
            Item::Struct(s) => self.byte_size(s),
            Item::Msg(m) => self.min_size(m),
        }
    }
    pub fn all_structs(&self) -> Vec<TRef> {
        self.all(|p| p.structs.len())
    }
    pub fn all_msgs(&self) -> Vec<TRef> {
        self.all(|p| p.msgs.len())
    }
    pub fn all_unions(&self) -> Vec<TRef> {
        self.all(|p| p.unions.len())
    }
    pub fn all_enums(&self) -> Vec<TRef> {
        self.all(|p| p.enums.len())
    }
    fn all(&self, n: impl Fn(&Proto) -> usize) -> Vec<TRef> {
        let mut v = Vec::new();
        for (proto, p) in self.protos.iter().enumerate() {
            for idx in 0..n(p) {
                v.push(TRef { proto, idx });
            }
        }
        v
    }
}

/// Bytes of the smallest of 1, 2, 4, 8-byte prefixes that can hold max_len.
pub fn prefix_size(max_len: u64) -> usize {
    if max_len <= 0xFF {
        1
    } else if max_len <= 0xFFFF {
        2
    } else if max_len <= 0xFFFF_FFFF {
        4
    } else {
        8
    }
}
