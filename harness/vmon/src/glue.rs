//! What a generated driver plugs into: tables of function pointers over the generated API.
use std::cell::{Cell, RefCell};
use std::io::Write;
pub use crate::Tables;
pub use vir::refm::{ErrK, Off, Sub, Val};
use bp3d_proto::message::{Error, WriteTo};
use vir::Rng;

thread_local! {
    /// Violations seen inside glue code (property, message).
    pub static NOTES: RefCell<Vec<(&'static str, String)>> = const { RefCell::new(Vec::new()) };
    /// Memory handed to messages under construction, released between cases.
    static DROPS: RefCell<Vec<Box<dyn FnOnce()>>> = const { RefCell::new(Vec::new()) };
}

pub fn note(prop: &'static str, msg: String) {
    NOTES.with(|n| n.borrow_mut().push((prop, msg)));
}

pub fn free_all() {
    let v: Vec<_> = DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()));
    for f in v {
        f();
    }
}

/// Gives a value a lifetime that lasts until free_all.
pub fn leak<'a, T: 'a>(v: T) -> &'a T {
    let p: *mut T = Box::into_raw(Box::new(v));
    let drop: Box<dyn FnOnce() + 'a> = Box::new(move || drop(unsafe { Box::from_raw(p) }));
    // The closure runs in free_all, when no built message is alive.
    let drop: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(drop) };
    DROPS.with(|d| d.borrow_mut().push(drop));
    unsafe { &*p }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    U(u64),
    I(i64),
    B(bool),
    F32(u32),
    F64(u64),
    E(Option<u64>),
}

impl V {
    pub fn e(self) -> u64 {
        match self {
            V::E(Some(v)) => v,
            _ => panic!("not a variant"),
        }
    }
    pub fn f(self) -> f64 {
        match self {
            V::F32(v) => f32::from_bits(v) as f64,
            V::F64(v) => f64::from_bits(v),
            _ => panic!("not a float"),
        }
    }
}

pub trait ToV {
    fn to_v(self) -> V;
}
pub trait FromV {
    fn from_v(v: V) -> Self;
}
pub trait ToU {
    fn to_u(self) -> u64;
}
pub trait FromU {
    fn from_u(v: u64) -> Self;
}

macro_rules! ints {
    ($v: ident $r: ty: $($t: ty)*) => { $(
        impl ToV for $t { fn to_v(self) -> V { V::$v(self as $r) } }
        impl FromV for $t { fn from_v(v: V) -> Self { match v { V::U(x) => x as $t, V::I(x) => x as $t, _ => panic!("not an integer") } } }
        impl ToU for $t { fn to_u(self) -> u64 { self as u64 } }
        impl FromU for $t { fn from_u(v: u64) -> Self { v as $t } }
        impl ToU for &$t { fn to_u(self) -> u64 { *self as u64 } }
    )* };
}
ints!(U u64: u8 u16 u32 u64 usize);
ints!(I i64: i8 i16 i32 i64 isize);

impl ToV for bool { fn to_v(self) -> V { V::B(self) } }
impl FromV for bool { fn from_v(v: V) -> Self { match v { V::B(b) => b, _ => panic!("not a bool") } } }
impl ToU for bool { fn to_u(self) -> u64 { self as u64 } }
impl ToU for &bool { fn to_u(self) -> u64 { *self as u64 } }
impl FromU for bool { fn from_u(v: u64) -> Self { v != 0 } }
impl ToV for f32 { fn to_v(self) -> V { V::F32(self.to_bits()) } }
impl FromV for f32 { fn from_v(v: V) -> Self { match v { V::F32(b) => f32::from_bits(b), V::F64(b) => f64::from_bits(b) as f32, _ => panic!("not a float") } } }
impl ToU for f32 { fn to_u(self) -> u64 { self.to_bits() as u64 } }
impl ToU for &f32 { fn to_u(self) -> u64 { self.to_bits() as u64 } }
impl FromU for f32 { fn from_u(v: u64) -> Self { f32::from_bits(v as u32) } }
impl ToV for f64 { fn to_v(self) -> V { V::F64(self.to_bits()) } }
impl FromV for f64 { fn from_v(v: V) -> Self { match v { V::F32(b) => f32::from_bits(b) as f64, V::F64(b) => f64::from_bits(b), _ => panic!("not a float") } } }
impl ToU for f64 { fn to_u(self) -> u64 { self.to_bits() } }
impl ToU for &f64 { fn to_u(self) -> u64 { self.to_bits() } }
impl FromU for f64 { fn from_u(v: u64) -> Self { f64::from_bits(v) } }

pub fn errk(e: Error) -> ErrK {
    match e {
        Error::InvalidUtf8 => ErrK::Utf8,
        Error::Truncated => ErrK::Truncated,
        Error::InvalidUnionDiscriminant(v) => ErrK::Disc(v as u64),
        Error::Io(e) => ErrK::Io(format!("{:?}: {}", e.kind(), e)),
    }
}

pub fn wire<T: WriteTo<Input = T>>(v: &T) -> Result<Vec<u8>, Error> {
    let mut o = Vec::new();
    T::write_to(v, &mut o)?;
    Ok(o)
}

pub fn sbytes<T: WriteTo<Input = T>>(v: &T) -> Vec<u8> {
    wire(v).expect("writing a struct to memory")
}

pub fn arr_val(len: usize, it: impl Iterator<Item = Vec<u8>>) -> Val {
    let v: Vec<Vec<u8>> = it.collect();
    if v.len() != len {
        note("C15", format!("array reports {} items but iterates over {}", len, v.len()));
    }
    Val::Arr(v)
}

const MAX_ITER: usize = 1 << 21;

fn drain<T>(len: usize, mut it: impl Iterator<Item = Result<T, Error>>) -> (Vec<T>, Option<ErrK>) {
    let mut v = Vec::new();
    let mut steps = 0usize;
    loop {
        match it.next() {
            None => {
                if v.len() != len {
                    note("C14", format!("list of {} items ended without error after {}", len, v.len()));
                }
                return (v, None);
            }
            Some(Ok(x)) => v.push(x),
            Some(Err(e)) => {
                let mut more = 0;
                while let Some(r) = it.next() {
                    more += 1;
                    if r.is_ok() {
                        note("C14", "an item was produced after a malformed item".into());
                        break;
                    }
                    if more > 4 {
                        note("C14", format!("list iteration does not end after a malformed item (list length {})", len));
                        break;
                    }
                }
                if steps + 1 + more > len {
                    note("C14", format!("list of {} items was iterated for {} steps", len, steps + 1 + more));
                }
                return (v, Some(errk(e)));
            }
        }
        steps += 1;
        if steps > len || steps > MAX_ITER {
            note("C14", format!("list of {} items yields more than {} items", len, steps - 1));
            return (v, None);
        }
    }
}

pub fn list_val(len: usize, it: impl Iterator<Item = Result<Val, Error>>) -> Val {
    let (v, e) = drain(len, it);
    Val::List(len, v, e)
}

pub fn list_off(len: usize, it: impl Iterator<Item = Result<(Val, Vec<Off>), Error>>) -> (Val, Sub) {
    let (v, e) = drain(len, it);
    let mut vals = Vec::new();
    let mut offs = Vec::new();
    for (a, b) in v {
        vals.push(a);
        offs.push(b);
    }
    (Val::List(len, vals, e), Sub::Items(offs))
}

pub fn opt_off<M, O>(m: Option<&M>, o: Option<&O>, f: impl FnOnce(&M, &O) -> (Val, Vec<Off>)) -> (Val, Sub) {
    match (m, o) {
        (None, None) => (Val::Opt(None), Sub::Absent),
        (Some(m), Some(o)) => {
            let (v, s) = f(m, o);
            (Val::Opt(Some(Box::new(v))), Sub::Present(s))
        }
        (m, o) => {
            note("C12", format!("nested message present: {}, its offsets present: {}", m.is_some(), o.is_some()));
            (Val::Opt(None), Sub::Absent)
        }
    }
}

pub fn off_size(size: usize, start: usize, end: usize) {
    if size != end.wrapping_sub(start) {
        note("C12", format!("size of range {}..{} reported as {}", start, end, size));
    }
}

/// How a message is put together.
pub struct K {
    pub rng: RefCell<Rng>,
    pub fixed: Option<u64>,
    pub longer: bool,
    pub lens: Cell<u64>,
    /// Whether items that cannot be written are offered to lists.
    pub spoils: bool,
    pub refusals: Cell<u64>,
}

impl K {
    pub fn new(seed: u64) -> K {
        K { rng: RefCell::new(Rng::new(seed)), fixed: None, longer: seed % 3 == 0, lens: Cell::new(0), spoils: false, refusals: Cell::new(0) }
    }
    pub fn spoil(&self) -> bool {
        self.spoils && self.rng.borrow_mut().chance(1, 3)
    }
    pub fn pick(&self, n: usize) -> usize {
        self.rng.borrow_mut().idx(n)
    }
    /// A string that is too long for length prefixes of one or two bytes.
    pub fn too_long(&self) -> &'static str {
        static S: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        S.get_or_init(|| "x".repeat(65537))
    }
    /// Returns true if the item that can be written, of the same batch, is in the list.
    pub fn refused(&self, refused: bool, len: usize, before: usize, batch: bool) -> bool {
        self.refusals.set(self.refusals.get() + 1);
        if !refused {
            note("C17", "an item with a string that cannot be expressed was appended to a list".into());
        } else if len != before && !(batch && len == before + 1) {
            note("C14", format!("a list of {} items reports {} after a refused item", before, len));
        }
        len == before + 1
    }
    pub fn mode(&self) -> u64 {
        self.fixed.unwrap_or_else(|| self.rng.borrow_mut().below(4))
    }
    pub fn len(&self, got: usize, want: usize) {
        self.lens.set(self.lens.get() + 1);
        if got != want {
            note("C14", format!("{} items appended, length reported as {}", want, got));
        }
    }
    /// The bytes of a struct, sometimes as the start of a longer buffer.
    pub fn bytes<'a>(&'a self, v: &'a [u8]) -> &'a [u8] {
        if self.longer && self.rng.borrow_mut().chance(1, 2) {
            let mut b = v.to_vec();
            let n = self.rng.borrow_mut().range(1, 5) as usize;
            b.extend(self.rng.borrow_mut().bytes(n));
            leak(b)
        } else {
            v
        }
    }
    /// Buffer for structs that are filled in place. Bits that belong to no field cannot be set
    /// through the API: they are there from the start, and every other bit is wrong.
    pub fn blank(&self, items: &[Vec<u8>], proto: usize, idx: usize) -> Vec<u8> {
        let mask = crate::field_mask(vir::TRef { proto, idx });
        let mut v = Vec::with_capacity(items.len() * mask.len());
        for i in items {
            v.extend(i.iter().zip(&mask).map(|(b, m)| b ^ m));
        }
        v
    }
}

pub fn v_num(v: &Val) -> u64 {
    match v { Val::Num(n) => *n, _ => panic!("value") }
}
pub fn v_bytes(v: &Val) -> &[u8] {
    match v { Val::Bytes(b) => b, _ => panic!("value") }
}
pub fn v_str(v: &Val) -> &str {
    match v { Val::Str(s) => s, _ => panic!("value") }
}
pub fn v_payload(v: &Val) -> &[u8] {
    match v { Val::Payload(s) => s, _ => panic!("value") }
}
pub fn v_arr(v: &Val) -> &[Vec<u8>] {
    match v { Val::Arr(s) => s, _ => panic!("value") }
}
pub fn v_list(v: &Val) -> &[Val] {
    match v { Val::List(_, s, _) => s, _ => panic!("value") }
}
pub fn v_msg(v: &Val) -> &[Val] {
    match v { Val::Msg(s) => s, _ => panic!("value") }
}
pub fn v_opt(v: &Val) -> Option<&Val> {
    match v { Val::Opt(s) => s.as_deref(), _ => panic!("value") }
}
pub fn v_union(v: &Val) -> (usize, Option<&Val>) {
    match v { Val::Union(c, s) => (*c, s.as_deref()), _ => panic!("value") }
}

pub enum LeafGlue {
    S {
        get_raw: fn(&[u8]) -> u64,
        set_raw: fn(&mut [u8], u64),
        get: fn(&[u8]) -> V,
        set: fn(&mut [u8], V),
    },
    A {
        len: fn(&[u8]) -> usize,
        get: fn(&[u8], usize) -> u64,
        iter: fn(&[u8]) -> Vec<u64>,
        set: fn(&mut [u8], usize, u64),
        mut_get: fn(&mut [u8], usize) -> u64,
        mut_len: fn(&mut [u8]) -> usize,
        mut_iter: fn(&mut [u8]) -> Vec<u64>,
        bytes: Option<(fn(&[u8]) -> Vec<u8>, fn(&mut [u8], usize, u8))>,
    },
}

pub struct StructGlue {
    pub r: (usize, usize),
    pub size: usize,
    pub fixed: usize,
    pub stack: fn() -> Vec<u8>,
    pub decode: fn(&[u8]) -> Result<(usize, Vec<u8>), ErrK>,
    pub write: fn(&[u8], &mut dyn Write) -> Result<(), ErrK>,
    pub fill: fn(&mut [u8], &[u8]),
    pub fill_via_mut: fn(&mut [u8], &[u8]),
    pub leaves: &'static [LeafGlue],
}

/// A buffer that is smaller every time it is looked at.
pub struct Shrink {
    data: Box<[u8]>,
    looks: std::cell::Cell<usize>,
}

impl Shrink {
    pub fn new(data: &[u8]) -> Shrink {
        Shrink { data: data.into(), looks: std::cell::Cell::new(0) }
    }
    fn left(&self) -> usize {
        let n = self.looks.get();
        self.looks.set(n + 1);
        self.data.len().saturating_sub(n)
    }
}

impl AsRef<[u8]> for Shrink {
    fn as_ref(&self) -> &[u8] {
        // A copy of its own, so that nothing lies behind it.
        Box::leak(self.data[..self.left()].to_vec().into_boxed_slice())
    }
}

impl AsMut<[u8]> for Shrink {
    fn as_mut(&mut self) -> &mut [u8] {
        let n = self.left();
        self.data = self.data[..n].into();
        &mut self.data
    }
}

pub struct ArrGlue {
    pub field: usize,
    pub s: (usize, usize),
    pub from_parts: fn(&[u8], usize) -> Option<usize>,
    pub get: fn(&[u8], usize, usize) -> Vec<u8>,
    pub iter: fn(&[u8], usize) -> Vec<Vec<u8>>,
    pub get_mut: fn(&mut [u8], usize, usize, &[u8]),
    pub iter_mut: fn(&mut [u8], usize, usize, &[u8]) -> usize,
    pub mixed: fn(&mut [u8], usize, usize, &[u8]) -> (Vec<u8>, Vec<Vec<u8>>),
    pub append: fn(&[Vec<u8>], bool) -> Result<(usize, Vec<u8>), ErrK>,
    pub append_fail: fn(&[Vec<u8>], usize, bool) -> (Result<(), ErrK>, usize, Vec<u8>),
    pub appended: fn(&[Vec<u8>], usize, &[u8]) -> Result<(Vec<Vec<u8>>, Vec<Vec<u8>>, usize, Vec<Vec<u8>>, Vec<u8>), ErrK>,
    pub odd: fn(&mut [u8], &[Vec<u8>], usize, usize, usize, &[u8]),
    pub inplace: fn(&[u8], usize) -> Result<Vec<u8>, ErrK>,
    pub decoded: fn(&[u8], usize) -> Result<(usize, Vec<u8>, Vec<u8>, Vec<Vec<u8>>), ErrK>,
}

pub struct MsgGlue {
    pub r: (usize, usize),
    pub decode: fn(&[u8]) -> Result<(usize, Val), ErrK>,
    pub decode_off: fn(&[u8]) -> Result<(usize, Val, Vec<Off>), ErrK>,
    pub encode: fn(&Val, &K, &mut dyn Write) -> Result<(), ErrK>,
    pub size_of: fn(&Val, &K) -> Result<usize, ErrK>,
    pub recode: fn(&[u8], &mut dyn Write) -> Result<(), ErrK>,
    pub arrays: &'static [ArrGlue],
}

pub struct UnionGlue {
    pub r: (usize, usize),
    pub read: fn(&[u8], &[u8]) -> Result<(usize, Val), ErrK>,
    pub write: fn(&Val, &K, &[u8], &mut dyn Write) -> Result<(), ErrK>,
    pub set: fn(&Val, &K, &mut [u8]),
    pub cases: fn(&Val, &K) -> Vec<bool>,
}

pub struct EnumGlue {
    pub r: (usize, usize),
    pub values: &'static [u64],
}
