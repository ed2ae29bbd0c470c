//! Monitors: run the real generated code and runtime, compare what it does with the reference.
pub mod glue;
mod codecs;
mod msgs;
mod structs;
mod unions;

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use glue::*;
use vir::{Rng, TRef, World};

#[derive(Clone, Copy)]
pub struct Tables {
    pub family: &'static str,
    pub seed: u64,
    pub index: usize,
    pub structs: &'static [StructGlue],
    pub msgs: &'static [MsgGlue],
    pub unions: &'static [UnionGlue],
    pub enums: &'static [EnumGlue],
}

static WORLD: OnceLock<World> = OnceLock::new();

pub fn world() -> &'static World {
    WORLD.get().expect("world")
}

/// Ones where a bit belongs to a field.
pub fn field_mask(r: TRef) -> Vec<u8> {
    thread_local! { static CACHE: RefCell<BTreeMap<TRef, Vec<u8>>> = const { RefCell::new(BTreeMap::new()) }; }
    CACHE.with(|c| c.borrow_mut().entry(r).or_insert_with(|| {
        let w = world();
        let mut m = vec![0u8; w.byte_size(r)];
        for l in w.leaves(r) {
            let n = l.bits();
            for k in 0..n {
                vir::refm::set_bits(&mut m, l.off + k, 1, l.big, 1);
            }
        }
        m
    }).clone())
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Runs code under test; Err is the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub struct Ctx {
    pub prop: String,
    pub rng: Rng,
    pub seed: u64,
    pub tier: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub seen: HashSet<u64>,
    pub viols: Vec<String>,
    pub start: Instant,
    pub budget: Duration,
    /// Rounds of random work per item.
    pub rounds: usize,
    pub miri: bool,
    pub what: String,
}

pub const MAX_VIOLS: usize = 20;

impl Ctx {
    /// Whether to do something that panics: under Miri a panic takes as long as hundreds of accesses.
    pub fn dear(&mut self) -> bool {
        !self.miri || self.rng.chance(1, 12)
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    pub fn see(&mut self, parts: &[u8]) {
        self.seen.insert(vir::hash(parts));
    }
    pub fn see_u(&mut self, parts: &[u64]) {
        let mut h = 0xcbf29ce484222325u64;
        for p in parts {
            h = (h ^ p).wrapping_mul(0x100000001b3).rotate_left(23);
        }
        self.seen.insert(h);
    }
    pub fn viol(&mut self, msg: String) {
        if self.viols.len() < MAX_VIOLS {
            let m = format!("{}: {}", self.what, msg);
            println!("VIOL\t{}", m.replace(['\n', '\t'], " "));
            self.viols.push(m);
        }
    }
    pub fn full(&self) -> bool {
        self.viols.len() >= MAX_VIOLS
    }
    pub fn late(&self) -> bool {
        self.start.elapsed() > self.budget
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.add("checks", 1);
        if !ok {
            let m = msg();
            self.viol(m);
        }
        ok
    }
    /// Takes the violations noted inside glue code; reports those of the given properties.
    pub fn notes(&mut self, props: &[&str], ctx: impl Fn() -> String) {
        let v: Vec<_> = NOTES.with(|n| std::mem::take(&mut *n.borrow_mut()));
        for (p, m) in v {
            if props.contains(&p) {
                let m = format!("{} [{}]", m, ctx());
                self.viol(m);
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(96).map(|v| format!("{:02x}", v)).collect();
    if b.len() > 96 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

pub fn short<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{:?}", v);
    if s.len() > 400 {
        let mut n = 400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}

pub fn run(t: Option<Tables>) {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = args.get(2).and_then(|v| v.parse().ok()).unwrap_or(1);
    let tier: u64 = args.get(3).and_then(|v| v.parse().ok()).unwrap_or(0);
    let ms: u64 = args.get(4).and_then(|v| v.parse().ok()).unwrap_or(20_000);
    let rounds: usize = args.get(5).and_then(|v| v.parse().ok()).unwrap_or(0);
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if QUIET.with(|q| q.get()) {
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{}{}", msg, loc)));
        } else {
            println!("CRASH\t{}{}", msg, loc);
        }
    }));
    let mut c = Ctx {
        rng: Rng::of(&[seed, vir::hash(prop.as_bytes()), t.map(|t| t.index as u64 + 1).unwrap_or(0)]),
        prop: prop.clone(),
        seed,
        tier,
        stats: BTreeMap::new(),
        seen: HashSet::new(),
        viols: Vec::new(),
        start: Instant::now(),
        budget: Duration::from_millis(ms),
        rounds,
        miri: cfg!(miri),
        what: String::new(),
    };
    if let Some(t) = &t {
        let _ = WORLD.set(vir::corpus::world(t.family, t.seed, t.index));
    }
    match (prop.as_str(), &t) {
        ("C01", Some(t)) => structs::c01(&mut c, t),
        ("C02", Some(t)) => structs::c02(&mut c, t),
        ("C03", Some(t)) => {
            structs::c03(&mut c, t);
            msgs::c03(&mut c, t);
        }
        ("C04", Some(t)) => structs::c04(&mut c, t),
        ("C05", Some(t)) => structs::c05(&mut c, t),
        ("C06", Some(t)) => structs::c06(&mut c, t),
        ("C07", Some(t)) => structs::c07(&mut c, t),
        ("C08", Some(t)) => msgs::c08(&mut c, t),
        ("C09", Some(t)) => msgs::c09(&mut c, t),
        ("C10", Some(t)) => msgs::c10(&mut c, t),
        ("C11", Some(t)) => msgs::c11(&mut c, t),
        ("C12", Some(t)) => msgs::c12(&mut c, t),
        ("C13", Some(t)) => unions::c13(&mut c, t),
        ("C14", Some(t)) => msgs::c14(&mut c, t),
        ("C15", Some(t)) => msgs::c15(&mut c, t),
        ("C16", Some(t)) => msgs::c16(&mut c, t),
        ("C17", Some(t)) => msgs::c17(&mut c, t),
        ("C18", Some(t)) => {
            structs::touch(&mut c, t);
            msgs::touch(&mut c, t);
            unions::c13(&mut c, t);
        }
        ("C21", Some(t)) => {
            c.add("structs", t.structs.len() as u64);
            c.add("messages", t.msgs.len() as u64);
            c.add("unions", t.unions.len() as u64);
            c.add("enums", t.enums.len() as u64);
            c.add("accessors", t.structs.iter().map(|s| s.leaves.len() as u64).sum());
            c.see_u(&[t.index as u64, vir::hash(t.family.as_bytes())]);
        }
        ("C23", Some(t)) => {
            structs::c23(&mut c, t);
            msgs::c23(&mut c, t);
        }
        (p, None) => codecs::run(&mut c, p),
        _ => {
            println!("CRASH\tno monitor for {}", prop);
            std::process::exit(3);
        }
    }
    // UB of built messages must show before their memory goes away.
    free_all();
    let seen = c.seen.len() as u64;
    c.add("distinct", seen);
    c.add("violations", c.viols.len() as u64);
    println!("STATS\t{{{}}}", c.stats.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
}

pub fn main(t: Tables) {
    run(Some(t));
}

pub fn tref(r: (usize, usize)) -> TRef {
    TRef { proto: r.0, idx: r.1 }
}
