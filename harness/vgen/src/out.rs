//! What a monitor reports.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

#[derive(Default)]
pub struct Out {
    pub stats: BTreeMap<String, u64>,
    pub seen: HashSet<u64>,
    pub viols: usize,
}

impl Out {
    pub fn new() -> Self {
        std::panic::set_hook(Box::new(|info| {
            let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into());
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{}{}", msg, loc)));
        }));
        Self::default()
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.into()).or_insert(0) += n;
    }
    pub fn see(&mut self, b: &[u8]) {
        self.seen.insert(vir::hash(b));
    }
    pub fn viol(&mut self, msg: impl AsRef<str>) {
        self.viols += 1;
        if self.viols <= 20 {
            println!("VIOL\t{}", msg.as_ref().replace(['\n', '\t'], " "));
        }
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.add("checks", 1);
        if !ok {
            self.viol(msg());
        }
        ok
    }
    pub fn sample(&self, s: &str) {
        println!("SAMPLE\t{}", s.replace(['\n', '\t'], " ").chars().take(1500).collect::<String>());
    }
    pub fn finish(mut self) {
        let n = self.seen.len() as u64;
        self.add("distinct", n);
        println!("STATS\t{{{}}}", self.stats.iter().map(|(k, v)| format!("{:?}:{}", k, v)).collect::<Vec<_>>().join(","));
    }
}

/// Err is the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}
