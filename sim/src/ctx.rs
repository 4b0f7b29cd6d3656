//! Per-run context: decisions, event log, statistics, violations.

use crate::choice::Src;
use crate::interpose;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Viol {
    /// stable identification of what failed
    pub class: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Viol {
        class: class.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::ctx::viol($class, format!($($arg)*));
        }
    };
}

pub struct Inner {
    pub src: Src,
    pub ev_hash: u64,
    pub events: u64,
    pub trace: Option<Vec<String>>,
    pub sig: u64,
    pub nontrivial: bool,
    pub stats: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub sample: Vec<String>,
    pub probes: u64,
}

#[derive(Clone)]
pub struct Cx(pub Arc<Mutex<Inner>>);

fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 32)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 29)
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h, u64::from_le_bytes(c.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    let rem = it.remainder();
    last[..rem.len()].copy_from_slice(rem);
    h = mix(h, u64::from_le_bytes(last));
    mix(h, b.len() as u64)
}

impl Cx {
    pub fn new(src: Src, tracing: bool) -> Cx {
        Cx(Arc::new(Mutex::new(Inner {
            src,
            ev_hash: 0x1234_5678,
            events: 0,
            trace: if tracing { Some(Vec::new()) } else { None },
            sig: 0,
            nontrivial: false,
            stats: BTreeMap::new(),
            sim_ns: 0,
            sample: Vec::new(),
            probes: 0,
        })))
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        let _g = interpose::harness();
        let mut i = self.0.lock().unwrap_or_else(|e| e.into_inner());
        f(&mut i)
    }
    pub fn below(&self, n: u64) -> u64 {
        self.with(|i| i.src.below(n))
    }
    pub fn usize(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.with(|i| i.src.chance(num, den))
    }
    pub fn range(&self, lo: u64, hi: u64) -> u64 {
        self.with(|i| i.src.range(lo, hi))
    }
    pub fn weighted(&self, w: &[u64]) -> usize {
        self.with(|i| i.src.weighted(w))
    }
    pub fn magnitude(&self, max: u64) -> u64 {
        self.with(|i| i.src.magnitude(max))
    }
    pub fn pick<T: Clone>(&self, items: &[T]) -> T {
        self.with(|i| i.src.pick(items).clone())
    }
    pub fn seed(&self) -> u64 {
        self.with(|i| i.src.seed())
    }
    /// Count a fault or probe that actually fired.
    pub fn count(&self, name: &str) {
        self.count_n(name, 1)
    }
    pub fn count_n(&self, name: &str, n: u64) {
        if n == 0 {
            return;
        }
        self.with(|i| {
            *i.stats.entry(name.to_string()).or_insert(0) += n;
            if name.starts_with("fault.") {
                i.nontrivial = true;
            }
        })
    }
    /// Part of the state/interleaving signature of the run.
    pub fn sig(&self, v: u64) {
        self.with(|i| i.sig = mix(i.sig, v))
    }
    pub fn sig_str(&self, s: &str) {
        self.with(|i| i.sig = hash_bytes(i.sig, s.as_bytes()))
    }
    pub fn nontrivial(&self) {
        self.with(|i| i.nontrivial = true)
    }
    /// An event of the run: part of the event log hash, and of the trace when tracing.
    pub fn ev(&self, s: impl AsRef<str>) {
        self.with(|i| {
            let s = s.as_ref();
            i.ev_hash = hash_bytes(i.ev_hash, s.as_bytes());
            i.events += 1;
            if let Some(t) = &mut i.trace {
                if t.len() < 4000 {
                    t.push(s.to_string());
                }
            }
        })
    }
    /// A frequent event with numeric parameters; `tag` is static text.
    pub fn evn(&self, tag: &'static str, a: u64, b: u64) {
        self.with(|i| {
            i.ev_hash = mix(mix(mix(i.ev_hash, tag.len() as u64 ^ ((tag.as_bytes()[0] as u64) << 8)), a), b);
            i.events += 1;
            if let Some(t) = &mut i.trace {
                if t.len() < 4000 {
                    t.push(format!("{tag} {a} {b}"));
                }
            }
        })
    }
    pub fn ev_data(&self, tag: &'static str, data: &[u8]) {
        self.with(|i| {
            i.ev_hash = hash_bytes(mix(i.ev_hash, tag.len() as u64), data);
            i.events += 1;
            let h = i.ev_hash;
            if let Some(t) = &mut i.trace {
                if t.len() < 4000 {
                    t.push(format!("{tag} {} bytes (log {h:016x})", data.len()));
                }
            }
        })
    }
    pub fn sample(&self, s: impl AsRef<str>) {
        self.with(|i| {
            if i.sample.len() < 12 {
                i.sample.push(s.as_ref().to_string())
            }
        })
    }
    pub fn advance(&self, ns: u64) {
        let _g = interpose::harness();
        if let Some(e) = interpose::env() {
            e.clock_ns = e.clock_ns.saturating_add(ns as i64);
        }
        self.with(|i| i.sim_ns += ns);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Install a panic hook that records the message instead of printing it.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _g = interpose::harness();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or(("panic".into(), String::new()))
}

/// Run library code; a panic is returned as Err(message).
pub fn lib_catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = {
        let _l = interpose::library();
        catch_unwind(AssertUnwindSafe(f))
    };
    r.map_err(|_| {
        let (m, l) = take_panic();
        format!("{m} at {l}")
    })
}
/// Run library code; a panic is a violation.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match lib_catch(f) {
        Ok(v) => Ok(v),
        Err(m) => viol(format!("panic in {what}"), format!("{what} panicked: {m}")),
    }
}
