//! What every run has: counters, a trace, and its verdict.

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use crate::rng::{hash_bytes, mix};

#[derive(Clone, Debug)]
pub struct Violation {
    /// What kind of violation, kept while minimising.
    pub class: String,
    pub detail: String,
}

pub type Res = Result<(), Violation>;

pub fn fail<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    let mut detail: String = detail.into();
    if detail.len() > 4000 {
        let mut n = 4000;
        while !detail.is_char_boundary(n) {
            n -= 1;
        }
        detail.truncate(n);
        detail.push_str("...");
    }
    Err(Violation {
        class: class.to_owned(),
        detail,
    })
}

/// Payload of panics injected by the simulator.
pub struct Injected;

pub fn inject_panic() -> ! {
    resume_unwind(Box::new(Injected))
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map_or_else(String::new, |l| format!("{}:{}", l.file(), l.line()));
        let msg = message(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn message(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_owned()
    }
}

pub enum Caught {
    /// Injected by the simulator.
    Injected,
    /// Somewhere in the library.
    Library(String),
    /// In the simulator itself.
    Harness(String),
}

/// Run something, telling apart where a panic came from.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    LAST_PANIC.with(|p| p.borrow_mut().take());
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if p.is::<Injected>() {
            return Caught::Injected;
        }
        let (loc, msg) = LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_default();
        let text = format!("{msg} ({loc})");
        if loc.starts_with("src/") || loc.contains("/verif/sim/") {
            Caught::Harness(text)
        } else {
            Caught::Library(text)
        }
    })
}

/// Per-run state.
#[derive(Default)]
pub struct Ctx {
    pub stats: BTreeMap<String, u64>,
    pub ticks: u64,
    pub trace: u64,
    pub states: Vec<u64>,
    /// By the rule of the scenario.
    pub nontrivial: bool,
    /// Full event log, when asked for.
    pub log: Option<Vec<String>>,
}

impl Ctx {
    /// Something was injected.
    pub fn fault(&mut self, kind: &str) {
        self.count(&format!("fault.{kind}"));
    }

    /// Something worth reaching was reached.
    pub fn probe(&mut self, kind: &str) {
        self.count(&format!("probe.{kind}"));
    }

    pub fn count(&mut self, key: &str) {
        self.add(key, 1);
    }

    pub fn add(&mut self, key: &str, n: u64) {
        if let Some(v) = self.stats.get_mut(key) {
            *v += n;
        } else {
            self.stats.insert(key.to_owned(), n);
        }
    }

    /// One step of simulated time.
    pub fn tick(&mut self, what: &str, data: &[u8]) {
        self.ticks += 1;
        self.trace = mix(self.trace ^ hash_bytes(hash_bytes(0, what.as_bytes()), data));
        if let Some(log) = &mut self.log {
            let text = String::from_utf8_lossy(data);
            log.push(format!("{} {what} {text:?}", self.ticks));
        }
    }

    /// A state of the system was reached.
    pub fn state(&mut self, data: &[u8]) {
        self.states.push(hash_bytes(7, data));
    }
}
