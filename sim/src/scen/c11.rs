//! Documents are isolated from each other and from the schedule.

use std::cell::{Cell, RefCell};
use std::fmt;
use std::io;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

use nondestructive::yaml::{self, Document, Value};
use serde::de::{DeserializeSeed, IntoDeserializer};
use serde::{Deserialize, Serialize};

use crate::cb;
use crate::content::{Gate, Hinted, Recorder, Ser, HINTS};
use crate::engine::{About, Scenario};
use ndbelow::fine::{self, Why};
use crate::model::Tree;
use crate::ops::{exec, gen_op, resolve, Op, OpCfg};
use crate::read::{digest, text};
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt::{catch, fail, inject_panic, Caught, Ctx, Res, Violation};
use crate::seam;
use crate::world::{bug, kind, restore, restore_tree, show, snapshot, snapshot_tree, values, Start};

/// Where a document comes from.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum From {
    Own(u8),
    Shared(u8),
}

/// What is done with it.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Use {
    Read,
    Save,
    Show(u8),
    Ser,
    De(u8),
    Clone(u8),
    Snapshot(u8, bool),
    Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Do {
    Load(u8, Start),
    Edit(u8, Op),
    Use(From, Use),
}

/// An operation, and the call of caller code within it which panics.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TOp(Do, Option<u8>);

#[derive(Serialize, Deserialize)]
struct Prog {
    ops: Vec<TOp>,
    /// Done from within caller code of the others.
    side: Vec<Do>,
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    shared: Vec<Start>,
    progs: Vec<Prog>,
    workers: u8,
    sched: u64,
    /// One of this many chances to yield is taken.
    grain: u8,
    /// One of this many chances to do something else from within caller code
    /// is taken.
    reenter: u8,
    /// Threads are preempted inside of the library after up to two to this
    /// power edges of its control flow, not at all if zero.
    #[serde(default)]
    fine: u8,
    hashes: Vec<u64>,
}

pub struct C11;

const SLOTS: usize = 3;

#[derive(Default)]
struct Own {
    slots: [Option<Document>; SLOTS],
    log: Vec<String>,
    done: usize,
}

impl Own {
    fn doc<'a>(&'a self, from: From, shared: &'a [Arc<Document>]) -> Option<&'a Document> {
        match from {
            From::Own(n) => self.slots[n as usize % SLOTS].as_ref(),
            From::Shared(n) if !shared.is_empty() => Some(&shared[n as usize % shared.len()]),
            From::Shared(_) => None,
        }
    }

    /// Do something, and say what came of it.
    fn act(&mut self, what: &Do, shared: &[Arc<Document>]) -> String {
        match what {
            Do::Load(slot, start) => {
                let bytes = fine::calm(|| start.bytes(&mut Ctx::default()));
                let r = yaml::from_slice(cb::K(&bytes));
                let said = match &r {
                    Ok(doc) => format!("loaded {}", show(&text(doc))),
                    Err(e) => format!("{e} {:?} {:?}", e.span(), e.kind()),
                };
                self.slots[*slot as usize % SLOTS] = r.ok();
                said
            }
            Do::Edit(slot, op) => {
                let Some(doc) = &mut self.slots[*slot as usize % SLOTS] else { return "nothing".into() };
                let act = fine::calm(|| {
                    let tree = Tree::learn(doc);
                    if tree.root.size() > 120 {
                        return None;
                    }
                    resolve(&tree, op)
                });
                let Some(act) = act else { return "nothing".into() };
                let r = exec(doc, &act);
                format!("{} {r:?}", kind(&act))
            }
            Do::Use(from, Use::Drop) => {
                if let From::Own(n) = from {
                    self.slots[*n as usize % SLOTS] = None;
                }
                "dropped".into()
            }
            Do::Use(from, to) => {
                let Some(doc) = self.doc(*from, shared) else { return "nothing".into() };
                let (said, next) = look(doc, *to);
                if let (Some(doc), Use::Clone(n) | Use::Snapshot(n, _)) = (next, to) {
                    self.slots[*n as usize % SLOTS] = Some(doc);
                }
                said
            }
        }
    }

    /// As above, with a panic of caller code caught.
    fn step(&mut self, what: &Do, shared: &[Arc<Document>]) -> Res {
        let r = catch(|| self.act(what, shared));
        let said = match r {
            Ok(s) => s,
            Err(Caught::Injected) => "panicked".into(),
            Err(Caught::Library(m)) => return fail("panic", m),
            Err(Caught::Harness(m)) => return Err(bug(m)),
        };
        let slot = match what {
            Do::Load(n, _) | Do::Edit(n, _) | Do::Use(From::Own(n), _) => Some(*n),
            Do::Use(..) => None,
        };
        let after = match slot.and_then(|n| self.slots[n as usize % SLOTS].as_ref()) {
            // Reading everything takes a while.
            Some(doc) if self.log.len() % 3 == 0 => {
                cb::with(|_| (), || format!("{} {}", show(&text(doc)), show(&digest(doc, true))))
            }
            Some(doc) => cb::with(|_| (), || show(&text(doc))),
            None => String::new(),
        };
        self.log.push(format!("{said} => {after}"));
        Ok(())
    }
}

struct Out(Vec<u8>);

impl io::Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        cb::call("output");
        let n = b.len().min(7);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        cb::call("text");
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

/// Read everything there is, with something else going on in between.
fn slowly(v: &Value<'_>, out: &mut Vec<u8>) {
    use std::io::Write;
    cb::call("read");
    let _ = write!(out, "{}{v:?}", v.id());
    if let Some(m) = v.as_mapping() {
        let mut it = m.iter();
        let mut back = m.len() % 2 == 1;
        while let Some((k, v)) = if back { it.next_back() } else { it.next() } {
            cb::call("entry");
            back = !back;
            let found = std::str::from_utf8(k).ok().and_then(|k| m.get(k)).map(|v| v.id());
            let _ = write!(out, "{k:?}:{:?}{found:?}", it.size_hint());
            slowly(&v, out);
        }
    }
    if let Some(s) = v.as_sequence() {
        let mut it = s.iter();
        let mut back = s.len() % 2 == 1;
        while let Some(v) = if back { it.next_back() } else { it.next() } {
            cb::call("entry");
            back = !back;
            slowly(&v, out);
        }
    }
}

fn look(doc: &Document, to: Use) -> (String, Option<Document>) {
    let mut next = None;
    let said = match to {
        Use::Read => {
            let mut out = Vec::new();
            slowly(&doc.as_ref(), &mut out);
            show(&out)
        }
        Use::Save => {
            let mut out = Out(Vec::new());
            let r = doc.write_to(&mut out);
            format!("{r:?} {}", show(&out.0))
        }
        Use::Show(n) => {
            use std::fmt::Write;
            let mut out = Out(Vec::new());
            let all = values(doc);
            let v = &all[n as usize % all.len()];
            let r = if n % 2 == 0 { write!(out, "{doc}") } else { write!(out, "{v} {v:?}") };
            format!("{r:?} {}", show(&out.0))
        }
        Use::Ser => format!("{:?}", doc.as_ref().serialize(Ser(Gate::new(None, false))).map_err(|e| e.msg)),
        Use::De(hint) => {
            let r = Hinted(Recorder(Gate::new(None, false)), hint).deserialize(doc.into_deserializer());
            format!("{:?}", r.map_err(|e| e.to_string()))
        }
        Use::Clone(_) => {
            next = Some(doc.clone());
            "cloned".into()
        }
        Use::Snapshot(_, tree) => {
            let r = if tree {
                snapshot_tree(doc, None)
                    .0
                    .and_then(|c| restore_tree::<Document>(&c, None).0)
                    .map_err(|e| e.msg)
            } else {
                snapshot(doc).and_then(|b| restore(&b))
            };
            match r {
                Ok(d) => {
                    next = Some(d);
                    "restored".into()
                }
                Err(e) => e,
            }
        }
        Use::Drop => String::new(),
    };
    (said, next)
}

/// Who runs. Everyone else waits for their turn.
struct Inner {
    rng: Rng,
    turn: usize,
    /// Threads made to wait for another to touch the same static memory.
    held: Vec<Option<usize>>,
    /// How often static memory was touched.
    places: Vec<(usize, u64)>,
    live: Vec<bool>,
    waiting: Vec<Option<Running>>,
    trace: u64,
    chances: u64,
    switches: u64,
    inside: u64,
    preempted: u64,
    statics: u64,
    changed: u64,
    met: u64,
    blocked: u64,
    edges: u64,
}

struct Sched {
    fine: u8,
    inner: Mutex<Inner>,
    wake: Vec<Condvar>,
    grain: usize,
}

impl Sched {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Let someone else run, maybe.
    fn chance(&self, me: usize, inside: bool) {
        let mut s = self.lock();
        s.chances += 1;
        if !s.rng.chance(1, self.grain.max(1)) {
            return;
        }
        if self.pass(&mut s, me) {
            s.switches += 1;
            if inside {
                s.inside += 1;
            }
            drop(s);
            self.wait(me);
        }
    }

    /// From within library code. Says when to ask again.
    fn preempt(&self, me: usize, why: Why) -> u64 {
        let mut guard = self.lock();
        let s = &mut *guard;
        let next = gap(s, self.fine);
        let now = match why {
            Why::Time => {
                if s.rng.chance(1, 64) {
                    s.held.fill(None);
                }
                true
            }
            Why::Static(at) | Why::Shared(at) => {
                match why {
                    Why::Static(_) => s.statics += 1,
                    _ => s.changed += 1,
                }
                // Meeting someone there is what they were made to wait for.
                for w in s.held.iter_mut().filter(|h| **h == Some(at)) {
                    *w = None;
                    s.met += 1;
                }
                let count = match s.places.iter_mut().find(|p| p.0 == at) {
                    Some(p) => {
                        p.1 += 1;
                        p.1
                    }
                    None => {
                        s.places.push((at, 1));
                        1
                    }
                };
                let now = self.fine > 0 && (count <= 24 || s.preempted < PREEMPTIONS) && s.rng.chance(1, 2);
                if now && count <= 24 && s.rng.chance(1, 2) {
                    s.held[me] = Some(at);
                }
                now
            }
            Why::Blocked => {
                s.blocked += 1;
                s.held.fill(None);
                true
            }
        };
        if now && self.pass(s, me) {
            s.preempted += 1;
            drop(guard);
            self.wait(me);
        }
        next
    }

    fn pass(&self, s: &mut Inner, me: usize) -> bool {
        let mut free: Vec<usize> = (0..s.live.len()).filter(|w| s.live[*w] && s.held[*w].is_none()).collect();
        if free.is_empty() {
            s.held.fill(None);
            free = (0..s.live.len()).filter(|w| s.live[*w]).collect();
        }
        if free.is_empty() {
            return false;
        }
        let next = *s.rng.pick(&free);
        s.trace = mix(s.trace ^ (next as u64 + 1));
        if next == me {
            return false;
        }
        s.turn = next;
        self.wake[next].notify_one();
        true
    }

    fn wait(&self, me: usize) {
        let mut s = self.lock();
        while s.turn != me {
            s = self.wake[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }
}

/// So that runs come to an end in reasonable time.
const PREEMPTIONS: u64 = 600;

/// How long to leave a thread alone: now and then for a few edges only.
fn gap(s: &mut Inner, fine: u8) -> u64 {
    if fine == 0 {
        return 1 << 16;
    }
    if s.preempted >= PREEMPTIONS {
        return 50_000;
    }
    let n = if s.rng.chance(1, 40) { 13 } else { s.rng.range(0, fine as usize) };
    s.rng.range(1, 1 << n) as u64
}

/// A program, between two of its operations.
struct Running {
    prog: usize,
    own: Own,
    side: Own,
    result: Res,
    reentered: u64,
    panicked: u64,
    last: Option<usize>,
    moved: u64,
}

impl Running {
    fn new(prog: usize) -> Self {
        Running {
            prog,
            own: Own::default(),
            side: Own::default(),
            result: Ok(()),
            reentered: 0,
            panicked: 0,
            last: None,
            moved: 0,
        }
    }

    fn finished(&self, plan: &Prog) -> bool {
        self.result.is_err() || self.own.done >= plan.ops.len()
    }

    /// The next operation. `sched`: who to yield to.
    fn next(mut self, plan: &Arc<Plan>, shared: &Arc<Vec<Arc<Document>>>, sched: Option<(&Arc<Sched>, usize)>) -> Self {
        let prog = self.prog;
        let TOp(what, panic_at) = plan.progs[prog].ops[self.own.done].clone();
        self.own.done += 1;
        let side = Rc::new(RefCell::new(std::mem::take(&mut self.side)));
        let calls = Rc::new(Cell::new(0u64));
        let reentered = Rc::new(Cell::new(0u64));
        let failed: Rc<RefCell<Res>> = Rc::new(RefCell::new(Ok(())));
        let hook = {
            let (side, calls, reentered, failed) = (side.clone(), calls.clone(), reentered.clone(), failed.clone());
            let (plan, shared) = (plan.clone(), shared.clone());
            let sched = sched.map(|(s, me)| (s.clone(), me));
            let mut rng = Rng::new(mix(plan.sched ^ hash_bytes(prog as u64, &self.own.done.to_le_bytes())));
            move |_: &'static str| {
                let n = calls.get();
                calls.set(n + 1);
                if let Some((sched, me)) = &sched {
                    fine::without(|| sched.chance(*me, true));
                    if rng.chance(1, plan.reenter.max(1) as usize) && failed.borrow().is_ok() {
                        let mut side = side.borrow_mut();
                        let at = side.done;
                        if let Some(what) = plan.progs[prog].side.get(at) {
                            side.done += 1;
                            reentered.set(reentered.get() + 1);
                            let r = side.step(what, &shared);
                            *failed.borrow_mut() = r;
                        }
                    }
                }
                if Some(n) == panic_at.map(u64::from) {
                    inject_panic();
                }
            }
        };
        let own = &mut self.own;
        let result = cb::with(hook, || own.step(&what, shared));
        self.result = result.and(std::mem::replace(&mut *failed.borrow_mut(), Ok(())));
        self.reentered += reentered.get();
        if panic_at.is_some_and(|n| calls.get() > u64::from(n)) {
            self.panicked += 1;
        }
        self.side = std::mem::take(&mut *side.borrow_mut());
        // What was not done from within is done at last.
        if self.finished(&plan.progs[prog]) && self.result.is_ok() {
            for doc in self.own.slots.iter().flatten() {
                let digest = fine::calm(|| cb::with(|_| (), || show(&digest(doc, true))));
                self.own.log.push(digest);
            }
            while let Some(what) = plan.progs[prog].side.get(self.side.done) {
                self.side.done += 1;
                let r = self.side.step(what, shared);
                if r.is_err() {
                    self.result = r;
                    break;
                }
            }
        }
        self
    }
}

fn worker(me: usize, sched: &Arc<Sched>, plan: &Arc<Plan>, shared: &Arc<Vec<Arc<Document>>>, hash: u64) {
    seam::set_hash_seed(hash);
    sched.wait(me);
    let first = gap(&mut sched.lock(), sched.fine);
    let asked = sched.clone();
    let before = fine::edges();
    fine::with(
        move |why| asked.preempt(me, why),
        first,
        || {
            fine::calm(|| crate::storm::maybe(hash));
            while work(me, sched, plan, shared) {}
        },
    );
    let mut s = sched.lock();
    s.edges += fine::edges() - before;
    s.live[me] = false;
    sched.pass(&mut s, me);
}

/// Do something, if there is anything left.
fn work(me: usize, sched: &Arc<Sched>, plan: &Arc<Plan>, shared: &Arc<Vec<Arc<Document>>>) -> bool {
    let next = fine::without(|| {
        let mut s = sched.lock();
        let idle: Vec<usize> = (0..s.waiting.len())
            .filter(|p| s.waiting[*p].as_ref().is_some_and(|r| !r.finished(&plan.progs[*p])))
            .collect();
        if idle.is_empty() {
            return None;
        }
        let p = *s.rng.pick(&idle);
        s.trace = mix(s.trace ^ ((p as u64 + 1) << 8));
        s.waiting[p].take()
    });
    let Some(mut run) = next else { return false };
    if run.last.is_some_and(|w| w != me) {
        run.moved += 1;
    }
    run.last = Some(me);
    let run = run.next(plan, shared, Some((sched, me)));
    fine::without(|| {
        let p = run.prog;
        sched.lock().waiting[p] = Some(run);
        sched.chance(me, false);
    });
    true
}

fn open(plan: &Plan) -> Arc<Vec<Arc<Document>>> {
    let mut ctx = Ctx::default();
    Arc::new(plan.shared.iter().filter_map(|s| s.open(&mut ctx)).map(Arc::new).collect())
}

/// One program by itself.
fn alone(plan: &Arc<Plan>, prog: usize, hash: u64) -> Result<Running, Violation> {
    let plan = plan.clone();
    let r = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            seam::set_hash_seed(hash);
            let shared = open(&plan);
            let mut run = Running::new(prog);
            while !run.finished(&plan.progs[prog]) {
                run = run.next(&plan, &shared, None);
            }
            run
        })
        .map_err(|e| bug(e.to_string()))?
        .join();
    r.map_err(|_| bug("thread died"))
}

/// `theme`: what most operations are.
fn gen_do(rng: &mut Rng, cfg: &OpCfg, theme: Option<(usize, usize)>) -> Do {
    let slot = |rng: &mut Rng| rng.below(SLOTS) as u8;
    let theme = theme.filter(|_| rng.chance(3, 4));
    match theme.map_or_else(|| rng.below(12), |t| t.0) {
        0 => Do::Load(slot(rng), Start::gen(rng, 10, 0)),
        1..=4 => Do::Edit(slot(rng), gen_op(rng, cfg, 1)),
        _ => {
            let from = match theme {
                Some((10.., _)) if rng.chance(7, 8) => From::Shared(0),
                _ if rng.chance(1, 2) => From::Own(slot(rng)),
                _ => From::Shared(rng.below(4) as u8),
            };
            let to = match theme.map_or_else(|| rng.below(16), |t| t.1) {
                0..=2 => Use::Read,
                3..=5 => Use::Save,
                6 | 7 => Use::Show(rng.below(64) as u8),
                8 | 9 => Use::Ser,
                10 | 11 => Use::De(rng.below(HINTS as usize) as u8),
                12 | 13 => Use::Clone(slot(rng)),
                14 => Use::Snapshot(slot(rng), rng.chance(1, 2)),
                _ => Use::Drop,
            };
            Do::Use(from, to)
        }
    }
}

const fn assert_threads<T: Send + Sync>() {}
const _: () = assert_threads::<Document>();

impl Scenario for C11 {
    const ID: &'static str = "C11";
    const RUNS: (u64, u64) = (80_000, 800_000);
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        // Now and then everyone does much the same at the same time.
        let theme = rng.chance(1, 3).then(|| (rng.below(14), rng.below(16)));
        let some = usize::from(theme.is_some_and(|t| t.0 >= 10));
        let shared = (0..rng.range(some, 2)).map(|_| Start::gen(rng, 12, 3)).collect();
        let chorus = OpCfg::swarm(rng, false);
        let progs = (0..rng.range(1, 4))
            .map(|_| {
                let own = OpCfg::swarm(rng, false);
                let cfg = if theme.is_some() { &chorus } else { &own };
                let mut ops = vec![TOp(Do::Load(0, Start::gen(rng, 12, 0)), None)];
                for _ in 0..rng.range(1, 10) {
                    let panic_at = rng.chance(1, 8).then(|| rng.below(6) as u8);
                    ops.push(TOp(gen_do(rng, cfg, theme), panic_at));
                }
                let mut side = Vec::new();
                if rng.chance(1, 2) {
                    side.push(Do::Load(0, Start::gen(rng, 8, 0)));
                    for _ in 0..rng.range(1, 6) {
                        side.push(gen_do(rng, cfg, theme));
                    }
                }
                Prog { ops, side }
            })
            .collect::<Vec<_>>();
        let workers = rng.range(1, 4) as u8;
        Plan {
            shared,
            progs,
            workers,
            sched: rng.u64(),
            grain: *rng.pick(&[1, 2, 4, 12]),
            reenter: *rng.pick(&[2, 6, 20]),
            fine: *rng.pick(&[0, 5, 8, 11, 14]),
            hashes: (0..5).map(|_| rng.u64()).collect(),
        }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        // Threads need it to live as long as they do.
        let plan: Plan = serde_json::to_value(plan).and_then(serde_json::from_value).map_err(|e| bug(e.to_string()))?;
        let plan = Arc::new(plan);
        let hash = |n: usize| plan.hashes.get(n).copied().unwrap_or(n as u64);
        let shared = seam::watched(|| open(&plan));
        let before: Vec<_> = shared.iter().map(|d| (text(d), digest(d, true))).collect();
        let n = plan.progs.len();
        let workers = plan.workers.clamp(1, 4) as usize;
        let sched = Arc::new(Sched {
            inner: Mutex::new(Inner {
                rng: Rng::new(plan.sched),
                turn: 0,
                held: vec![None; workers],
                places: Vec::new(),
                live: vec![true; workers],
                waiting: (0..n).map(|p| Some(Running::new(p))).collect(),
                trace: 0,
                chances: 0,
                switches: 0,
                inside: 0,
                preempted: 0,
                statics: 0,
                changed: 0,
                met: 0,
                blocked: 0,
                edges: 0,
            }),
            fine: if workers > 1 { plan.fine.min(20) } else { 0 },
            wake: (0..workers).map(|_| Condvar::new()).collect(),
            grain: plan.grain as usize,
        });
        let threads: Vec<_> = (0..workers)
            .map(|w| {
                let (sched, plan, shared, hash) = (sched.clone(), plan.clone(), shared.clone(), hash(w));
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || worker(w, &sched, &plan, &shared, hash))
            })
            .collect();
        for t in threads {
            match t.map(std::thread::JoinHandle::join) {
                Ok(Ok(())) => {}
                _ => return Err(bug("a thread died")),
            }
        }
        let done: Vec<Running> = {
            let mut s = sched.lock();
            ctx.ticks += s.chances;
            ctx.tick("schedule", &s.trace.to_le_bytes());
            ctx.add("scheduling decisions", s.chances);
            ctx.add("fault.thread switched", s.switches);
            ctx.add("fault.thread switched inside of an operation", s.inside);
            ctx.add("fault.preempted inside of the library", s.preempted);
            ctx.add("edges of control flow under the scheduler", s.edges);
            ctx.add("static memory used by the library", s.statics);
            ctx.add("changes of shared documents by the library", s.changed);
            ctx.add("threads met at static memory or at what changed in a shared document", s.met);
            ctx.add("waits for a lock of the library", s.blocked);
            ctx.nontrivial = s.inside > 0 || s.preempted > 0;
            s.waiting.iter_mut().filter_map(Option::take).collect()
        };
        if done.len() != n {
            return Err(bug("a program was lost"));
        }
        for (d, b) in shared.iter().zip(&before) {
            if (text(d), digest(d, true)) != *b {
                return fail("shared", format!("a shared document changed: {}, was {}", show(&text(d)), show(&b.0)));
            }
        }
        for run in done {
            let p = run.prog;
            ctx.add("fault.re-entered", run.reentered);
            ctx.add("fault.caller code panicked", run.panicked);
            ctx.add("fault.moved to another thread", run.moved);
            ctx.add("operations", (run.own.log.len() + run.side.log.len()) as u64);
            if run.reentered > 0 {
                ctx.nontrivial = true;
            }
            if let Err(v) = run.result {
                return Err(v);
            }
            let want = alone(&plan, p, hash(4) ^ p as u64)?;
            if let Err(v) = want.result {
                return Err(v);
            }
            for (which, got, want) in [("", &run.own.log, &want.own.log), ("re-entrant ", &run.side.log, &want.side.log)] {
                if got.len() != want.len() {
                    return Err(bug("logs differ in length"));
                }
                for (i, (g, w)) in got.iter().zip(want).enumerate() {
                    ctx.trace = mix(ctx.trace ^ hash_bytes(3, g.as_bytes()));
                    if g != w {
                        return fail("schedule", format!("program {p} {which}operation {i}: {g}, alone {w}"));
                    }
                }
            }
            for doc in run.own.slots.iter().flatten() {
                ctx.state(&text(doc));
            }
        }
        Ok(())
    }

    fn about() -> About {
        About {
            title: "documents are isolated from each other and from the schedule",
            rule: "Each run generates up to four programs which load (some of it damaged), edit, read, save, format, serialize, clone, snapshot and drop their own documents and read shared ones; up to four real threads hand each other a baton at seeded calls into caller code, between operations, and in four out of five runs also inside of the library (compiled with a call into the scheduler on every edge of its control flow and at every load and store), which also covers waiting for locks; programs move between threads, other documents are used from within caller code, and caller code panics. What every program sees is compared with what it sees alone in a thread with another hash seed. Non-trivial: a switch or re-entrant use happened inside of an operation.",
            faults: &[
                "thread switched",
                "thread switched inside of an operation",
                "preempted inside of the library",
                "re-entered",
                "caller code panicked",
                "moved to another thread",
            ],
            real: &["nondestructive::yaml, all of it", "threads (handing over a baton)"],
            stub: &["scheduler", "caller code", "hash seeds (getrandom)"],
            assumptions: &[
                "Executions are sequentially consistent: one thread runs at a time.",
                "Parts of the library which are generic over caller code are compiled with the simulator, and preempted only where they call or store something.",
            ],
        }
    }
}
