//! Runs simulations: one seed or plan at a time in a fresh thread, many of
//! them in worker processes, and minimises what fails.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::thread;
use std::time::{Duration, Instant};

use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::rng::{hash_bytes, mix, Rng};
use crate::rt::{catch, Caught, Ctx, Res};
use crate::seam;

pub struct About {
    pub title: &'static str,
    /// How cases are made and what makes one count.
    pub rule: &'static str,
    pub faults: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub trait Scenario: 'static {
    const ID: &'static str;
    /// Simulated runs of the quick and thorough tier.
    const RUNS: (u64, u64);
    /// Memory a process may use.
    const CAP: usize = 3 << 30;
    type Plan: Serialize + DeserializeOwned;
    fn gen(rng: &mut Rng) -> Self::Plan;
    fn run(plan: &Self::Plan, ctx: &mut Ctx) -> Res;
    fn about() -> About;
}

pub enum Outcome {
    Held,
    Violation { class: String, detail: String },
    /// The simulator is broken, or the plan is not one.
    Harness(String),
}

#[derive(Clone, Copy)]
pub struct Entry {
    pub id: &'static str,
    pub runs: (u64, u64),
    pub cap: usize,
    pub about: fn() -> About,
    pub plan: fn(u64) -> Value,
    seeded: fn(u64, &mut Ctx) -> Outcome,
    planned: fn(&Value, u64, &mut Ctx) -> Outcome,
}

fn judge(r: Result<Res, Caught>) -> Outcome {
    match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(v)) if v.class == "harness" => Outcome::Harness(v.detail),
        Ok(Err(v)) => Outcome::Violation {
            class: v.class,
            detail: v.detail,
        },
        Err(Caught::Library(m)) => Outcome::Violation {
            class: "panic".into(),
            detail: m,
        },
        Err(Caught::Harness(m)) => Outcome::Harness(m),
        Err(Caught::Injected) => Outcome::Harness("escaped injected panic".into()),
    }
}

/// What the thread has behind it.
fn storm(hash: u64, ctx: &mut Ctx) {
    let n = crate::storm::maybe(hash);
    if n > 0 {
        ctx.fault("storm of failures before the run");
        ctx.tick("storm", &n.to_le_bytes());
    }
}

pub fn entry<S: Scenario>() -> Entry {
    Entry {
        id: S::ID,
        runs: S::RUNS,
        cap: S::CAP,
        about: S::about,
        plan: |seed| serde_json::to_value(S::gen(&mut crate::spec::planner(seed))).expect("plan"),
        seeded: |seed, ctx| {
            judge(catch(|| {
                storm(hash_seed(seed), ctx);
                let plan = S::gen(&mut crate::spec::planner(seed));
                S::run(&plan, ctx)
            }))
        },
        planned: |plan, hash, ctx| {
            let plan: S::Plan = match serde_json::from_value(plan.clone()) {
                Ok(plan) => plan,
                Err(e) => return Outcome::Harness(format!("bad plan: {e}")),
            };
            judge(catch(|| {
                storm(hash, ctx);
                S::run(&plan, ctx)
            }))
        },
    }
}

pub fn run_seed(id: &str, seed: u64, idx: u64) -> u64 {
    mix(hash_bytes(mix(seed), id.as_bytes()) ^ mix(idx))
}

fn hash_seed(run: u64) -> u64 {
    mix(run ^ 0x4A5_4A5)
}

#[derive(Clone)]
pub enum Input {
    Seed(u64),
    Plan(Value, u64),
}

/// Every run has a thread of its own, since hash seeds are per thread.
pub fn run_one(entry: Entry, input: Input, log: bool) -> (Outcome, Ctx) {
    let t = thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let mut ctx = Ctx::default();
            if log {
                ctx.log = Some(Vec::new());
            }
            let outcome = match input {
                Input::Seed(seed) => {
                    seam::set_hash_seed(hash_seed(seed));
                    (entry.seeded)(seed, &mut ctx)
                }
                Input::Plan(plan, hash) => {
                    seam::set_hash_seed(hash);
                    (entry.planned)(&plan, hash, &mut ctx)
                }
            };
            (outcome, ctx)
        })
        .expect("thread");
    match t.join() {
        Ok(r) => r,
        Err(_) => (Outcome::Harness("run thread died".into()), Ctx::default()),
    }
}

/// Distinct values: exact as long as there are not too many of them, and
/// estimated from the smallest ones after that. Merges in any order.
#[derive(Default, Serialize, Deserialize)]
struct Distinct {
    smallest: Vec<u64>,
    full: bool,
    #[serde(skip)]
    new: HashSet<u64>,
}

const KEEP: usize = 1 << 20;

impl Distinct {
    fn add(&mut self, v: u64) {
        let v = mix(v);
        if self.full && v > self.smallest[KEEP - 1] {
            return;
        }
        self.new.insert(v);
        if self.new.len() >= KEEP / 8 {
            self.settle();
        }
    }

    fn settle(&mut self) {
        self.smallest.extend(self.new.drain());
        self.smallest.sort_unstable();
        self.smallest.dedup();
        if self.smallest.len() > KEEP {
            self.smallest.truncate(KEEP);
            self.full = true;
        }
    }

    fn merge(&mut self, mut other: Distinct) {
        other.settle();
        self.full |= other.full;
        self.new.extend(other.smallest);
        self.settle();
    }

    fn count(&self) -> u64 {
        if self.full && self.smallest.len() == KEEP {
            let top = self.smallest[KEEP - 1] as f64 / u64::MAX as f64;
            ((KEEP - 1) as f64 / top) as u64
        } else {
            self.smallest.len() as u64
        }
    }
}

#[derive(Default, Serialize, Deserialize)]
struct Summary {
    runs: u64,
    nontrivial: u64,
    ticks: u64,
    stats: BTreeMap<String, u64>,
    digest: u64,
    traces: Distinct,
    states: Distinct,
    samples: Vec<(u64, u64)>,
}

impl Summary {
    fn add(&mut self, idx: u64, ctx: &Ctx) {
        self.runs += 1;
        self.ticks += ctx.ticks;
        for (k, v) in &ctx.stats {
            *self.stats.entry(k.clone()).or_default() += v;
        }
        self.digest ^= mix(idx ^ mix(ctx.trace));
        if ctx.nontrivial {
            self.nontrivial += 1;
            self.traces.add(ctx.trace);
            if self.samples.len() < 3 {
                self.samples.push((idx, ctx.ticks));
            }
        }
        for s in &ctx.states {
            self.states.add(*s);
        }
    }

    fn merge(&mut self, mut o: Summary) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.ticks += o.ticks;
        for (k, v) in o.stats {
            *self.stats.entry(k).or_default() += v;
        }
        self.digest ^= o.digest;
        self.traces.merge(std::mem::take(&mut o.traces));
        self.states.merge(std::mem::take(&mut o.states));
        self.samples.append(&mut o.samples);
        self.samples.sort_unstable();
        self.samples.truncate(3);
    }
}

/// A worker: every `step`th run from `first`, below `end`.
pub fn worker(entry: Entry, seed: u64, first: u64, step: u64, end: u64) {
    seam::set_cap(entry.cap);
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut sum = Summary::default();
    let mut idx = first;
    while idx < end {
        let _ = writeln!(out, "@{idx}");
        let _ = out.flush();
        let (outcome, ctx) = run_one(entry, Input::Seed(run_seed(entry.id, seed, idx)), false);
        sum.add(idx, &ctx);
        match outcome {
            Outcome::Held => {}
            Outcome::Violation { class, detail } => {
                if let Some(what) = known(&root(), entry.id, &class, &detail) {
                    *sum.stats.entry(format!("known.{what}")).or_default() += 1;
                } else {
                    let _ = writeln!(out, "V{}", json!([idx, class, detail]));
                    break;
                }
            }
            Outcome::Harness(m) => {
                let _ = writeln!(out, "H{}", json!([idx, m]));
                break;
            }
        }
        idx += step;
    }
    sum.traces.settle();
    sum.states.settle();
    let _ = writeln!(out, "S{}", serde_json::to_string(&sum).expect("summary"));
    let _ = out.flush();
}

/// Seconds of processor time used by a child.
fn cpu(pid: u32) -> f64 {
    let Ok(s) = fs::read_to_string(format!("/proc/{pid}/stat")) else {
        return 0.0;
    };
    let Some(s) = s.rsplit(')').next() else { return 0.0 };
    let f: Vec<&str> = s.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}

const HANG_CPU: f64 = 15.0;
const HANG_WALL: u64 = 150;

fn me() -> PathBuf {
    std::env::current_exe().expect("current_exe")
}

struct Worker {
    child: Child,
    first: u64,
    at: Option<u64>,
    since: Instant,
    cpu0: f64,
    done: bool,
}

fn died(code: Option<i32>, signal: Option<i32>) -> (&'static str, String) {
    match (code, signal) {
        (Some(c), _) if c == seam::EXIT_MEMORY => ("memory", "ran out of the memory allowed for a run".into()),
        (Some(c), _) => ("crash", format!("the process exited with status {c}")),
        (_, Some(s)) => ("crash", format!("the process was ended by signal {s}")),
        _ => ("crash", "the process ended".into()),
    }
}

fn status(child: &mut Child) -> (&'static str, String) {
    use std::os::unix::process::ExitStatusExt;
    match child.wait() {
        Ok(s) => died(s.code(), s.signal()),
        Err(e) => ("crash", e.to_string()),
    }
}

pub struct Options {
    pub seed: u64,
    pub thorough: bool,
    pub workers: u64,
    pub root: PathBuf,
    pub runs: Option<u64>,
    pub deadline: Duration,
}

struct Found {
    idx: u64,
    class: String,
    detail: String,
}

/// Run all of it. Returns what failed first, and what was covered.
fn sweep(entry: Entry, o: &Options, runs: u64) -> Result<(Option<Found>, Summary, bool), String> {
    let start = Instant::now();
    let (tx, rx) = mpsc::channel::<(usize, Option<String>)>();
    let spawn = |slot: usize, first: u64| -> Result<Worker, String> {
        let mut child = Command::new(me())
            .args(["worker", entry.id])
            .args([o.seed, first, o.workers, runs].map(|n| n.to_string()))
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("spawn: {e}"))?;
        let out = child.stdout.take().ok_or("no stdout")?;
        let tx = tx.clone();
        thread::spawn(move || {
            for line in BufReader::new(out).lines() {
                let Ok(line) = line else { break };
                if tx.send((slot, Some(line))).is_err() {
                    return;
                }
            }
            let _ = tx.send((slot, None));
        });
        Ok(Worker {
            child,
            first,
            at: None,
            since: Instant::now(),
            cpu0: 0.0,
            done: false,
        })
    };
    let mut workers = Vec::new();
    for w in 0..o.workers {
        workers.push(spawn(w as usize, w)?);
    }
    let mut sum = Summary::default();
    let mut found: Option<Found> = None;
    let mut truncated = false;
    let mut harness = None;
    let mut last_check = Instant::now();
    while workers.iter().any(|w| !w.done) {
        let note = |found: &mut Option<Found>, f: Found| {
            if found.as_ref().map_or(true, |o| f.idx < o.idx) {
                *found = Some(f);
            }
        };
        if let Ok((slot, line)) = rx.recv_timeout(Duration::from_millis(100)) {
            let w = &mut workers[slot];
            match line {
                Some(line) if line.starts_with('@') => {
                    w.at = line[1..].parse().ok();
                    w.since = Instant::now();
                    w.cpu0 = -1.0;
                }
                Some(line) if line.starts_with('V') => {
                    if let Ok((idx, class, detail)) = serde_json::from_str(&line[1..]) {
                        note(&mut found, Found { idx, class, detail });
                    }
                }
                Some(line) if line.starts_with('H') => harness = Some(line[1..].to_owned()),
                Some(line) if line.starts_with('S') => {
                    let s: Summary = serde_json::from_str(&line[1..]).map_err(|e| e.to_string())?;
                    sum.merge(s);
                    w.done = true;
                    w.at = None;
                }
                Some(_) => {}
                None => {
                    if !w.done {
                        let (class, detail) = status(&mut w.child);
                        w.done = true;
                        match w.at {
                            Some(idx) => note(
                                &mut found,
                                Found {
                                    idx,
                                    class: class.into(),
                                    detail,
                                },
                            ),
                            None => harness = Some(format!("worker {}: {detail}", w.first)),
                        }
                    } else {
                        let _ = w.child.wait();
                    }
                }
            }
        }
        if harness.is_some() {
            break;
        }
        if last_check.elapsed() > Duration::from_millis(200) {
            last_check = Instant::now();
            for w in &mut workers {
                if w.done {
                    continue;
                }
                let beyond = match (&found, w.at) {
                    (Some(f), Some(at)) => at > f.idx,
                    _ => false,
                };
                if beyond {
                    w.done = true;
                    let _ = w.child.kill();
                    continue;
                }
                let used = cpu(w.child.id());
                if w.cpu0 < 0.0 {
                    w.cpu0 = used;
                }
                let wall = w.since.elapsed();
                // Threads which wait for each other use no time at all.
                let stuck = wall.as_secs() >= 40 && used - w.cpu0 < 0.05;
                if wall.as_secs() >= 15 && (used - w.cpu0 > HANG_CPU || wall.as_secs() > HANG_WALL || stuck) {
                    w.done = true;
                    let _ = w.child.kill();
                    if let Some(idx) = w.at {
                        note(
                            &mut found,
                            Found {
                                idx,
                                class: "hang".into(),
                                detail: format!("no end after {HANG_CPU} s of processor time"),
                            },
                        );
                    }
                }
            }
            if start.elapsed() > o.deadline {
                truncated = true;
                break;
            }
        }
    }
    for w in &mut workers {
        if !w.done {
            let _ = w.child.kill();
        }
        let _ = w.child.wait();
    }
    if let Some(h) = harness {
        if found.is_none() {
            return Err(h);
        }
    }
    Ok((found, sum, truncated))
}

/// Executes plans, in another process.
struct Server {
    child: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<String>,
    id: &'static str,
}

impl Server {
    fn new(id: &'static str) -> Option<Server> {
        let mut child = Command::new(me())
            .args(["serve", id])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let stdin = child.stdin.take()?;
        let out = child.stdout.take()?;
        let (tx, rx) = mpsc::channel();
        thread::spawn(move || {
            for line in BufReader::new(out).lines() {
                let Ok(line) = line else { break };
                if tx.send(line).is_err() {
                    break;
                }
            }
        });
        Some(Server { child, stdin, rx, id })
    }

    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        if let Some(s) = Server::new(self.id) {
            *self = s;
        }
    }

    /// The class of violation the plan leads to, if any.
    fn exec(&mut self, plan: &Value, hash: u64, limit: Duration) -> Option<(String, String)> {
        let line = json!([plan, hash]).to_string();
        if writeln!(self.stdin, "{line}").and_then(|()| self.stdin.flush()).is_err() {
            self.restart();
            return None;
        }
        match self.rx.recv_timeout(limit) {
            Ok(line) => serde_json::from_str::<Option<(String, String)>>(&line).ok()?,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                self.restart();
                Some(("hang".into(), "no end".into()))
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                let (class, detail) = status(&mut self.child);
                self.restart();
                Some((class.into(), detail))
            }
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn serve(entry: Entry) {
    seam::set_cap(entry.cap);
    let stdin = std::io::stdin();
    let mut line = String::new();
    let mut input = stdin.lock();
    loop {
        line.clear();
        match input.read_line(&mut line) {
            Ok(0) | Err(_) => return,
            Ok(_) => {}
        }
        let r = match serde_json::from_str::<(Value, u64)>(&line) {
            Ok((plan, hash)) => match run_one(entry, Input::Plan(plan, hash), false).0 {
                Outcome::Violation { class, detail } => Some((class, detail)),
                _ => None,
            },
            Err(_) => None,
        };
        println!("{}", serde_json::to_string(&r).expect("json"));
    }
}

/// Smaller variants of one value in a plan.
fn smaller(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    match v {
        Value::Number(n) => {
            if let Some(n) = n.as_u64() {
                for c in [0, 1, n / 2, n.saturating_sub(1)] {
                    if c < n && !out.contains(&json!(c)) {
                        out.push(json!(c));
                    }
                }
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        Value::String(s) if !s.is_empty() => {
            let c: Vec<char> = s.chars().collect();
            let n = c.len();
            let mut add = |c: String| {
                if c != *s && !out.contains(&Value::String(c.clone())) {
                    out.push(Value::String(c));
                }
            };
            add(String::new());
            add("x".into());
            add(c[..n / 2].iter().collect());
            add(c[n / 2..].iter().collect());
            add(c[..n - 1].iter().collect());
            add(c[1..].iter().collect());
            if n <= 8 {
                for i in 0..n {
                    let mut d = c.clone();
                    d.remove(i);
                    add(d.into_iter().collect());
                }
            }
        }
        Value::Object(m) => {
            // Anything nested may do in place of the whole.
            let mut inner = Vec::new();
            for v in m.values() {
                nested(v, &mut inner, 3);
            }
            out.extend(inner);
            out.push(json!({"Null": 0}));
        }
        _ => {}
    }
    out
}

fn nested(v: &Value, out: &mut Vec<Value>, depth: usize) {
    match v {
        Value::Object(m) => {
            if m.len() == 1 {
                out.push(v.clone());
            }
            if depth > 0 {
                for v in m.values() {
                    nested(v, out, depth - 1);
                }
            }
        }
        Value::Array(a) if depth > 0 => {
            for v in a {
                nested(v, out, depth - 1);
            }
        }
        _ => {}
    }
}

fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, v) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(v, at, out);
                at.pop();
            }
        }
        Value::Object(m) => {
            for (k, v) in m {
                at.push(k.clone());
                paths(v, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?,
            Value::Object(m) => m.get_mut(p)?,
            _ => return None,
        };
    }
    Some(v)
}

/// Make a plan as small as it gets while it fails in the same way.
fn minimise(server: &mut Server, plan: Value, hash: u64, class: &str, budget: Duration) -> (Value, u64) {
    let start = Instant::now();
    let limit = if class == "hang" { Duration::from_secs(5) } else { Duration::from_secs(20) };
    let mut best = plan;
    let mut tries = 0;
    let mut try_one = |server: &mut Server, best: &mut Value, cand: Value| -> Option<bool> {
        if start.elapsed() > budget {
            return None;
        }
        tries += 1;
        let same = matches!(server.exec(&cand, hash, limit), Some((c, _)) if c == class);
        if same {
            *best = cand;
        }
        Some(same)
    };
    'outer: loop {
        let mut progress = false;
        // Drop parts of lists, the outermost first.
        let mut all = Vec::new();
        paths(&best, &mut Vec::new(), &mut all);
        all.sort_by_key(Vec::len);
        for path in &all {
            let Some(Value::Array(a)) = at(&mut best, path) else { continue };
            let mut chunk = a.len().div_ceil(2).max(1);
            loop {
                let mut i = 0;
                loop {
                    let Some(Value::Array(a)) = at(&mut best, path) else { break };
                    if i >= a.len() {
                        break;
                    }
                    let mut cand = best.clone();
                    if let Some(Value::Array(a)) = at(&mut cand, path) {
                        let end = (i + chunk).min(a.len());
                        a.drain(i..end);
                    }
                    match try_one(server, &mut best, cand) {
                        None => break 'outer,
                        Some(true) => progress = true,
                        Some(false) => i += chunk,
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        // Shrink what is left.
        let mut all = Vec::new();
        paths(&best, &mut Vec::new(), &mut all);
        for path in &all {
            let mut again = true;
            while again {
                again = false;
                let Some(v) = at(&mut best, path) else { break };
                let v = v.clone();
                for s in smaller(&v) {
                    let mut cand = best.clone();
                    if let Some(v) = at(&mut cand, path) {
                        if *v == s || s.to_string().len() > v.to_string().len() {
                            continue;
                        }
                        *v = s;
                    }
                    match try_one(server, &mut best, cand) {
                        None => break 'outer,
                        Some(true) => {
                            progress = true;
                            again = true;
                            break;
                        }
                        Some(false) => {}
                    }
                }
            }
        }
        if !progress {
            break;
        }
    }
    (best, tries)
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    detail: String,
    seed: u64,
    index: u64,
    hash_seed: u64,
    plan: Value,
    #[serde(default)]
    trace: Vec<String>,
    /// Runs which have to come before in the same process, where state outside
    /// of any document decides what happens.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    history: Option<History>,
}

/// Every `step`th run from `first`, below the one which fails.
#[derive(Clone, Copy, Serialize, Deserialize)]
struct History {
    first: u64,
    step: u64,
}

/// Replay a file: exit status 1 if it fails the way it says.
pub fn replay(entries: &[Entry], path: &Path) -> i32 {
    let r: Replay = match fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {e}", path.display());
            return 2;
        }
    };
    let Some(entry) = entries.iter().find(|e| e.id == r.property) else {
        eprintln!("unknown property {}", r.property);
        return 2;
    };
    seam::set_cap(entry.cap);
    if let Some(h) = r.history {
        let mut idx = h.first;
        while idx < r.index {
            run_one(*entry, Input::Seed(run_seed(entry.id, r.seed, idx)), false);
            idx += h.step.max(1);
        }
        println!("after the runs {}, {}, ... below {}", h.first, h.first + h.step, r.index);
    }
    let (outcome, ctx) = run_one(*entry, Input::Plan(r.plan, r.hash_seed), true);
    for line in ctx.log.iter().flatten() {
        println!("{line}");
    }
    match outcome {
        Outcome::Held => {
            println!("held");
            0
        }
        Outcome::Violation { class, detail } => {
            println!("{class}: {detail}");
            println!("VIOLATION property={} replay={}", r.property, path.display());
            i32::from(class == r.class) + 2 * i32::from(class != r.class)
        }
        Outcome::Harness(m) => {
            println!("harness: {m}");
            2
        }
    }
}

fn replays(path: &Path, class: &str, limit: Duration) -> bool {
    let Ok(mut child) = Command::new(me())
        .arg("replay")
        .arg(path)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    else {
        return false;
    };
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) => {
                return match class {
                    "crash" => s.code().is_none(),
                    "memory" => s.code() == Some(seam::EXIT_MEMORY),
                    "hang" => false,
                    _ => s.code() == Some(1),
                }
            }
            Ok(None) if start.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                return class == "hang";
            }
            Ok(None) => thread::sleep(Duration::from_millis(5)),
            Err(_) => return false,
        }
    }
}

/// Findings which are listed are not reported again: by property, class and a
/// part of the detail.
fn known(root: &Path, id: &str, class: &str, detail: &str) -> Option<String> {
    let text = fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: ") else { continue };
        let Ok((p, c, d, what)) = serde_json::from_str::<(String, String, String, String)>(rest) else {
            continue;
        };
        if p == id && c == class && detail.contains(&d) {
            return Some(what);
        }
    }
    None
}

/// The directory of the framework.
pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("NDSIM_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn check(entry: Entry, o: &Options) -> i32 {
    let start = Instant::now();
    let runs = o.runs.unwrap_or(if o.thorough { entry.runs.1 } else { entry.runs.0 });
    let evidence = o.root.join("evidence").join(format!("{}.json", entry.id));
    println!("{}: {}", entry.id, (entry.about)().title);
    println!("seed {} tier {} runs {runs} workers {}", o.seed, if o.thorough { "thorough" } else { "quick" }, o.workers);
    let (found, sum, truncated) = match sweep(entry, o, runs) {
        Ok(r) => r,
        Err(m) => {
            eprintln!("harness error: {m}");
            return 2;
        }
    };
    let wall = start.elapsed().as_secs_f64();
    for (k, n) in &sum.stats {
        if let Some(what) = k.strip_prefix("known.") {
            println!("KNOWN-FINDING: property={} {what} ({n} runs)", entry.id);
        }
    }
    let code = report(entry, o, found, start);
    let about = (entry.about)();
    let pick = |prefix: &str| -> BTreeMap<&str, u64> {
        sum.stats
            .iter()
            .filter_map(|(k, v)| Some((k.strip_prefix(prefix)?, *v)))
            .collect()
    };
    let samples: Vec<Value> = sum
        .samples
        .iter()
        .map(|(idx, ticks)| {
            let seed = run_seed(entry.id, o.seed, *idx);
            let mut plan = (entry.plan)(seed).to_string();
            if plan.len() > 3000 {
                let mut n = 3000;
                while !plan.is_char_boundary(n) {
                    n -= 1;
                }
                plan.truncate(n);
                plan.push_str("...");
            }
            json!({"index": idx, "run_seed": seed, "ticks": ticks, "plan": plan})
        })
        .collect();
    let other: BTreeMap<&String, &u64> = sum
        .stats
        .iter()
        .filter(|(k, _)| !k.starts_with("fault.") && !k.starts_with("probe."))
        .collect();
    let missing: Vec<&&str> = about
        .faults
        .iter()
        .filter(|f| sum.stats.get(&format!("fault.{f}")).copied().unwrap_or(0) == 0)
        .collect();
    let doc = json!({
        "property": entry.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum.runs,
            "distinct_nontrivial": sum.traces.count().min(sum.nontrivial),
            "rule": about.rule,
            "samples": samples,
            "nontrivial_runs": sum.nontrivial,
            "seeds_planned": runs,
            "stopped_at_deadline": truncated,
            "runs_per_hour": (sum.runs as f64 / wall * 3600.0) as u64,
            "simulated_ticks": sum.ticks,
            "simulated_time": "The library has no clock: time is counted in ticks, one per event decided by the simulator (operation, callback, write call, disk operation, scheduling decision or fault).",
            "faults_injected": pick("fault."),
            "fault_kinds_never_fired": missing,
            "probes": pick("probe."),
            "counts": other,
            "distinct_states": sum.states.count(),
            "distinct_measure": "distinct_nontrivial counts distinct hashes of the event trace of non-trivial runs, distinct_states distinct hashes of document text and pending fault state; beyond 1048576 both are estimated from the smallest hashes.",
            "trace_digest": format!("{:016x}", sum.digest),
            "real_components": about.real,
            "stubbed_components": about.stub,
            "workers": o.workers,
        },
        "assumptions": about.assumptions,
        "wall_s": wall,
        "violations": i32::from(code == 1),
    });
    let _ = fs::create_dir_all(o.root.join("evidence"));
    let text = serde_json::to_string_pretty(&doc).expect("json");
    if let Err(e) = fs::write(&evidence, text + "\n") {
        eprintln!("{}: {e}", evidence.display());
        return if code == 1 { 1 } else { 2 };
    }
    println!(
        "{} runs ({} non-trivial), {} ticks, {} distinct traces, {} distinct states, {:.1} s, digest {:016x}",
        sum.runs,
        sum.nontrivial,
        sum.ticks,
        sum.traces.count(),
        sum.states.count(),
        wall,
        sum.digest
    );
    for (k, v) in &sum.stats {
        println!("  {k} {v}");
    }
    if truncated {
        println!("stopped at the deadline");
    }
    code
}

fn report(entry: Entry, o: &Options, found: Option<Found>, start: Instant) -> i32 {
    let Some(f) = found else { return 0 };
    println!("run {} failed: {}: {}", f.idx, f.class, f.detail);
    let seed = run_seed(entry.id, o.seed, f.idx);
    let hash = hash_seed(seed);
    let full = (entry.plan)(seed);
    let mut plan = full.clone();
    let mut detail = f.detail.clone();
    if let Some(mut server) = Server::new(entry.id) {
        let first = server.exec(&full, hash, Duration::from_secs(30));
        if matches!(&first, Some((c, _)) if *c == f.class) {
            let (p, tries) = minimise(&mut server, full.clone(), hash, &f.class, Duration::from_secs(60));
            println!("minimised in {tries} tries");
            plan = p;
            if let Some((_, d)) = server.exec(&plan, hash, Duration::from_secs(30)) {
                detail = d;
            }
        } else {
            println!("not reproduced from its plan: {first:?}");
        }
    }
    let dir = o.root.join("out").join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", entry.id, o.seed, f.idx));
    let mut r = Replay {
        property: entry.id.into(),
        class: f.class.clone(),
        detail,
        seed: o.seed,
        index: f.idx,
        hash_seed: hash,
        plan,
        trace: Vec::new(),
        history: None,
    };
    let limit = Duration::from_secs(20);
    let save = |r: &Replay| {
        let _ = fs::write(&path, serde_json::to_string_pretty(r).expect("json") + "\n");
    };
    save(&r);
    if !replays(&path, &f.class, limit) {
        r.plan = full;
        r.detail = f.detail;
        save(&r);
        let again = replays(&path, &f.class, limit);
        println!("the minimised plan does not replay; the full plan {}", if again { "does" } else { "does not either" });
        if !again {
            // Find how many of the runs before it takes.
            let step = o.workers;
            let before = f.idx / step;
            let left = || Duration::from_secs(780).saturating_sub(start.elapsed());
            let mut n = 1;
            loop {
                n = n.min(before);
                r.history = Some(History { first: f.idx - n * step, step });
                save(&r);
                if replays(&path, &f.class, left()) {
                    println!("it replays after {n} of the runs before it");
                    break;
                }
                if n == before || left().is_zero() {
                    println!("it does not replay after {n} of the {before} runs before it");
                    break;
                }
                n *= 8;
            }
        }
    }
    if r.history.is_none() && !matches!(f.class.as_str(), "crash" | "memory" | "hang") {
        let (_, ctx) = run_one(entry, Input::Plan(r.plan.clone(), hash), true);
        r.trace = ctx.log.unwrap_or_default();
        r.trace.truncate(2000);
        save(&r);
    }
    println!("{}: {}", r.class, r.detail);
    println!("plan: {}", serde_json::to_string(&r.plan).expect("json"));
    println!("VIOLATION property={} replay={}", entry.id, path.display());
    1
}
