//! Edit sessions use bounded memory for bounded content.

use std::cell::Cell;

use nondestructive::yaml::{Document, Separator};
use serde::{Deserialize, Serialize};

use crate::cb;
use crate::content::{Gate, Ser, C};
use crate::engine::{About, Scenario};
use crate::model::{Node, Tree};
use crate::ops::{exec, gen_op, resolve, Op, OpCfg};
use crate::read::text;
use crate::rng::{hash_bytes, Rng};
use crate::rt::{catch, fail, inject_panic, Caught, Ctx, Res, Violation};
use crate::seam;
use crate::world::{bug, kind, load, restore, show, snapshot, snapshot_tree, values, Start};

#[derive(Serialize, Deserialize)]
enum Step {
    Op(Op),
    /// Caller code panics at some call.
    Panic(Op, u16),
    /// Something which does not load, or does.
    Load(Start),
    /// Clone, and drop the clone, or the original.
    Clone(bool),
    /// Snapshot, restore, and drop what was restored, or the original.
    Restore(bool),
    /// A restore which fails.
    Torn(u16),
    /// Write, format and serialize.
    Read,
    /// Write to an output which fails.
    FailWrite(u8),
    /// Serialize to a serializer which fails.
    FailSer(u8),
    /// Insert a value and remove it again.
    Visit(u16, Vec<Op>),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    start: Start,
    cycle: Vec<Step>,
    /// No collection has more entries when a cycle ends.
    trim: u8,
    repeats: u8,
}

pub struct C12;

/// Number of values in a snapshot, and bytes in strings.
fn size(c: &C) -> usize {
    1 + match c {
        C::Str(s) => s.len(),
        C::Bytes(s) => s.len(),
        C::Some(c) => size(c),
        C::Seq(s) => s.iter().map(size).sum(),
        C::Map(m) | C::Struct(m) => m.iter().map(|(k, v)| size(k) + size(v)).sum(),
        _ => 0,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Size {
    live: usize,
    snapshot: usize,
}

impl Size {
    fn of(doc: &Document) -> Result<Self, Violation> {
        let live = seam::tracked_live();
        match snapshot_tree(doc, None).0 {
            Ok(c) => Ok(Size { live, snapshot: size(&c) }),
            Err(e) => fail("snapshot", format!("the document can not be serialized: {e}")),
        }
    }

    fn grew(self, from: Self) -> bool {
        self.live > from.live || self.snapshot > from.snapshot
    }
}

struct Broken(usize);

impl std::io::Write for Broken {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 < b.len() {
            return Err(std::io::Error::from(std::io::ErrorKind::StorageFull));
        }
        self.0 -= b.len();
        Ok(b.len())
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Session<'p> {
    plan: &'p Plan,
    doc: Document,
}

impl Session<'_> {
    fn edit(&mut self, op: &Op, ctx: &mut Ctx) {
        let tree = Tree::learn(&self.doc);
        if tree.root.size() > 150 {
            return;
        }
        let Some(act) = resolve(&tree, op) else { return };
        ctx.count(kind(&act));
        seam::tracked(|| exec(&mut self.doc, &act));
    }

    fn step(&mut self, step: &Step, ctx: &mut Ctx) -> Res {
        match step {
            Step::Op(op) => self.edit(op, ctx),
            Step::Panic(op, at) => {
                let tree = Tree::learn(&self.doc);
                if tree.root.size() > 150 {
                    return Ok(());
                }
                let Some(act) = resolve(&tree, op) else { return Ok(()) };
                let left = Cell::new(u64::from(*at) % 12);
                let hook = move |_: &'static str| {
                    if left.get() == 0 {
                        seam::untracked(|| inject_panic());
                    }
                    left.set(left.get() - 1);
                };
                let doc = &mut self.doc;
                match cb::with(hook, || catch(|| seam::tracked(|| exec(doc, &act)))) {
                    Ok(_) => {}
                    Err(Caught::Injected) => ctx.fault("caller code panicked"),
                    Err(Caught::Library(m)) => return fail("panic", m),
                    Err(Caught::Harness(m)) => return Err(bug(m)),
                }
            }
            Step::Load(start) => {
                let bytes = start.bytes(&mut Ctx::default());
                let r = load(&bytes);
                ctx.fault(if r.is_ok() { "loaded and dropped" } else { "load failed" });
            }
            Step::Clone(swap) => {
                ctx.fault("clone dropped");
                let other = seam::tracked(|| self.doc.clone());
                if *swap {
                    self.doc = other;
                }
            }
            Step::Restore(swap) => {
                let Ok(bytes) = snapshot(&self.doc) else { return fail("snapshot", "the document can not be serialized") };
                match seam::tracked(|| restore(&bytes)) {
                    Ok(other) => {
                        ctx.fault("restored document dropped");
                        if *swap {
                            self.doc = other;
                        }
                    }
                    Err(e) => {
                        seam::untracked(|| drop(e));
                        return fail("restore", "the snapshot can not be restored");
                    }
                }
            }
            Step::Torn(n) => {
                let Ok(bytes) = snapshot(&self.doc) else { return fail("snapshot", "the document can not be serialized") };
                let n = *n as usize % bytes.len();
                let r = seam::tracked(|| restore(&bytes[..n]));
                ctx.fault("restore failed");
                drop(r);
            }
            Step::Read => {
                let doc = &self.doc;
                seam::tracked(|| {
                    let mut out = Vec::new();
                    let _ = doc.write_to(&mut out);
                    let s = format!("{doc} {doc:?}");
                    for v in values(doc) {
                        let _ = (v.as_any(), v.as_f64(), v.id());
                    }
                    let c = doc.as_ref().serialize(Ser(Gate::new(None, false)));
                    drop((out, s, c));
                });
            }
            Step::FailWrite(n) => {
                let doc = &self.doc;
                if seam::tracked(|| doc.write_to(Broken(*n as usize)).is_err()) {
                    ctx.fault("output failed");
                }
            }
            Step::FailSer(n) => {
                let doc = &self.doc;
                let gate = Gate::new(Some(u64::from(*n)), false);
                if seam::tracked(|| doc.as_ref().serialize(Ser(gate)).is_err()) {
                    ctx.fault("serializer failed");
                }
            }
            Step::Visit(target, ops) => {
                let tree = Tree::learn(&self.doc);
                let maps = tree.nodes(|n| n.coll().is_some());
                let Some(node) = maps.get(*target as usize % maps.len().max(1)).and_then(|u| tree.root.find(*u)) else {
                    return Ok(());
                };
                let (Some(id), Some(c)) = (node.id, node.coll()) else { return Ok(()) };
                let len = c.items.len();
                let map = c.map;
                let doc = &mut self.doc;
                seam::tracked(|| {
                    let v = doc.value_mut(id);
                    if map {
                        if let Some(mut m) = v.into_mapping_mut() {
                            let _ = m.insert("visitor", Separator::Auto).make_mapping().insert("a", Separator::Auto).make_sequence();
                        }
                    } else if let Some(mut s) = v.into_sequence_mut() {
                        let _ = s.push(Separator::Auto).make_sequence().push(Separator::Auto).make_mapping();
                    }
                });
                for op in ops {
                    self.edit(op, ctx);
                }
                if Tree::learn(&self.doc).nodes(|n| n.id == Some(id) && n.coll().is_some_and(|c| c.map == map)).is_empty() {
                    return Ok(());
                }
                let doc = &mut self.doc;
                seam::tracked(|| {
                    let v = doc.value_mut(id);
                    if map {
                        if let Some(mut m) = v.into_mapping_mut() {
                            m.remove("visitor");
                        }
                    } else if let Some(mut s) = v.into_sequence_mut() {
                        while s.as_ref().len() > len && s.remove(s.as_ref().len() - 1) {}
                    }
                });
            }
        }
        Ok(())
    }

    /// Keep the content bounded.
    fn trim(&mut self) {
        let max = self.plan.trim as usize;
        loop {
            let tree = Tree::learn(&self.doc);
            let mut todo = None;
            fn go(n: &Node, depth: usize, max: usize, todo: &mut Option<(nondestructive::yaml::Id, bool)>) {
                let (Some(id), Some(c)) = (n.id, n.coll()) else { return };
                if todo.is_some() {
                    return;
                }
                if depth > 4 || (c.items.len() > max && c.map && std::str::from_utf8(&c.items[c.items.len() - 1].key).is_err()) {
                    *todo = Some((id, true));
                } else if c.items.len() > max {
                    *todo = Some((id, false));
                } else {
                    c.items.iter().for_each(|i| go(&i.node, depth + 1, max, todo));
                }
            }
            go(&tree.root, 0, max, &mut todo);
            let Some((id, all)) = todo else { return };
            let doc = &mut self.doc;
            seam::tracked(|| {
                let mut v = doc.value_mut(id);
                if all {
                    v.set_bool(true);
                } else if let Some(mut m) = v.as_mapping_mut() {
                    let key = m.as_ref().into_iter().next_back().map(|(k, _)| k.to_string());
                    if !key.is_some_and(|k| m.remove(&k)) {
                        m.clear();
                    }
                } else if let Some(mut s) = v.as_sequence_mut() {
                    let n = s.as_ref().len();
                    if !s.remove(n - 1) {
                        s.clear();
                    }
                }
            });
        }
    }

    fn cycle(&mut self, ctx: &mut Ctx) -> Res {
        let plan = self.plan;
        for step in &plan.cycle {
            self.step(step, ctx)?;
        }
        self.trim();
        ctx.tick("cycle", &text(&self.doc));
        Ok(())
    }

    /// Cycle until the text is one which was there before: how many cycles
    /// that takes, if it does.
    fn settle(&mut self, ctx: &mut Ctx) -> Result<Option<usize>, Violation> {
        let mut seen = Vec::new();
        for _ in 0..24 {
            let here = hash_bytes(1, &text(&self.doc));
            if let Some(at) = seen.iter().rposition(|s| *s == here) {
                return Ok(Some(seen.len() - at));
            }
            seen.push(here);
            self.cycle(ctx)?;
        }
        Ok(None)
    }
}

/// Load, run, and drop: what stays allocated.
fn whole(plan: &Plan, ctx: &mut Ctx, measure: bool) -> Result<Option<usize>, Violation> {
    let bytes = plan.start.bytes(&mut Ctx::default());
    let Ok(mut doc) = load(&bytes) else { return Ok(None) };
    for op in &plan.start.ops {
        crate::world::edit(&mut doc, op, &mut Ctx::default());
    }
    let mut s = Session { plan, doc };
    if !measure {
        s.cycle(ctx)?;
        drop(s);
        return Ok(Some(seam::tracked_live()));
    }
    let Some(period) = s.settle(ctx)? else {
        ctx.count("does not return");
        return Ok(None);
    };
    if period > 6 {
        ctx.count("takes long to return");
        return Ok(None);
    }
    // Let capacities settle.
    for _ in 0..4 * period {
        s.cycle(ctx)?;
    }
    let mut at = hash_bytes(1, &text(&s.doc));
    let first = Size::of(&s.doc)?;
    let mut sizes = vec![first];
    let mut repeats = plan.repeats.max(24) as usize;
    // As long as it grows: twice as often, and again. What is bounded does not.
    for _ in 0..4 {
        for _ in 0..repeats {
            for _ in 0..period {
                s.cycle(ctx)?;
            }
            let here = hash_bytes(1, &text(&s.doc));
            if here != at {
                // Not a cycle after all.
                ctx.count("leaves again");
                at = here;
                return Ok(None);
            }
        }
        let now = Size::of(&s.doc)?;
        let last = sizes[sizes.len() - 1];
        sizes.push(now);
        ctx.add("repeats", repeats as u64);
        if !now.grew(last) {
            ctx.nontrivial = true;
            ctx.state(&text(&s.doc));
            drop(s);
            return Ok(Some(seam::tracked_live()));
        }
        repeats *= 2;
    }
    fail(
        "grows",
        format!("a cycle of {} steps which always ends with {} grows the document: {sizes:?}", plan.cycle.len(), show(&text(&s.doc))),
    )
}

impl Scenario for C12 {
    const ID: &'static str = "C12";
    const RUNS: (u64, u64) = (150_000, 3_000_000);
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let start = Start::gen(rng, 10, 3);
        let cfg = OpCfg {
            echo: false,
            ..OpCfg::swarm(rng, false)
        };
        let n = rng.range(1, 7);
        let cycle = (0..n)
            .map(|_| match rng.below(20) {
                0 | 1 => Step::Panic(gen_op(rng, &cfg, 1), rng.u64() as u16),
                2 => Step::Load(Start::gen(rng, 8, 0)),
                3 => Step::Clone(rng.chance(1, 2)),
                4 => Step::Restore(rng.chance(1, 2)),
                5 => Step::Read,
                6 => Step::FailWrite(rng.below(40) as u8),
                7 => Step::FailSer(rng.below(20) as u8),
                8 | 9 => Step::Visit(rng.u64() as u16, (0..rng.below(4)).map(|_| gen_op(rng, &cfg, 1)).collect()),
                10 => Step::Torn(rng.u64() as u16),
                _ => Step::Op(gen_op(rng, &cfg, 1)),
            })
            .collect();
        Plan {
            start,
            cycle,
            trim: rng.range(1, 6) as u8,
            repeats: 24,
        }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        // Whatever is allocated once only.
        if whole(plan, &mut Ctx::default(), false)?.is_none() {
            ctx.count("rejected");
            return Ok(());
        }
        let start = seam::tracked_live();
        let Some(end) = whole(plan, ctx, true)? else { return Ok(()) };
        if end > start {
            // Once more, since something bounded would not grow again.
            if let Some(again) = whole(plan, &mut Ctx::default(), true)? {
                if again > end {
                    return fail(
                        "not released",
                        format!("a dropped document leaves {} bytes allocated, and {} more the next time", end - start, again - end),
                    );
                }
            }
        }
        ctx.probe("everything released");
        Ok(())
    }

    fn about() -> About {
        About {
            title: "edit sessions use bounded memory for bounded content",
            rule: "Each run repeats a seeded cycle of steps (edits, edits whose caller code panics, loads which fail or not, clones, snapshots, failing outputs and serializers, values inserted, filled and removed; then everything beyond a size is removed) until the text returns to what it was, and then at least 24 times more: bytes allocated by the library and the number of values in a snapshot must not grow. If they do, the number of repeats is doubled three times, since what is bounded stops growing. At last the document is dropped, and nothing it allocated may be left. Non-trivial: the text did return, and sizes were compared.",
            faults: &["caller code panicked", "load failed", "loaded and dropped", "clone dropped", "restored document dropped", "restore failed", "output failed", "serializer failed"],
            real: &["nondestructive::yaml parser, editing, output, serde"],
            stub: &["allocator (counting)", "caller code, outputs, serializers", "hash seeds (getrandom)"],
            assumptions: &["Strings are interned for as long as a document lives, so cycles use the same strings every time."],
        }
    }
}
