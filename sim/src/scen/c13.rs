//! Two-ended iteration delivers every entry exactly once.

use std::collections::VecDeque;

use nondestructive::yaml::{Document, Id, Mapping, Sequence, Value};
use serde::{Deserialize, Serialize};

use crate::engine::{About, Scenario};
use crate::model::{Node, Tree};
use crate::ops::{exec, gen_op, model, resolve, Op, OpCfg};
use crate::read::text;
use crate::rng::Rng;
use crate::rt::{fail, Ctx, Res, Violation};
use crate::seam;
use crate::spec::{gen, DocSpec, GenCfg};
use crate::world::{follow, note, open, position, walk};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum It {
    Next,
    NextBack,
    Nth(u16),
    NthBack(u16),
    Len,
    /// Standard adapters, which use what the iterator provides.
    Skip(u16),
    Rev(u16),
    Take(u16),
    StepBy(u8),
    Find(u16),
    RFind(u16),
    /// Consuming ones.
    Count,
    Last,
    Fold,
    RFold,
    Stop,
}

#[derive(Serialize, Deserialize)]
enum Step {
    Op(Op),
    /// Grow a collection.
    Grow(u16, u16),
    /// Open iterators on collections, and drive them in turns.
    Iterate(Vec<(u16, u8)>, Vec<(u8, It)>),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    spec: DocSpec,
    steps: Vec<Step>,
}

pub struct C13;

type Entry = (Option<Vec<u8>>, Id);

enum AnyIter<'a> {
    M(nondestructive::yaml::mapping::Iter<'a>),
    S(nondestructive::yaml::sequence::Iter<'a>),
}

fn m(e: (&bstr::BStr, Value<'_>)) -> Entry {
    (Some(e.0.to_vec()), e.1.id())
}

fn s(v: Value<'_>) -> Entry {
    (None, v.id())
}

macro_rules! on {
    ($it:expr, $i:ident, $f:ident => $e:expr) => {
        match $it {
            AnyIter::M($i) => {
                let $f = m;
                $e
            }
            AnyIter::S($i) => {
                let $f = s;
                $e
            }
        }
    };
}

/// What is there, by lookup.
fn entries(v: &Value<'_>, n: &Node) -> Option<Vec<Entry>> {
    let c = n.coll()?;
    let mut out = Vec::new();
    match (v.as_mapping(), v.as_sequence()) {
        (Some(map), _) if c.map => {
            for (i, item) in c.items.iter().enumerate() {
                let id = item.node.id?;
                let first = c.items.iter().position(|o| o.key == item.key) == Some(i);
                if let (true, Ok(k)) = (first, std::str::from_utf8(&item.key)) {
                    if map.get(k)?.id() != id {
                        return None;
                    }
                }
                out.push((Some(item.key.clone()), id));
            }
            (map.len() == out.len()).then_some(out)
        }
        (_, Some(seq)) if !c.map => {
            for (i, item) in c.items.iter().enumerate() {
                let id = item.node.id?;
                if seq.get(i)?.id() != id {
                    return None;
                }
                out.push((None, id));
            }
            (seq.len() == out.len()).then_some(out)
        }
        _ => None,
    }
}

fn start<'a>(v: &Value<'a>, how: u8) -> Option<AnyIter<'a>> {
    fn map<'a>(m: Mapping<'a>, how: u8) -> AnyIter<'a> {
        AnyIter::M(if how % 2 == 0 { m.iter() } else { m.into_iter() })
    }
    fn seq<'a>(s: Sequence<'a>, how: u8) -> AnyIter<'a> {
        AnyIter::S(if how % 2 == 0 { s.iter() } else { s.into_iter() })
    }
    v.as_mapping()
        .map(|m| map(m, how))
        .or_else(|| v.as_sequence().map(|s| seq(s, how)))
}

struct Run<'a> {
    it: Option<AnyIter<'a>>,
    left: VecDeque<Entry>,
}

impl Run<'_> {
    fn len(&self) -> Result<(), String> {
        let Some(it) = &self.it else { return Ok(()) };
        let (hint, len) = match it {
            AnyIter::M(i) => (i.size_hint(), i.len()),
            AnyIter::S(i) => (i.size_hint(), i.len()),
        };
        let n = self.left.len();
        if hint != (n, Some(n)) || len != n {
            return Err(format!("{n} are left, size_hint is {hint:?}, len is {len}"));
        }
        Ok(())
    }

    fn step(&mut self, what: It) -> Result<(), String> {
        let Some(it) = &mut self.it else { return Ok(()) };
        let left = &mut self.left;
        // What is expected, in the order of delivery, and what is found.
        let mut want: Vec<Option<Entry>> = Vec::new();
        let mut got: Vec<Option<Entry>> = Vec::new();
        let near = |n: u16, left: &VecDeque<Entry>| match n % 5 {
            0 => 0,
            1 => 1,
            2 => n as usize % (left.len() + 1),
            3 => n as usize % (left.len() + 3),
            _ if n >= 380 => usize::MAX - (n as usize / 5 % 2),
            _ => n as usize,
        };
        let mut nth = |n: usize, left: &mut VecDeque<Entry>| {
            left.drain(..n.min(left.len()));
            left.pop_front()
        };
        match what {
            It::Next => {
                want.push(left.pop_front());
                got.push(on!(it, i, f => i.next().map(f)));
            }
            It::NextBack => {
                want.push(left.pop_back());
                got.push(on!(it, i, f => i.next_back().map(f)));
            }
            It::Nth(n) => {
                let n = near(n, left);
                want.push(nth(n, left));
                got.push(on!(it, i, f => i.nth(n).map(f)));
            }
            It::NthBack(n) => {
                let n = near(n, left);
                left.truncate(left.len().saturating_sub(n));
                want.push(left.pop_back());
                got.push(on!(it, i, f => i.nth_back(n).map(f)));
            }
            It::Len => {}
            It::Skip(n) => {
                let n = near(n, left);
                want.push(nth(n, left));
                got.push(on!(it, i, f => i.by_ref().skip(n).next().map(f)));
            }
            It::Rev(n) => {
                let n = near(n, left).min(left.len());
                for _ in 0..n {
                    want.push(left.pop_back());
                }
                on!(it, i, f => got.extend(i.by_ref().rev().take(n).map(|e| Some(f(e)))));
            }
            It::Take(n) => {
                let n = near(n, left).min(left.len());
                for _ in 0..n {
                    want.push(left.pop_front());
                }
                on!(it, i, f => got.extend(i.by_ref().take(n).map(|e| Some(f(e)))));
            }
            It::StepBy(n) => {
                let n = 1 + n as usize % 5;
                let mut all = left.drain(..);
                while let Some(e) = all.next() {
                    want.push(Some(e));
                    for _ in 1..n {
                        all.next();
                    }
                }
                drop(all);
                on!(it, i, f => got.extend(i.by_ref().step_by(n).map(|e| Some(f(e)))));
            }
            It::Find(n) => {
                let n = near(n, left);
                want.push(nth(n, left));
                let mut at = 0;
                got.push(on!(it, i, f => i.find(|_| { at += 1; at > n }).map(f)));
            }
            It::RFind(n) => {
                let n = near(n, left);
                left.truncate(left.len().saturating_sub(n));
                want.push(left.pop_back());
                let mut at = 0;
                got.push(on!(it, i, f => i.rfind(|_| { at += 1; at > n }).map(f)));
            }
            It::Count => {
                let n = left.len();
                left.clear();
                let c = match self.it.take() {
                    Some(AnyIter::M(i)) => i.count(),
                    Some(AnyIter::S(i)) => i.count(),
                    None => n,
                };
                if c != n {
                    return Err(format!("count is {c}, expected {n}"));
                }
                return Ok(());
            }
            It::Last => {
                let n = left.pop_back();
                left.clear();
                let c = match self.it.take() {
                    Some(AnyIter::M(i)) => i.last().map(m),
                    Some(AnyIter::S(i)) => i.last().map(s),
                    None => None,
                };
                if c != n {
                    return Err(format!("last is {c:?}, expected {n:?}"));
                }
                return Ok(());
            }
            It::Fold | It::RFold => {
                let back = matches!(what, It::RFold);
                let mut n: Vec<Entry> = left.drain(..).collect();
                if back {
                    n.reverse();
                }
                let c: Vec<Entry> = match self.it.take() {
                    Some(AnyIter::M(i)) if back => i.rev().map(m).collect(),
                    Some(AnyIter::M(i)) => i.map(m).collect(),
                    Some(AnyIter::S(i)) if back => i.rev().map(s).collect(),
                    Some(AnyIter::S(i)) => i.map(s).collect(),
                    None => Vec::new(),
                };
                if c != n {
                    return Err(format!("the rest is {c:?}, expected {n:?}"));
                }
                return Ok(());
            }
            It::Stop => {
                self.it = None;
                return Ok(());
            }
        }
        if want != got {
            return Err(format!("{what:?} delivers {got:?}, expected {want:?}"));
        }
        self.len()
    }
}

fn gen_it(rng: &mut Rng) -> It {
    let n = rng.below(400) as u16;
    match rng.below(40) {
        0..=7 => It::Next,
        8..=15 => It::NextBack,
        16..=20 => It::Nth(n),
        21..=25 => It::NthBack(n),
        26 | 27 => It::Len,
        28 | 29 => It::Skip(n),
        30 | 31 => It::Rev(n),
        32 => It::Take(n),
        33 => It::StepBy(n as u8),
        34 => It::Find(n),
        35 => It::RFind(n),
        36 => It::Count,
        37 => It::Last,
        38 => *rng.pick(&[It::Fold, It::RFold]),
        _ => It::Stop,
    }
}

fn iterate(doc: &Document, tree: &Tree, open: &[(u16, u8)], turns: &[(u8, It)], ctx: &mut Ctx) -> Result<bool, Violation> {
    let colls = tree.nodes(|n| n.coll().is_some());
    let mut runs = Vec::new();
    for (which, how) in open {
        if colls.is_empty() {
            return Ok(true);
        }
        let uid = colls[*which as usize % colls.len()];
        let (Some(at), Some(node)) = (position(tree, uid), tree.root.find(uid)) else { return Ok(false) };
        let Some(v) = walk(doc, &at) else { return Ok(false) };
        let Some(all) = entries(&v, node) else { return Ok(false) };
        ctx.tick("iterate", &(all.len() as u32).to_le_bytes());
        runs.push(Run {
            it: start(&v, *how),
            left: all.into(),
        });
    }
    if runs.is_empty() {
        return Ok(true);
    }
    let mut ends = 0;
    for (i, (who, what)) in turns.iter().enumerate() {
        let n = runs.len();
        let who = *who as usize % n;
        let r = &mut runs[who];
        let before = r.left.len();
        ctx.tick("turn", format!("{who} {what:?} {before}").as_bytes());
        ctx.states.push(crate::rng::hash_bytes(before as u64, format!("{what:?}").as_bytes()));
        if let Err(e) = seam::tracked(|| r.len().and_then(|()| r.step(*what))) {
            return fail("iteration", format!("turn {i} of iterator {who}, {before} left: {e}"));
        }
        if before > 0 {
            ends |= match what {
                It::Next | It::Nth(_) | It::Skip(_) | It::Take(_) | It::Find(_) => 1,
                It::NextBack | It::NthBack(_) | It::Rev(_) | It::RFind(_) => 2,
                _ => 0,
            };
        }
    }
    for (who, r) in runs.iter_mut().enumerate() {
        for what in [It::Len, It::Next, It::NextBack, It::Take(14), It::Next, It::NextBack, It::Nth(5), It::NthBack(5)] {
            if let Err(e) = r.step(what) {
                return fail("iteration", format!("at the end of iterator {who}: {e}"));
            }
        }
    }
    ctx.nontrivial |= ends == 3;
    Ok(true)
}

impl Scenario for C13 {
    const ID: &'static str = "C13";
    const RUNS: (u64, u64) = (300_000, 20_000_000);
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let wild = rng.chance(1, 4);
        let size = rng.range(3, 30);
        let spec = gen(
            rng,
            &GenCfg {
                wild,
                size,
                depth: 4,
                safe: false,
            },
        );
        let cfg = OpCfg::swarm(rng, false);
        let n = rng.range(1, 8);
        let steps = (0..n)
            .map(|_| match rng.below(8) {
                0..=2 => Step::Op(gen_op(rng, &cfg, 2)),
                3 => Step::Grow(rng.below(64) as u16, rng.size(10, 300) as u16),
                _ => {
                    let k = if rng.chance(1, 2) { 1 } else { rng.range(2, 3) };
                    let open = (0..k).map(|_| (rng.below(256) as u16, rng.below(4) as u8)).collect();
                    let t = 1 + rng.size(10, 40);
                    let turns = (0..t).map(|_| (rng.below(k) as u8, gen_it(rng))).collect();
                    Step::Iterate(open, turns)
                }
            })
            .collect();
        Plan { spec, steps }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        let Some((mut doc, mut tree)) = open(&plan.spec) else {
            ctx.count("rejected");
            return Ok(());
        };
        if !tree.adopt(&doc) {
            ctx.count("diverged");
            return Ok(());
        }
        for (i, step) in plan.steps.iter().enumerate() {
            let mut edits: Vec<Op> = Vec::new();
            match step {
                Step::Op(op) => edits.push(op.clone()),
                Step::Grow(t, n) => {
                    let colls = tree.nodes(|n| n.coll().is_some());
                    if colls.is_empty() {
                        continue;
                    }
                    let uid = colls[*t as usize % colls.len()];
                    let map = tree.root.find(uid).and_then(|n| n.coll()).is_some_and(|c| c.map);
                    let kind = tree.nodes(|n| n.coll().is_some_and(|c| c.map == map));
                    let at = kind.iter().position(|u| *u == uid).unwrap_or(0) as u16;
                    for k in 0..*n % 400 {
                        let v = crate::ops::PutV::Direct(crate::ops::SetOp::Bool(k % 2 == 0));
                        let e = if map {
                            crate::ops::Edit::Put(at, crate::ops::KeySel::New(format!("g{k}")), v)
                        } else {
                            crate::ops::Edit::Add(at, v)
                        };
                        edits.push(Op { c: 0, route: 0, e });
                    }
                }
                Step::Iterate(open, turns) => {
                    if !iterate(&doc, &tree, open, turns, ctx)? {
                        ctx.count("diverged");
                        return Ok(());
                    }
                }
            }
            for op in &edits {
                if tree.root.size() > 1200 {
                    break;
                }
                let Some(act) = resolve(&tree, op) else { continue };
                note(ctx, &act);
                seam::tracked(|| exec(&mut doc, &act));
                model(&mut tree, &act);
                if edits.len() == 1 && !follow(&mut tree, &doc) {
                    ctx.count("diverged");
                    return Ok(());
                }
            }
            if edits.len() > 1 && !follow(&mut tree, &doc) {
                ctx.count("diverged");
                return Ok(());
            }
            if i == 0 {
                ctx.state(&text(&doc));
            }
        }
        Ok(())
    }

    fn about() -> About {
        About {
            title: "two-ended iteration delivers every entry exactly once",
            rule: "Each run edits a generated document (collections grow up to a few hundred entries), and opens up to three iterators at once on its mappings and sequences, each drained by a front and a back consumer under a seeded schedule of single steps, skips, searches, size queries, consuming adapters and consumers stopping part-way; each turn is compared with a deque of what lookup finds. Non-trivial: some iterator was used from both ends.",
            faults: &[],
            real: &["nondestructive::yaml iterators, lookup, editing"],
            stub: &["consumers (simulated)", "hash seeds (getrandom)"],
            assumptions: &["Runs in which lookup differs from the model of the document are counted as diverged and left to C05."],
        }
    }
}
