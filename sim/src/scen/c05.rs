//! Interleaved edit sessions refine a sequential document model.

use nondestructive::yaml::{AnyMut, Document};
use serde::{Deserialize, Serialize};

use crate::engine::{About, Scenario};
use crate::model::{Tree, Val};
use crate::ops::{exec, gen_op, model, resolve, Kind, Op, OpCfg, Ret};
use crate::content::HINTS;
use crate::read::{fitting, hinted, text, Opts, Reader};
use crate::rng::Rng;
use crate::rt::{fail, Ctx, Res};
use crate::seam;
use crate::spec::{gen, DocSpec, GenCfg};
use crate::world::{follow, note, open, position, walk};

#[derive(Serialize, Deserialize)]
enum Step {
    Op(Op),
    Checkpoint(u8),
    Rollback(u8),
    Probe(u16),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    spec: DocSpec,
    steps: Vec<Step>,
}

pub struct C05;

/// Access for editing finds what access for reading does.
fn probe(doc: &mut Document, tree: &Tree, n: u16) -> Result<(), String> {
    let uids = tree.nodes(|_| true);
    let uid = uids[n as usize % uids.len()];
    let Some(node) = tree.root.find(uid) else { return Ok(()) };
    let Some(id) = node.id else { return Ok(()) };
    for k in 0..3 {
        hinted(doc, id, ((n >> 3) as u8).wrapping_mul(7).wrapping_add(k * 10) % HINTS)?;
    }
    fitting(doc, id)?;
    let (map, seq) = match &node.val {
        Val::Coll(c) => (c.map, !c.map),
        _ => (false, false),
    };
    let want = (map, seq);
    let mut v = doc.value_mut(id);
    let got = (v.as_mapping_mut().is_some(), v.as_sequence_mut().is_some());
    if got != want {
        return Err(format!("as_mapping_mut, as_sequence_mut: {got:?}, expected {want:?}"));
    }
    let got = (
        doc.value_mut(id).into_mapping_mut().is_some(),
        doc.value_mut(id).into_sequence_mut().is_some(),
    );
    if got != want {
        return Err(format!("into_mapping_mut, into_sequence_mut: {got:?}, expected {want:?}"));
    }
    let any = doc.value_mut(id).into_any_mut().id();
    if any != id {
        return Err(format!("AnyMut::id: {any}, expected {id}"));
    }
    let got = match doc.value_mut(id).into_any_mut() {
        AnyMut::Mapping(m) => (true, false, m.as_ref().id()),
        AnyMut::Sequence(s) => (false, true, s.as_ref().id()),
        AnyMut::Scalar(s) => (false, false, s.as_ref().id()),
        _ => return Err("into_any_mut".into()),
    };
    if got != (map, seq, id) {
        return Err(format!("into_any_mut: {got:?}, expected {want:?}"));
    }
    if doc.value_mut(id).into_ref().id() != id || doc.value(id).id() != id {
        return Err("into_ref".into());
    }
    let Some(c) = node.coll() else { return Ok(()) };
    if map {
        let Some(mut m) = doc.value_mut(id).into_mapping_mut() else { return Ok(()) };
        if m.get_mut("\u{1}missing").is_some() {
            return Err("get_mut of a missing key".into());
        }
        if doc.value_mut(id).into_mapping_mut().is_some_and(|m| m.get_into_mut("\u{1}missing").is_some()) {
            return Err("get_into_mut of a missing key".into());
        }
        let Some(mut m) = doc.value_mut(id).into_mapping_mut() else { return Ok(()) };
        if m.as_ref().len() != c.items.len() {
            return Err("length through as_ref".into());
        }
        for (i, item) in c.items.iter().enumerate() {
            let Ok(k) = std::str::from_utf8(&item.key) else { continue };
            if c.items.iter().position(|o| o.key == item.key) != Some(i) {
                continue;
            }
            if m.get_mut(k).map(|v| v.as_ref().id()) != item.node.id {
                return Err(format!("get_mut({k:?})"));
            }
            let into = doc
                .value_mut(id)
                .into_mapping_mut()
                .and_then(|m| m.get_into_mut(k).map(|v| v.into_ref().id()));
            if into != item.node.id {
                return Err(format!("get_into_mut({k:?})"));
            }
            match doc.value_mut(id).into_mapping_mut() {
                Some(again) => m = again,
                None => return Ok(()),
            }
        }
        if m.into_ref().id() != id {
            return Err("Mapping::into_ref".into());
        }
    } else {
        for i in 0..=c.items.len() {
            let want = c.items.get(i).and_then(|i| i.node.id);
            let Some(mut s) = doc.value_mut(id).into_sequence_mut() else { return Ok(()) };
            if s.as_ref().len() != c.items.len() {
                return Err("length through as_ref".into());
            }
            if s.get_mut(i).map(|v| v.as_ref().id()) != want {
                return Err(format!("get_mut({i})"));
            }
            if doc.value_mut(id).into_sequence_mut().map(|s| s.into_ref().id()) != Some(id) {
                return Err("Sequence::into_ref".into());
            }
            let Some(s) = doc.value_mut(id).into_sequence_mut() else { return Ok(()) };
            if s.get_into_mut(i).map(|v| v.into_ref().id()) != want {
                return Err(format!("get_into_mut({i})"));
            }
        }
    }
    Ok(())
}

impl Scenario for C05 {
    const ID: &'static str = "C05";
    const RUNS: (u64, u64) = (300_000, 10_000_000);
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let wild = rng.chance(1, 3);
        let spec = gen(
            rng,
            &GenCfg {
                wild,
                size: rng.clone().range(3, 24),
                depth: 5,
                safe: false,
            },
        );
        let cfg = OpCfg::swarm(rng, false);
        let clients = rng.range(1, 4) as u8;
        let n = crate::ops::steps(rng, 14, 60) + 1;
        let steps = (0..n)
            .map(|_| match rng.below(24) {
                0 => Step::Checkpoint(rng.below(2) as u8),
                1 => Step::Rollback(rng.below(2) as u8),
                2 | 3 => Step::Probe(rng.below(1 << 12) as u16),
                _ => Step::Op(gen_op(rng, &cfg, clients)),
            })
            .collect();
        Plan { spec, steps }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        let Some((mut doc, _)) = open(&plan.spec) else {
            ctx.count("rejected");
            return Ok(());
        };
        let reader = Reader {
            opts: Opts {
                stored: false,
                serde: true,
            },
        };
        let mut tree = Tree::learn(&doc);
        if let Err(e) = reader.document(&doc, &tree) {
            return fail("read", format!("after loading: {e}"));
        }
        let mut saved: [Option<(Document, Tree)>; 2] = [None, None];
        let mut clients = 0u32;
        let mut done = 0;
        for (i, step) in plan.steps.iter().enumerate() {
            match step {
                Step::Op(op) => {
                    let Some(act) = resolve(&tree, op) else { continue };
                    if tree.root.size() > 400 {
                        continue;
                    }
                    note(ctx, &act);
                    let got = seam::tracked(|| exec(&mut doc, &act));
                    let want = model(&mut tree, &act);
                    if !follow(&mut tree, &doc) {
                        let e = reader.document(&doc, &tree).err().unwrap_or_default();
                        return fail("content", format!("step {i} {:?}: shape: {e}", act.kind));
                    }
                    let want = match (&act.kind, want) {
                        // What was inserted is what is returned.
                        (Kind::Put(key, _), Ret::Done) => match got {
                            Ret::Value(_) => tree
                                .root
                                .find(act.uid)
                                .and_then(|n| n.coll()?.items.iter().find(|i| i.key == *key)?.node.id)
                                .map_or(Ret::Lost, Ret::Value),
                            _ => Ret::Done,
                        },
                        (Kind::Add(_), Ret::Done) => match got {
                            Ret::Value(_) => tree
                                .root
                                .find(act.uid)
                                .and_then(|n| n.coll()?.items.last()?.node.id)
                                .map_or(Ret::Lost, Ret::Value),
                            _ => Ret::Done,
                        },
                        (_, want) => want,
                    };
                    if got != want {
                        return fail("returned", format!("step {i} {:?}: returned {got:?}, expected {want:?}", act.kind));
                    }
                    clients |= 1 << op.c;
                    done += 1;
                }
                Step::Checkpoint(n) => {
                    ctx.tick("checkpoint", &[*n]);
                    saved[*n as usize % 2] = Some((doc.clone(), tree.clone()));
                }
                Step::Rollback(n) => {
                    if let Some((d, t)) = &saved[*n as usize % 2] {
                        ctx.tick("rollback", &[*n]);
                        ctx.fault("rollback");
                        doc = d.clone();
                        tree = t.clone();
                    }
                }
                Step::Probe(n) => {
                    ctx.tick("probe", &n.to_le_bytes());
                    if let Err(e) = probe(&mut doc, &tree, *n) {
                        return fail("access", format!("step {i}: {e}"));
                    }
                }
            }
            if let Err(e) = reader.document(&doc, &tree) {
                return fail("content", format!("step {i}: {e}"));
            }
            // By identifier.
            for uid in tree.nodes(|_| true) {
                let node = tree.root.find(uid).and_then(|n| n.id);
                let here = position(&tree, uid).and_then(|at| walk(&doc, &at).map(|v| v.id()));
                if node.is_none() || node != here {
                    // Identifiers are a property of their own.
                    ctx.count("identifier changed");
                    return Ok(());
                }
            }
            ctx.state(&text(&doc));
        }
        for (d, t) in saved.iter().flatten() {
            if let Err(e) = reader.document(d, t) {
                return fail("clone", format!("a checkpoint changed: {e}"));
            }
        }
        if clients.count_ones() > 1 && done > 2 {
            ctx.nontrivial = true;
        }
        Ok(())
    }

    fn about() -> About {
        About {
            title: "interleaved edit sessions refine a sequential document model",
            rule: "Each run generates a document (a third with damaged, non-UTF-8 and duplicate content), then a seeded schedule of up to four clients' edits (all editing operations, reached by identifier, consuming or borrowing access or AnyMut), checkpoints and rollbacks; after every step everything readable, and serde output, is compared with a sequential model. Non-trivial: at least two clients and three operations took effect.",
            faults: &["rollback"],
            real: &["nondestructive::yaml parser, document, editing, reading, serde"],
            stub: &["clients (simulated)", "hash seeds (getrandom)"],
            assumptions: &["The content of the document as loaded is taken from the document; C06 compares it with what was written."],
        }
    }
}
