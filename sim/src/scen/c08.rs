//! Stored identifiers keep addressing the same value.

use nondestructive::yaml::{Document, Id};
use serde::{Deserialize, Serialize};

use crate::engine::{About, Scenario};
use crate::model::{Node, Tree};
use crate::ops::{exec, gen_op, model, resolve, Act, Op, OpCfg, Ret};
use crate::read::{digest, ids, text};
use crate::rng::Rng;
use crate::rt::{fail, Ctx, Res};
use crate::seam;
use crate::spec::{gen, DocSpec, GenCfg};
use crate::world::{bug, follow, note, open, position, restore, restore_tree, show, snapshot, snapshot_tree, walk};

#[derive(Serialize, Deserialize)]
enum Step {
    Op(Op),
    /// Clone, carry on with the clone.
    Clone,
    /// Clone and keep for later.
    Checkpoint,
    /// Lose everything since the checkpoint.
    Rollback,
    /// Crash: the document and the identifiers come back from storage.
    Restore(bool),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    spec: DocSpec,
    steps: Vec<Step>,
}

pub struct C08;

#[derive(Clone)]
struct State {
    /// Edited through identifiers stored when values came to be.
    a: Document,
    /// Edited through identifiers looked up right before.
    b: Document,
    tree: Tree,
}

fn live(tree: &Tree) -> Vec<(u32, Id)> {
    let mut out = Vec::new();
    tree.root.visit(&mut |n: &Node| {
        if let Some(id) = n.id {
            out.push((n.uid, id));
        }
    });
    out
}

impl State {
    fn check(&self, ctx: &mut Ctx, what: &str) -> Result<bool, crate::rt::Violation> {
        let Some(all) = ids(&self.a) else {
            return fail("duplicate", format!("{what}: two values have the same identifier"));
        };
        let live = live(&self.tree);
        if all.len() != live.len() {
            return Ok(false);
        }
        for (uid, id) in &live {
            let Some(at) = position(&self.tree, *uid) else {
                return Err(bug("no position"));
            };
            let (Some(a), Some(b)) = (walk(&self.a, &at), walk(&self.b, &at)) else {
                return Ok(false);
            };
            if a.id() != *id {
                return fail("moved", format!("{what}: the value at {at:?} was {id}, and is {}", a.id()));
            }
            let by_id = self.a.value(*id);
            if by_id.id() != *id || by_id.to_string() != b.to_string() || format!("{by_id:?}") != format!("{a:?}") {
                return fail("addresses", format!("{what}: {id} reads {by_id:?}, at {at:?} there is {b:?}"));
            }
            ctx.count("identifiers checked");
        }
        if digest(&self.a, false) != digest(&self.b, false) || text(&self.a) != text(&self.b) {
            return fail(
                "effect",
                format!(
                    "{what}: edited by stored identifier {}, by lookup {}",
                    show(&text(&self.a)),
                    show(&text(&self.b))
                ),
            );
        }
        Ok(true)
    }
}

impl Scenario for C08 {
    const ID: &'static str = "C08";
    const RUNS: (u64, u64) = (300_000, 10_000_000);
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let wild = rng.chance(1, 4);
        let spec = gen(
            rng,
            &GenCfg {
                wild,
                size: rng.clone().range(3, 20),
                depth: 5,
                safe: false,
            },
        );
        let cfg = OpCfg::swarm(rng, false);
        let n = crate::ops::steps(rng, 14, 50) + 1;
        let clients = rng.range(1, 4) as u8;
        let steps = (0..n)
            .map(|_| match rng.below(24) {
                0 => Step::Clone,
                1 => Step::Checkpoint,
                2 => Step::Rollback,
                3 => Step::Restore(rng.chance(1, 2)),
                _ => Step::Op(gen_op(rng, &cfg, clients)),
            })
            .collect();
        Plan { spec, steps }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        let Some((a, _)) = open(&plan.spec) else {
            ctx.count("rejected");
            return Ok(());
        };
        let Some((b, _)) = open(&plan.spec) else {
            return Ok(());
        };
        let tree = Tree::learn(&a);
        let mut s = State { a, b, tree };
        let mut saved: Option<State> = None;
        if !s.check(ctx, "after loading")? {
            ctx.count("diverged");
            return Ok(());
        }
        let mut old = 0;
        let mut crashes = 0;
        for (i, step) in plan.steps.iter().enumerate() {
            let what = match step {
                Step::Op(op) => {
                    if s.tree.root.size() > 300 {
                        continue;
                    }
                    let Some(act) = resolve(&s.tree, op) else { continue };
                    note(ctx, &act);
                    let Some(at) = position(&s.tree, act.uid) else {
                        return Err(bug("no position"));
                    };
                    let Some(now) = walk(&s.b, &at).map(|v| v.id()) else {
                        ctx.count("diverged");
                        return Ok(());
                    };
                    let got = seam::tracked(|| exec(&mut s.a, &act));
                    let b_act = Act {
                        id: now,
                        path: None,
                        ..act.clone()
                    };
                    let other = exec(&mut s.b, &b_act);
                    let lost = |r: Ret| matches!(r, Ret::Lost | Ret::Removed(false));
                    if lost(got) != lost(other) {
                        return fail("effect", format!("step {i} {act:?}: {got:?}, by lookup {other:?}"));
                    }
                    model(&mut s.tree, &act);
                    if !follow(&mut s.tree, &s.a) {
                        ctx.count("diverged");
                        return Ok(());
                    }
                    if let Ret::Value(id) = got {
                        if !live(&s.tree).iter().any(|l| l.1 == id) {
                            return fail("returned", format!("step {i} {act:?}: returned {id}, which is no value"));
                        }
                    }
                    old += 1;
                    format!("step {i} {:?}", act.kind)
                }
                Step::Clone => {
                    ctx.tick("clone", &[]);
                    s.a = s.a.clone();
                    format!("step {i} clone")
                }
                Step::Checkpoint => {
                    ctx.tick("checkpoint", &[]);
                    saved = Some(s.clone());
                    format!("step {i} checkpoint")
                }
                Step::Rollback => {
                    let Some(old) = &saved else { continue };
                    ctx.tick("rollback", &[]);
                    ctx.fault("rollback");
                    s = old.clone();
                    format!("step {i} rollback")
                }
                Step::Restore(cbor) => {
                    ctx.tick("restore", &[u8::from(*cbor)]);
                    ctx.fault("crash and restore");
                    crashes += 1;
                    let mut list = live(&s.tree);
                    let only: Vec<Id> = list.iter().map(|l| l.1).collect();
                    let (back, stored): (Document, Vec<Id>) = if *cbor {
                        let (Ok(bytes), Ok(back)) = (
                            snapshot(&s.a),
                            snapshot(&s.a).and_then(|b| restore(&b)),
                        ) else {
                            ctx.count("no snapshot");
                            return Ok(());
                        };
                        ctx.state(&bytes);
                        let mut out = Vec::new();
                        let stored = ciborium::into_writer(&only, &mut out)
                            .ok()
                            .and_then(|()| ciborium::from_reader(&out[..]).ok());
                        let Some(stored) = stored else {
                            return fail("stored", "identifiers cannot be stored");
                        };
                        (back, stored)
                    } else {
                        let (Ok(c), Ok(l)) = (snapshot_tree(&s.a, None).0, snapshot_tree(&only, None).0) else {
                            ctx.count("no snapshot");
                            return Ok(());
                        };
                        let Ok(back) = restore_tree(&c, None).0 else {
                            ctx.count("no snapshot");
                            return Ok(());
                        };
                        let Ok(stored) = restore_tree(&l, None).0 else {
                            return fail("stored", "identifiers cannot be restored");
                        };
                        (back, stored)
                    };
                    s.a = back;
                    for (l, id) in list.iter_mut().zip(stored) {
                        if l.1 != id {
                            return fail("stored", format!("identifier {} came back as {id}", l.1));
                        }
                    }
                    format!("step {i} restore")
                }
            };
            if !s.check(ctx, &what)? {
                ctx.count("diverged");
                return Ok(());
            }
            ctx.state(&text(&s.a));
        }
        ctx.nontrivial = old > 2 && crashes > 0;
        Ok(())
    }

    fn about() -> About {
        About {
            title: "stored identifiers keep addressing the same value",
            rule: "Each run edits one document through identifiers stored when its values were first seen, and a twin through identifiers looked up right before each edit, under a seeded schedule of edits by up to four clients, clones, rollbacks and crashes restoring document and identifiers from storage; after every step every stored identifier must be distinct, be the one found at the position of its value, and read and edit the same as in the twin. Non-trivial: three edits and a restore from storage.",
            faults: &["rollback", "crash and restore"],
            real: &["nondestructive::yaml documents, identifiers, snapshots, serde of identifiers"],
            stub: &["clients (simulated)", "snapshot storage (ciborium and an in-memory serde format)", "hash seeds (getrandom)"],
            assumptions: &["Positions of values are followed with a model of the shape of the document; runs in which the shape differs are counted as diverged and left to C05."],
        }
    }
}
