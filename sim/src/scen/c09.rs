//! A document restored from a snapshot is indistinguishable.

use nondestructive::yaml::Document;
use serde::{Deserialize, Serialize};

use crate::content::{permute, C};
use crate::disk::{gen_faults, Disk, Faults, File};
use crate::engine::{About, Scenario};
use crate::model::Tree;
use crate::ops::{exec, gen_op, resolve, Op, OpCfg, Ret};
use crate::read::{digest, ids, ser, text};
use crate::rng::Rng;
use crate::rt::{catch, fail, Caught, Ctx, Res, Violation};
use crate::seam;
use crate::world::{bug, note, restore, restore_tree, show, snapshot, snapshot_tree, values, Start};

#[derive(Serialize, Deserialize)]
enum Step {
    Op(Op),
    /// Save a snapshot to the disk: faults while writing it, and after that.
    Save(Faults, Faults),
    /// Everything but the disk is lost. With the hash seed of the restarted
    /// process.
    Crash(u64, u64),
    /// Snapshot, lose everything else, and restore: how, and hash seed.
    Hop(u8, u64),
    FailSer(u16),
    FailDe(u16),
    FailWrite(u16),
    Truncate(u16),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    start: Start,
    steps: Vec<Step>,
}

pub struct C09;

/// Run in a thread with another hash seed, like a process which was restarted.
fn elsewhere<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, Violation> {
    let r = std::thread::scope(|s| {
        s.spawn(move || {
            seam::set_hash_seed(seed);
            catch(f).map_err(|c| match c {
                Caught::Library(m) => Violation {
                    class: "panic".into(),
                    detail: m,
                },
                Caught::Harness(m) => bug(m),
                Caught::Injected => bug("injected"),
            })
        })
        .join()
    });
    r.unwrap_or_else(|_| Err(bug("thread died")))
}

fn compare(a: &Document, b: &Document, what: &str) -> Res {
    let (ta, tb) = (text(a), text(b));
    if ta != tb {
        return fail("text", format!("{what}: never crashed {}, restored {}", show(&ta), show(&tb)));
    }
    let (da, db) = (digest(a, false), digest(b, false));
    if da != db {
        return fail("reads", format!("{what}: never crashed {}, restored {}", show(&da), show(&db)));
    }
    if a.to_string() != b.to_string() {
        return fail("reads", format!("{what}: formatted differently"));
    }
    if ser(&a.as_ref()) != ser(&b.as_ref()) {
        return fail("reads", format!("{what}: serialized differently"));
    }
    Ok(())
}

/// Where a value is, by its identifier.
fn place(doc: &Document, r: Ret) -> Result<String, Violation> {
    Ok(match r {
        Ret::Value(id) => match values(doc).iter().position(|v| v.id() == id) {
            Some(n) => format!("value {n}"),
            None => "no value of the document".into(),
        },
        other => format!("{other:?}"),
    })
}

struct Saved {
    bytes: Vec<u8>,
    twin: Document,
    ids: Vec<u8>,
}

impl Scenario for C09 {
    const ID: &'static str = "C09";
    const RUNS: (u64, u64) = (200_000, 20_000_000);
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let start = Start::gen(rng, 18, 8);
        let cfg = OpCfg::swarm(rng, false);
        let n = crate::ops::steps(rng, 10, 40) + 2;
        let faulty = rng.chance(1, 2);
        let mut steps: Vec<Step> = (0..n)
            .map(|_| match rng.below(22) {
                0 | 1 => Step::Hop(rng.below(4) as u8, if rng.chance(1, 4) { rng.u64() } else { 0 }),
                2 | 3 => {
                    if faulty && rng.chance(1, 2) {
                        let calls = *rng.pick(&[8usize, 60, 500, 1500]);
                        Step::Save(gen_faults(rng, calls), Vec::new())
                    } else if faulty {
                        Step::Save(Vec::new(), gen_faults(rng, 3))
                    } else {
                        Step::Save(Vec::new(), Vec::new())
                    }
                },
                4 => Step::Crash(rng.u64(), if rng.chance(1, 4) { rng.u64() } else { 0 }),
                5 => Step::FailSer(rng.u64() as u16),
                6 => Step::FailDe(rng.u64() as u16),
                7 => Step::Truncate(rng.u64() as u16),
                8 => Step::FailWrite(rng.u64() as u16),
                _ => Step::Op(gen_op(rng, &cfg, 1)),
            })
            .collect();
        // What follows a restore is what matters.
        if rng.chance(1, 2) {
            steps.insert(0, Step::Hop(rng.below(4) as u8, rng.u64()));
        }
        Plan { start, steps }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        let Some(mut a) = plan.start.open(ctx) else { return Ok(()) };
        let mut b = a.clone();
        let mut disk = Disk::default();
        // What may be on the disk: the last which is known to be durable, and
        // any written since.
        let mut saved: Vec<Saved> = Vec::new();
        let mut restored = false;
        for (i, step) in plan.steps.iter().enumerate() {
            let what = format!("step {i}");
            match step {
                Step::Op(op) => {
                    let ta = Tree::learn(&a);
                    if ta.root.size() > 250 {
                        continue;
                    }
                    let Some(act) = resolve(&ta, op) else { continue };
                    let Some(other) = resolve(&Tree::learn(&b), op) else {
                        return fail("reads", format!("{what}: the operation does not apply to the restored document"));
                    };
                    note(ctx, &act);
                    let ra = seam::tracked(|| exec(&mut a, &act));
                    let rb = seam::tracked(|| exec(&mut b, &other));
                    let (ra, rb) = (place(&a, ra)?, place(&b, rb)?);
                    if ra != rb {
                        return fail("result", format!("{what} {:?}: never crashed {ra}, restored {rb}", act.kind));
                    }
                    if restored {
                        ctx.probe("edit after a restore");
                        ctx.nontrivial = true;
                    }
                    compare(&a, &b, &format!("{what} {:?}", act.kind))?;
                    if ids(&b).is_none() {
                        return fail("identifiers", format!("{what} {:?}: identifiers are not distinct", act.kind));
                    }
                }
                Step::Save(faults, tail) => {
                    let Ok(bytes) = snapshot(&b) else {
                        return fail("snapshot", format!("{what}: the document can not be serialized"));
                    };
                    let state = digest(&b, true);
                    disk.arm(faults);
                    saved.push(Saved {
                        bytes,
                        twin: a.clone(),
                        ids: state.clone(),
                    });
                    let r = (|| -> Result<(), String> {
                        let inode = disk.create(ctx, "snap.tmp").map_err(|e| e.to_string())?;
                        let file = File {
                            disk: &mut disk,
                            ctx,
                            inode,
                        };
                        ciborium::into_writer(&b, file).map_err(|e| e.to_string())?;
                        disk.arm(tail);
                        disk.fsync(ctx, inode).map_err(|e| e.to_string())?;
                        disk.rename(ctx, "snap.tmp", "snap").map_err(|e| e.to_string())?;
                        disk.fsync_dir(ctx).map_err(|e| e.to_string())
                    })();
                    ctx.tick("save", &[u8::from(r.is_ok())]);
                    if digest(&b, true) != state {
                        return fail("changed", format!("{what}: saving a snapshot changed the document"));
                    }
                    if r.is_ok() {
                        let last = saved.len() - 1;
                        saved.drain(..last);
                    }
                    if let Some(seed) = disk.crashed {
                        Self::recover(&mut disk, seed, seed ^ 1, &mut saved, &mut a, &mut b, ctx, &what)?;
                        restored = true;
                    }
                    disk.arm(&Vec::new());
                }
                Step::Crash(seed, hash) => {
                    if saved.is_empty() {
                        continue;
                    }
                    ctx.fault("crash");
                    Self::recover(&mut disk, *seed, *hash, &mut saved, &mut a, &mut b, ctx, &what)?;
                    restored = true;
                }
                Step::Hop(how, hash) => {
                    ctx.tick("hop", &[*how]);
                    ctx.fault("crash right after a snapshot");
                    let state = digest(&b, true);
                    let next = match how % 4 {
                        0 | 1 => {
                            let Ok(bytes) = snapshot(&b) else {
                                return fail("snapshot", format!("{what}: the document can not be serialized"));
                            };
                            if *hash == 0 {
                                restore(&bytes)
                            } else {
                                ctx.fault("restart with another hash seed");
                                elsewhere(*hash, move || restore(&bytes))?
                            }
                        }
                        n => {
                            let (r, _) = snapshot_tree(&b, None);
                            let mut c = match r {
                                Ok(c) => c,
                                Err(e) => return fail("snapshot", format!("{what}: the document can not be serialized: {e}")),
                            };
                            if n == 3 {
                                ctx.fault("unordered entries permuted");
                                permute(&mut c, &mut Rng::new(*hash));
                            }
                            restore_tree::<Document>(&c, None).0.map_err(|e| e.to_string())
                        }
                    };
                    b = match next {
                        Ok(d) => d,
                        Err(e) => return fail("restore", format!("{what}: the snapshot can not be restored: {e}")),
                    };
                    if digest(&b, true) != state {
                        return fail(
                            "identifiers",
                            format!("{what}: before {}, restored {}", show(&state), show(&digest(&b, true))),
                        );
                    }
                    restored = true;
                    compare(&a, &b, &what)?;
                }
                Step::FailSer(n) => {
                    let state = (digest(&b, true), text(&b));
                    let (whole, gate) = snapshot_tree(&b, None);
                    let calls = gate.calls.get();
                    if whole.is_err() || calls == 0 {
                        return fail("snapshot", format!("{what}: the document can not be serialized"));
                    }
                    let k = u64::from(*n) % calls;
                    ctx.tick("fail serializer", &k.to_le_bytes());
                    ctx.fault("serializer failed");
                    let (r, gate) = snapshot_tree(&b, Some(k));
                    match r {
                        Err(e) if e.tag == Some(k) => {}
                        Err(e) => return fail("error", format!("{what}: serializer failed at call {k}, reported {e}")),
                        Ok(_) => return fail("swallowed", format!("{what}: serializer failed at call {k}, success reported")),
                    }
                    if gate.after.get() > 0 {
                        return fail("after", format!("{what}: serializer called after it failed at call {k}"));
                    }
                    if (digest(&b, true), text(&b)) != state {
                        return fail("changed", format!("{what}: a failing snapshot changed the document"));
                    }
                }
                Step::FailDe(n) => {
                    let (whole, _) = snapshot_tree(&b, None);
                    let c: C = match whole {
                        Ok(c) => c,
                        Err(e) => return fail("snapshot", format!("{what}: the document can not be serialized: {e}")),
                    };
                    let (r, gate) = restore_tree::<Document>(&c, None);
                    let calls = gate.calls.get();
                    if r.is_err() || calls == 0 {
                        return fail("restore", format!("{what}: the snapshot can not be restored"));
                    }
                    let k = u64::from(*n) % calls;
                    ctx.tick("fail deserializer", &k.to_le_bytes());
                    ctx.fault("deserializer failed");
                    if restore_tree::<Document>(&c, Some(k)).0.is_ok() {
                        return fail("swallowed", format!("{what}: deserializer failed at call {k}, success reported"));
                    }
                }
                Step::FailWrite(n) => {
                    let Ok(bytes) = snapshot(&b) else {
                        return fail("snapshot", format!("{what}: the document can not be serialized"));
                    };
                    let k = *n as usize % bytes.len();
                    let state = (digest(&b, true), text(&b));
                    ctx.tick("full disk", &k.to_le_bytes());
                    ctx.fault("storage full");
                    let mut room = vec![0; k];
                    if ciborium::into_writer(&b, &mut room[..]).is_ok() {
                        return fail("swallowed", format!("{what}: no room after {k} bytes, success reported"));
                    }
                    if (digest(&b, true), text(&b)) != state {
                        return fail("changed", format!("{what}: a failing snapshot changed the document"));
                    }
                }
                Step::Truncate(n) => {
                    let Ok(bytes) = snapshot(&b) else {
                        return fail("snapshot", format!("{what}: the document can not be serialized"));
                    };
                    let k = *n as usize % bytes.len();
                    ctx.tick("truncate", &k.to_le_bytes());
                    ctx.fault("snapshot truncated");
                    if restore(&bytes[..k]).is_ok() {
                        return fail("swallowed", format!("{what}: {k} of {} bytes of a snapshot restored", bytes.len()));
                    }
                }
            }
            ctx.state(&text(&b));
        }
        Ok(())
    }

    fn about() -> About {
        About {
            title: "a document restored from a snapshot is indistinguishable",
            rule: "Each run brings a document into some state (generated, a quarter of them damaged, edited), then two twins take the same seeded edits: one never crashes, the other is time and again serialized as a whole (to CBOR on a faulty disk, to CBOR or a tree in memory), lost, and restored, in part in a process with another hash seed or with unordered entries permuted; after every step text, reads, results and identifiers are compared. In between serializer, deserializer and storage fail at seeded calls, and snapshots are truncated. Non-trivial: an edit was made after a restore.",
            faults: &[
                "crash",
                "crash right after a snapshot",
                "restart with another hash seed",
                "unordered entries permuted",
                "serializer failed",
                "deserializer failed",
                "storage full",
                "snapshot truncated",
                "short write",
                "interrupted",
                "disk full",
                "write failed",
                "fsync failed",
                "rename failed",
                "create failed",
                "fsync directory failed",
                "crash in write",
                "crash in fsync",
                "crash in rename",
                "crash in create",
                "crash in fsync directory",
            ],
            real: &["nondestructive::yaml serde of whole documents and identifiers (feature serde-edits), editing, reading, output", "ciborium (CBOR)"],
            stub: &["disk", "tree serializer and deserializer", "restarted process (a thread with its own hash seed)", "hash seeds (getrandom)"],
            assumptions: &["Numeric identifiers of values created after a restore may differ from those of the twin: they are compared by the place of the value."],
        }
    }
}

impl C09 {
    /// Restart from what the disk holds.
    #[allow(clippy::too_many_arguments)]
    fn recover(
        disk: &mut Disk,
        seed: u64,
        hash: u64,
        saved: &mut Vec<Saved>,
        a: &mut Document,
        b: &mut Document,
        ctx: &mut Ctx,
        what: &str,
    ) -> Res {
        disk.crash(seed);
        disk.arm(&Vec::new());
        ctx.tick("crash", &seed.to_le_bytes());
        if let Some(torn) = disk.read("snap.tmp") {
            let whole = saved.iter().any(|s| s.bytes == torn);
            let prefix = saved.iter().any(|s| s.bytes.len() > torn.len() && s.bytes.starts_with(torn));
            if !whole && prefix {
                ctx.probe("torn snapshot");
                if restore(torn).is_ok() {
                    return fail("swallowed", format!("{what}: a torn snapshot was restored"));
                }
            }
        }
        let Some(bytes) = disk.read("snap").map(<[u8]>::to_vec) else {
            // Nothing was durable yet.
            if let Some(first) = saved.first() {
                // Start over from what the first one would have been.
                *a = first.twin.clone();
                *b = first.twin.clone();
            }
            ctx.probe("no snapshot durable");
            saved.clear();
            return Ok(());
        };
        let Some(n) = saved.iter().rposition(|s| s.bytes == bytes) else {
            return Err(bug(format!("{what}: the disk lost a durable snapshot")));
        };
        let doc = if hash & 3 == 0 {
            restore(&bytes)
        } else {
            ctx.fault("restart with another hash seed");
            elsewhere(hash, move || restore(&bytes))?
        };
        *b = match doc {
            Ok(d) => d,
            Err(e) => return fail("restore", format!("{what}: the snapshot can not be restored: {e}")),
        };
        let s = saved.swap_remove(n);
        *a = s.twin.clone();
        if digest(b, true) != s.ids {
            return fail(
                "identifiers",
                format!("{what}: before {}, restored {}", show(&s.ids), show(&digest(b, true))),
            );
        }
        saved.clear();
        saved.push(s);
        compare(a, b, what)
    }
}
