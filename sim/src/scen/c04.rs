//! Load-save cycles are lossless, also on damaged input.

use nondestructive::yaml::Document;
use serde::{Deserialize, Serialize};

use crate::damage::{self, Dmg};
use crate::disk::{gen_faults, Disk, Faults, File};
use crate::engine::{About, Scenario};
use crate::read::{digest, text};
use crate::rng::Rng;
use crate::rt::{fail, Ctx, Res};
use crate::spec::{gen, DocSpec, GenCfg};
use crate::world::{bug, load, restore, restore_tree, show, snapshot, snapshot_tree};

#[derive(Serialize, Deserialize)]
enum Step {
    Damage(Vec<Dmg>),
    Clone,
    Snapshot(bool),
    /// Save to the disk.
    Save(Faults),
    Crash(u64),
    Text,
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    spec: DocSpec,
    other: DocSpec,
    steps: Vec<Step>,
}

pub struct C04;

fn check(doc: &Document, bytes: &[u8], what: &str) -> Res {
    let got = text(doc);
    if got != bytes {
        return fail("bytes", format!("{what}: loaded {}, saved {}", show(bytes), show(&got)));
    }
    if let Ok(s) = std::str::from_utf8(bytes) {
        let got = doc.to_string();
        if got != s {
            return fail("text", format!("{what}: loaded {s:?}, formatted {got:?}"));
        }
    }
    Ok(())
}

const MAIN: &str = "f";
const TEMP: &str = "t";

impl Scenario for C04 {
    const ID: &'static str = "C04";
    const RUNS: (u64, u64) = (400_000, 30_000_000);
    const CAP: usize = 1 << 30;
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let wild = rng.chance(1, 2);
        let size = rng.range(2, 24);
        let mut cfg = GenCfg {
            wild,
            size,
            depth: 6,
            safe: false,
        };
        let spec = gen(rng, &cfg);
        cfg.size = 6;
        let other = gen(rng, &cfg);
        let n = rng.range(2, 14);
        let steps = (0..n)
            .map(|_| match rng.below(12) {
                0..=4 => Step::Damage(damage::gen(rng)),
                5 => Step::Clone,
                6 => Step::Snapshot(rng.chance(1, 2)),
                7 | 8 => Step::Save(gen_faults(rng, 60)),
                9 => Step::Crash(rng.u64()),
                _ => Step::Text,
            })
            .collect();
        Plan { spec, other, steps }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        let mut bytes = plan.spec.build().render();
        let other = plan.other.build().render();
        let mut doc = match load(&bytes) {
            Ok(doc) => doc,
            Err(_) => {
                ctx.count("rejected");
                bytes = b"a: 1\n".to_vec();
                match load(&bytes) {
                    Ok(doc) => doc,
                    Err(_) => return Ok(()),
                }
            }
        };
        check(&doc, &bytes, "at first")?;
        let mut reads = digest(&doc, false);
        let mut disk = Disk::default();
        disk.arm(&Vec::new());
        // Loaded again and again by different processes.
        for (i, step) in plan.steps.iter().enumerate() {
            let what = format!("step {i}");
            match step {
                Step::Damage(d) => {
                    let mut b = bytes.clone();
                    damage::apply(&mut b, d, &other, ctx);
                    ctx.tick("damage", &b);
                    match load(&b) {
                        Ok(new) => {
                            ctx.probe("damaged input loaded");
                            ctx.nontrivial = true;
                            doc = new;
                            bytes = b;
                            reads = digest(&doc, false);
                            disk = Disk::default();
                        }
                        Err(_) => ctx.count("damaged input rejected"),
                    }
                }
                Step::Clone => {
                    ctx.tick("clone", &[]);
                    doc = doc.clone();
                }
                Step::Snapshot(cbor) => {
                    ctx.tick("snapshot", &[]);
                    ctx.fault("crash and restore");
                    let back = if *cbor {
                        snapshot(&doc).ok().and_then(|b| restore(&b).ok())
                    } else {
                        snapshot_tree(&doc, None).0.ok().and_then(|c| restore_tree(&c, None).0.ok())
                    };
                    match back {
                        Some(back) => doc = back,
                        None => ctx.count("no snapshot"),
                    }
                }
                Step::Save(faults) => {
                    disk.arm(faults);
                    let mut save = || -> std::io::Result<()> {
                        let inode = disk.create(ctx, TEMP)?;
                        doc.write_to(File {
                            disk: &mut disk,
                            ctx,
                            inode,
                        })?;
                        disk.fsync(ctx, inode)?;
                        disk.rename(ctx, TEMP, MAIN)?;
                        disk.fsync_dir(ctx)
                    };
                    let r = save();
                    if let Some(seed) = disk.crashed {
                        disk.crash(seed);
                    } else if r.is_err() {
                        disk.arm(&Vec::new());
                        let _ = disk.unlink(ctx, TEMP);
                    }
                }
                Step::Crash(seed) => {
                    ctx.tick("crash", &[]);
                    ctx.fault("crash between calls");
                    disk.crash(*seed);
                    if let Some(b) = disk.read(MAIN) {
                        if b != bytes {
                            return fail("saved", format!("{what}: saved {}, of {}", show(b), show(&bytes)));
                        }
                        let Ok(new) = load(b) else {
                            return Err(bug("loads no more"));
                        };
                        ctx.probe("loaded from the disk");
                        doc = new;
                    }
                }
                Step::Text => {
                    let t = text(&doc);
                    let Ok(new) = load(&t) else {
                        return fail("bytes", format!("{what}: saved {}, which does not load", show(&t)));
                    };
                    ctx.tick("reload", &t);
                    doc = new;
                }
            }
            check(&doc, &bytes, &what)?;
            if digest(&doc, false) != reads {
                return fail("reads", format!("{what}: reads differ after a cycle of {}", show(&bytes)));
            }
            ctx.state(&bytes);
        }
        Ok(())
    }

    fn about() -> About {
        About {
            title: "load-save cycles are lossless, also on damaged input",
            rule: "Each run takes a generated document (half of them not UTF-8 and malformed) through a seeded sequence of damage by storage, crash, load, save to a faulty disk, snapshot and clone; whatever loads must be saved and formatted byte for byte. Non-trivial: some damaged input loaded.",
            faults: &["truncated", "start lost", "zeroed", "bit flipped", "overwritten", "inserted", "duplicated", "dropped", "stale", "crash and restore", "crash between calls", "crash in write", "short write", "interrupted", "disk full", "write failed"],
            real: &["nondestructive::yaml parser, write_to, Display, clone, snapshots"],
            stub: &["disk", "hash seeds (getrandom)"],
            assumptions: &[],
        }
    }
}
