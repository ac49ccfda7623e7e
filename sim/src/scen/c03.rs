//! Loading storage-damaged input terminates safely, whatever the damage.

use std::io::Write;

use nondestructive::yaml::{Any, Document, Value};
use serde::{Deserialize, Serialize};

use crate::damage::{self, Dmg};
use crate::disk::{gen_faults, Disk, Faults, File};
use crate::engine::{About, Scenario};
use crate::model::Tree;
use crate::read::{de, digest, ser, text, Opts, Reader};
use crate::rng::Rng;
use crate::rt::{fail, Ctx, Res, Violation};
use crate::seam;
use crate::spec::{gen, DocSpec, GenCfg};
use crate::world::{children, restore, show, snapshot, Start};

#[derive(Serialize, Deserialize)]
pub struct Plan {
    start: Start,
    /// What is in stale sectors.
    other: DocSpec,
    /// A save in place under faults, ending in a crash.
    save: Option<(Faults, u64)>,
    rounds: Vec<Vec<Dmg>>,
}

pub struct C03;

/// Everything which can be read.
fn read(doc: &Document) -> Result<(), Violation> {
    fn go(v: &Value<'_>, n: &mut usize) {
        *n += 1;
        let mut out = String::new();
        {
            use std::fmt::Write;
            let _ = write!(out, "{v} {v:?} {:?} {:?}", v.id(), v.as_any());
        }
        let _ = (v.as_str(), v.as_bstr(), v.as_bool());
        let _ = (v.as_f32(), v.as_f64(), v.as_u8(), v.as_i8(), v.as_u16(), v.as_i16(), v.as_u32());
        let _ = (v.as_i32(), v.as_u64(), v.as_i64(), v.as_u128(), v.as_i128(), v.as_number());
        match v.as_any() {
            Any::Mapping(m) => {
                out.push_str(&format!("{m} {m:?} {} {}", m.len(), m.is_empty()));
                for (k, _) in m.iter() {
                    if let Ok(k) = std::str::from_utf8(k) {
                        let _ = m.get(k);
                    }
                }
                let _ = (m.iter().rev().count(), m.iter().size_hint());
            }
            Any::Sequence(s) => {
                out.push_str(&format!("{s} {s:?} {} {}", s.len(), s.is_empty()));
                let _ = (s.first(), s.last(), s.get(0), s.get(usize::MAX));
                let _ = (s.iter().rev().count(), s.iter().size_hint());
            }
            Any::String(s) => out.push_str(&format!("{s:?} {:?}", s.as_raw())),
            Any::Number(n) => out.push_str(&format!("{n:?}")),
            _ => {}
        }
        for v in children(v) {
            go(&v, n);
        }
    }
    let mut n = 0;
    go(&doc.as_ref(), &mut n);
    let _ = format!("{doc} {doc:?}");
    if let Err(e) = ser(&doc.as_ref()) {
        return fail("serialize", format!("serializing fails: {e}"));
    }
    if let Err(e) = de(doc.as_ref()) {
        return fail("deserialize", format!("deserializing fails: {e}"));
    }
    let copy = doc.clone();
    if text(&copy) != text(doc) || digest(&copy, true) != digest(doc, true) {
        return fail("clone", "a clone differs");
    }
    drop(copy);
    // The ways of reading agree.
    let reader = Reader {
        opts: Opts {
            stored: false,
            serde: true,
        },
    };
    if let Err(e) = reader.document(doc, &Tree::learn(doc)) {
        return fail("read", e);
    }
    if let Ok(bytes) = snapshot(doc) {
        if let Ok(back) = restore(&bytes) {
            if text(&back) != text(doc) {
                return fail("snapshot", "a snapshot differs");
            }
        }
    }
    Ok(())
}

/// What may be allocated for any input, per byte, and per byte which may start
/// an entry.
const FIXED: usize = 16 << 10;
const PER_BYTE: usize = 64;
const PER_ENTRY: usize = 1024;

fn check(bytes: &[u8], ctx: &mut Ctx) -> Res {
    ctx.tick("load", bytes);
    ctx.state(bytes);
    let before = seam::tracked_live();
    seam::reset_peak();
    let r = crate::world::load(bytes);
    let peak = seam::tracked_peak() - before;
    let entries = bytes.iter().filter(|b| b",:-[{\n".contains(b)).count();
    if peak > FIXED + PER_BYTE * bytes.len() + PER_ENTRY * entries {
        return fail(
            "memory",
            format!("loading {} bytes allocated {peak} bytes: {}", bytes.len(), show(bytes)),
        );
    }
    match r {
        Ok(doc) => {
            ctx.probe("loaded");
            if let Err(mut v) = read(&doc) {
                v.detail = format!("{} in {}", v.detail, show(bytes));
                return Err(v);
            }
        }
        Err(e) => {
            ctx.probe(&format!("rejected.{:?}", e.kind()));
            let span = e.span();
            if span.start > span.end || span.end > bytes.len() {
                return fail(
                    "span",
                    format!("{:?} at {span:?} of {} bytes: {}", e.kind(), bytes.len(), show(bytes)),
                );
            }
            let _ = format!("{e} {e:?} {} {:?}", e.kind(), std::error::Error::source(&e).is_some());
        }
    }
    Ok(())
}

impl Scenario for C03 {
    const ID: &'static str = "C03";
    const RUNS: (u64, u64) = (300_000, 30_000_000);
    const CAP: usize = 1 << 30;
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let mut start = Start::gen(rng, 20, 3);
        start.damage.clear();
        let size = rng.range(1, 12);
        let other = gen(
            rng,
            &GenCfg {
                wild: true,
                size,
                depth: 4,
                safe: false,
            },
        );
        let save = rng.chance(1, 3).then(|| (gen_faults(rng, 80), rng.u64()));
        let n = rng.range(2, 10);
        let rounds = (0..n)
            .map(|_| {
                if rng.chance(1, 60) {
                    damage::gen_large(rng)
                } else if rng.chance(1, 10) {
                    (0..rng.range(1, 40)).map(|_| damage::gen_one(rng)).collect()
                } else {
                    damage::gen(rng)
                }
            })
            .collect();
        Plan {
            start,
            other,
            save,
            rounds,
        }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        let other = plan.other.build().render();
        let Some(doc) = plan.start.open(ctx) else {
            // Rejected, which is fine, but to be looked at.
            return check(&plan.start.bytes(ctx), ctx);
        };
        let mut good = text(&doc);
        if let Some((faults, seed)) = &plan.save {
            // Written over what was there, and cut short.
            let mut disk = Disk::default();
            let mut write = |bytes: &dyn Fn(&mut File<'_>), faults: &Faults, ctx: &mut Ctx, sync: bool| {
                disk.arm(faults);
                if let Ok(inode) = disk.create(ctx, "f") {
                    bytes(&mut File {
                        disk: &mut disk,
                        ctx,
                        inode,
                    });
                    if sync {
                        let _ = disk.fsync(ctx, inode);
                    }
                    let _ = disk.fsync_dir(ctx);
                }
            };
            write(
                &|f| {
                    let _ = f.write_all(&other);
                },
                &Vec::new(),
                ctx,
                true,
            );
            write(
                &|f| {
                    let _ = doc.write_to(f);
                },
                faults,
                ctx,
                false,
            );
            let seed = disk.crashed.unwrap_or(*seed);
            ctx.fault("crash in a save");
            disk.crash(seed);
            if let Some(left) = disk.read("f") {
                check(left, ctx)?;
                good = left.to_vec();
            }
        }
        for d in &plan.rounds {
            let mut bytes = good.clone();
            damage::apply(&mut bytes, d, &other, ctx);
            check(&bytes, ctx)?;
        }
        ctx.nontrivial = true;
        Ok(())
    }

    fn about() -> About {
        About {
            title: "loading storage-damaged input terminates safely, whatever the damage",
            rule: "Each run saves a generated and edited document, with faults and a crash in the middle of some saves, and loads it with up to ten seeded combinations of damage (or the leftovers of the crash); each must load or be rejected with a span inside of the input, within the memory allowed, and everything which can be read of what loads is read. A watchdog bounds processor time. Non-trivial: all which were not rejected undamaged.",
            faults: &["truncated", "start lost", "zeroed", "bit flipped", "overwritten", "inserted", "duplicated", "dropped", "stale", "repeated", "nested", "crash in a save", "crash in write", "short write", "interrupted", "disk full", "write failed"],
            real: &["nondestructive::yaml parser, reading, formatting, serde, clone, snapshots"],
            stub: &["disk", "hash seeds (getrandom)"],
            assumptions: &["Loading may allocate 16 KiB, 64 bytes per byte of input, and 1 KiB per byte which may start an entry."],
        }
    }
}
