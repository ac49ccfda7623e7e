//! Failing caller code leaves the document unchanged and usable.

use std::cell::Cell;
use std::fmt;
use std::io;
use std::rc::Rc;

use nondestructive::yaml::Document;
use serde::de::{DeserializeSeed, IntoDeserializer};
use serde::{Deserialize, Serialize};

use crate::cb;
use crate::content::{Gate, Hinted, Recorder, Ser, HINTS};
use crate::engine::{About, Scenario};
use crate::model::Tree;
use crate::ops::{exec, gen_op, resolve, Act, Kind, Op, OpCfg, PutV};
use crate::read::{digest, ids, text};
use crate::rng::Rng;
use crate::rt::{catch, fail, inject_panic, Caught, Ctx, Res, Violation};
use crate::seam;
use crate::world::{bug, children, note, restore_tree, show, snapshot_tree, values, Start};

/// Which call fails, and whether by panicking.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Fail(u16, bool);

#[derive(Serialize, Deserialize)]
enum Step {
    Op(Op, Vec<u16>),
    Write(Vec<Fail>),
    Show(u8, u16, Vec<Fail>),
    Ser(u16, Vec<Fail>),
    De(u16, u8, Vec<Fail>),
    Snapshot(Vec<Fail>),
    /// Loop over the entries of a collection.
    Iterate(u16, u16),
    /// Load while serde's callbacks fail.
    Restore(Vec<Fail>),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    start: Start,
    steps: Vec<Step>,
}

pub struct C10;

/// A hook which counts calls, and panics at one of them.
fn hook(fail_at: Option<u64>) -> (Rc<Cell<u64>>, impl FnMut(&'static str)) {
    let calls = Rc::new(Cell::new(0));
    let n = calls.clone();
    (calls, move |_| {
        let i = n.get();
        n.set(i + 1);
        if Some(i) == fail_at {
            seam::untracked(|| inject_panic());
        }
    })
}

struct Out(Vec<u8>, Option<u64>, u64);

impl Out {
    fn call(&mut self, b: &[u8]) -> bool {
        cb::call("output");
        let n = self.2;
        self.2 += 1;
        if Some(n) == self.1 {
            return false;
        }
        self.0.extend_from_slice(b);
        true
    }
}

impl io::Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.call(b) {
            Ok(b.len())
        } else {
            Err(io::Error::new(io::ErrorKind::Other, "injected"))
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.call(s.as_bytes()) {
            Ok(())
        } else {
            Err(fmt::Error)
        }
    }
}

/// The state as far as it can be observed.
fn state(doc: &Document) -> (Vec<u8>, Vec<u8>) {
    (digest(doc, true), text(doc))
}

/// What failing attempts return. `Ok(false)` if it failed as it should.
enum Tried {
    Success(String),
    Error,
}

/// Something which reads, run to completion and then failing time and again.
fn reads(
    doc: &Document,
    what: &str,
    fails: &[Fail],
    ctx: &mut Ctx,
    f: &mut dyn FnMut(&Document, Option<u64>) -> (Tried, u64),
) -> Res {
    let before = state(doc);
    let (whole, calls) = f(doc, None);
    let Tried::Success(whole) = whole else {
        return fail("spurious", format!("{what} failed by itself"));
    };
    if calls == 0 {
        return Ok(());
    }
    for Fail(at, panics) in fails {
        let k = u64::from(*at) % calls;
        ctx.tick(what, &k.to_le_bytes());
        ctx.nontrivial = true;
        if *panics {
            ctx.fault(&format!("{what} panicked"));
            let (count, hook) = hook(Some(k));
            let r = cb::with(hook, || catch(|| seam::tracked(|| f(doc, None))));
            let n = count.get();
            match r {
                Err(Caught::Injected) => {}
                Err(Caught::Library(m)) => return fail("panic", format!("{what}: {m}")),
                Err(Caught::Harness(m)) => return Err(bug(m)),
                Ok(_) if n <= k => return fail("differs", format!("{what}: {n} calls, there were {calls} before")),
                Ok(_) => return fail("swallowed", format!("{what}: a panic in call {k} was swallowed")),
            }
        } else {
            ctx.fault(&format!("{what} returned an error"));
            if let (Tried::Success(_), _) = seam::tracked(|| f(doc, Some(k))) {
                return fail("swallowed", format!("{what}: the error of call {k} was swallowed"));
            }
        }
        let after = state(doc);
        if after != before {
            return fail(
                "changed",
                format!("{what} failed at call {k}: was {} {}, is {} {}", show(&before.1), show(&before.0), show(&after.1), show(&after.0)),
            );
        }
    }
    match f(doc, None) {
        (Tried::Success(again), _) if again == whole => Ok(()),
        (Tried::Success(again), _) => fail("retry", format!("{what} repeated: {again:?}, was {whole:?}")),
        (Tried::Error, _) => fail("retry", format!("{what} repeated fails")),
    }
}

/// The part of an edit which is one operation.
fn single(act: &Act) -> Act {
    let mut act = act.clone();
    if let Kind::Put(_, PutV::Via(_, s)) | Kind::Add(PutV::Via(_, s)) = &mut act.kind {
        *s = None;
    }
    act
}

fn gen_fails(rng: &mut Rng) -> Vec<Fail> {
    (0..rng.range(1, 3)).map(|_| Fail(rng.u64() as u16, rng.chance(1, 2))).collect()
}

/// Attempts which fail, with the document as it was before afterwards.
fn attempts(doc: &mut Document, act: &Act, fails: &[u16], what: &str, ctx: &mut Ctx) -> Result<bool, Violation> {
    let act = single(act);
    let (calls, count) = hook(None);
    let mut probe = doc.clone();
    cb::with(count, || exec(&mut probe, &act));
    drop(probe);
    let calls = calls.get();
    if calls == 0 {
        return Ok(false);
    }
    let before = state(doc);
    for at in fails {
        let k = u64::from(*at) % calls;
        ctx.tick("panic in call", &k.to_le_bytes());
        ctx.fault("argument panicked");
        if calls > 4 && k > 2 && k + 1 < calls {
            ctx.probe("panic half way through");
        }
        let (count, hook) = hook(Some(k));
        let r = cb::with(hook, || catch(|| seam::tracked(|| exec(doc, &act))));
        match r {
            Err(Caught::Injected) => {}
            Err(Caught::Library(m)) => return fail("panic", format!("{what} {:?}: {m}", act.kind)),
            Err(Caught::Harness(m)) => return Err(bug(m)),
            Ok(_) if count.get() <= k => {
                return fail("differs", format!("{what} {:?}: {} calls, there were {calls} before", act.kind, count.get()))
            }
            Ok(_) => return fail("swallowed", format!("{what} {:?}: a panic in call {k} was swallowed", act.kind)),
        }
        let after = match catch(|| state(doc)) {
            Ok(s) => s,
            Err(Caught::Library(m)) => return fail("unusable", format!("{what} {:?} panicked in call {k}, then: {m}", act.kind)),
            Err(_) => return Err(bug("state")),
        };
        if after != before {
            return fail(
                "changed",
                format!(
                    "{what} {:?} panicked in call {k} of {calls}: was {} {}, is {} {}",
                    act.kind,
                    show(&before.1),
                    show(&before.0),
                    show(&after.1),
                    show(&after.0)
                ),
            );
        }
    }
    Ok(!fails.is_empty())
}

impl Scenario for C10 {
    const ID: &'static str = "C10";
    const RUNS: (u64, u64) = (300_000, 20_000_000);
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let start = Start::gen(rng, 16, 6);
        let cfg = OpCfg::swarm(rng, false);
        let n = crate::ops::steps(rng, 8, 30) + 2;
        let steps = (0..n)
            .map(|_| match rng.below(20) {
                0 => Step::Write(gen_fails(rng)),
                1 => Step::Show(rng.below(4) as u8, rng.u64() as u16, gen_fails(rng)),
                2 => Step::Ser(rng.u64() as u16, gen_fails(rng)),
                3 => Step::De(rng.u64() as u16, rng.below(HINTS as usize) as u8, gen_fails(rng)),
                4 => Step::Snapshot(gen_fails(rng)),
                5 => Step::Iterate(rng.u64() as u16, rng.u64() as u16),
                6 => Step::Restore(gen_fails(rng)),
                _ => {
                    let fails = if rng.chance(3, 4) {
                        (0..rng.range(1, 4)).map(|_| rng.u64() as u16).collect()
                    } else {
                        Vec::new()
                    };
                    Step::Op(gen_op(rng, &cfg, 1), fails)
                }
            })
            .collect();
        Plan { start, steps }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        let Some(mut doc) = plan.start.open(ctx) else { return Ok(()) };
        let mut twin = doc.clone();
        let mut failed = false;
        for (i, step) in plan.steps.iter().enumerate() {
            let what = format!("step {i}");
            match step {
                Step::Op(op, fails) => {
                    let tree = Tree::learn(&doc);
                    if tree.root.size() > 250 {
                        continue;
                    }
                    let Some(act) = resolve(&tree, op) else { continue };
                    let Some(other) = resolve(&Tree::learn(&twin), op) else {
                        return fail("retry", format!("{what}: the operation does not apply without the failures"));
                    };
                    note(ctx, &act);
                    if attempts(&mut doc, &act, fails, &what, ctx)? {
                        ctx.nontrivial = true;
                        failed = true;
                    }
                    seam::tracked(|| exec(&mut doc, &act));
                    exec(&mut twin, &other);
                    if failed {
                        ctx.probe("operation after a failure");
                    }
                    let (a, b) = ((text(&doc), digest(&doc, false)), (text(&twin), digest(&twin, false)));
                    if a != b {
                        return fail(
                            "retry",
                            format!(
                                "{what} {:?}: after failures {} {}, without {} {}",
                                act.kind,
                                show(&a.0),
                                show(&a.1),
                                show(&b.0),
                                show(&b.1)
                            ),
                        );
                    }
                    if ids(&doc).is_none() {
                        return fail("identifiers", format!("{what} {:?}: identifiers are not distinct", act.kind));
                    }
                }
                Step::Write(fails) => reads(&doc, "output", fails, ctx, &mut |doc, k| {
                    let mut out = Out(Vec::new(), k, 0);
                    let r = doc.write_to(&mut out);
                    let n = out.2;
                    (
                        match r {
                            Ok(()) => Tried::Success(show(&out.0)),
                            Err(_) => Tried::Error,
                        },
                        n,
                    )
                })?,
                Step::Show(how, target, fails) => reads(&doc, "text destination", fails, ctx, &mut |doc, k| {
                    use std::fmt::Write;
                    let mut out = Out(Vec::new(), k, 0);
                    let all = values(doc);
                    let v = &all[*target as usize % all.len()];
                    let r = match how % 4 {
                        0 => write!(out, "{doc}"),
                        1 => write!(out, "{v}"),
                        2 => write!(out, "{doc:?}"),
                        _ => write!(out, "{v:?}"),
                    };
                    let n = out.2;
                    (
                        match r {
                            Ok(()) => Tried::Success(show(&out.0)),
                            Err(_) => Tried::Error,
                        },
                        n,
                    )
                })?,
                Step::Ser(target, fails) => reads(&doc, "serializer", fails, ctx, &mut |doc, k| {
                    let all = values(doc);
                    let gate = Gate::new(k, false);
                    let r = all[*target as usize % all.len()].serialize(Ser(gate.clone()));
                    (
                        match r {
                            Ok(c) => Tried::Success(format!("{c:?}")),
                            Err(_) => Tried::Error,
                        },
                        gate.calls.get(),
                    )
                })?,
                Step::De(target, hint, fails) => reads(&doc, "visitor", fails, ctx, &mut |doc, k| {
                    let all = values(doc);
                    let gate = Gate::new(k, false);
                    let n = *target as usize % all.len();
                    let Some(v) = all.into_iter().nth(n) else {
                        return (Tried::Error, 0);
                    };
                    let r = Hinted(Recorder(gate.clone()), *hint).deserialize(v.into_deserializer());
                    (
                        match r {
                            Ok(c) => Tried::Success(format!("{c:?}")),
                            Err(_) => Tried::Error,
                        },
                        gate.calls.get(),
                    )
                })?,
                Step::Snapshot(fails) => reads(&doc, "snapshot serializer", fails, ctx, &mut |doc, k| {
                    let (r, gate) = snapshot_tree(doc, k);
                    (
                        match r {
                            Ok(_) => Tried::Success(String::new()),
                            Err(_) => Tried::Error,
                        },
                        gate.calls.get(),
                    )
                })?,
                Step::Restore(fails) => reads(&doc, "snapshot deserializer", fails, ctx, &mut |doc, k| {
                    // Only what restores is to fail.
                    let c = match cb::with(|_| (), || snapshot_tree(doc, None).0) {
                        Ok(c) => c,
                        Err(_) => return (Tried::Error, 0),
                    };
                    let (r, gate) = restore_tree::<Document>(&c, k);
                    (
                        match r {
                            Ok(d) => Tried::Success(show(&text(&d))),
                            Err(_) => Tried::Error,
                        },
                        gate.calls.get(),
                    )
                })?,
                Step::Iterate(target, at) => {
                    let before = state(&doc);
                    let all = values(&doc);
                    let v = &all[*target as usize % all.len()];
                    let n = children(v).len();
                    if n == 0 {
                        continue;
                    }
                    let k = *at as usize % n;
                    ctx.fault("loop body panicked");
                    ctx.tick("iterate", &k.to_le_bytes());
                    let mut seen = 0;
                    let mut body = || {
                        if seen == k {
                            inject_panic();
                        }
                        seen += 1;
                    };
                    let r = catch(|| {
                        if let Some(m) = v.as_mapping() {
                            m.iter().for_each(|_| body());
                        } else if let Some(s) = v.as_sequence() {
                            s.iter().for_each(|_| body());
                        }
                    });
                    match r {
                        Err(Caught::Injected) if seen == k => {}
                        Err(Caught::Library(m)) => return fail("panic", format!("{what}: {m}")),
                        _ => return fail("swallowed", format!("{what}: the body of a loop panicked at {k}, {seen} seen")),
                    }
                    if state(&doc) != before {
                        return fail("changed", format!("{what}: a loop changed the document"));
                    }
                }
            }
            ctx.state(&text(&doc));
        }
        Ok(())
    }

    fn about() -> About {
        About {
            title: "failing caller code leaves the document unchanged and usable",
            rule: "Each run brings a document into some state (generated, a quarter of them damaged, edited); operations which run caller code then fail at one to four seeded calls in a row before they are let through: string, key and line arguments panic while editing; outputs, text destinations, serializers, visitors and snapshot (de)serializers panic or return an error. After every failure everything observable is compared with what was before, after every success with a twin which never saw a failure. Non-trivial: at least one failure was injected.",
            faults: &[
                "argument panicked",
                "output panicked",
                "output returned an error",
                "text destination panicked",
                "text destination returned an error",
                "serializer panicked",
                "serializer returned an error",
                "visitor panicked",
                "visitor returned an error",
                "snapshot serializer panicked",
                "snapshot serializer returned an error",
                "snapshot deserializer panicked",
                "snapshot deserializer returned an error",
                "loop body panicked",
            ],
            real: &["nondestructive::yaml editing, reading, output, serde"],
            stub: &["caller code: strings, keys, lines, outputs, serializers, visitors", "hash seeds (getrandom)"],
            assumptions: &["Inserting a value through a separator and then setting it are two operations."],
        }
    }
}
