//! Text and serde output stop exactly at the first sink failure.

use std::fmt::{self, Write};

use nondestructive::yaml::{Document, Value};
use serde::{Deserialize, Serialize};

use crate::content::{Gate, Ser};
use crate::engine::{About, Scenario};
use crate::ops::{gen_op, Op, OpCfg};
use crate::read::{digest, text};
use crate::rng::Rng;
use crate::rt::{fail, Ctx, Res};
use crate::seam;
use crate::world::{edit, values, Start};

#[derive(Serialize, Deserialize)]
enum Step {
    Op(Op),
    /// What is formatted, which value, and where to fail.
    Show(u8, u16, u16, u8),
    Serde(u16, u16),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    start: Start,
    steps: Vec<Step>,
}

pub struct C02;

struct Sink {
    pieces: Vec<String>,
    fail_at: Option<usize>,
    /// How much of the piece which fails is taken.
    part: usize,
    failed: bool,
    after: u32,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        seam::untracked(|| {
            if self.failed {
                self.after += 1;
            }
            if Some(self.pieces.len()) == self.fail_at && !self.failed {
                self.failed = true;
                let mut n = self.part.min(s.len());
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.pieces.push(s[..n].to_owned());
                return Err(fmt::Error);
            }
            self.pieces.push(s.to_owned());
            Ok(())
        })
    }
}

fn sink(fail_at: Option<usize>, part: u8) -> Sink {
    Sink {
        pieces: Vec::new(),
        fail_at,
        part: part as usize,
        failed: false,
        after: 0,
    }
}

fn format(doc: &Document, v: &Value<'_>, what: u8, s: &mut Sink) -> fmt::Result {
    match what % 12 {
        0 | 1 => write!(s, "{doc}"),
        8 => write!(s, "{doc:>30}"),
        9 => write!(s, "{doc:-^9.2}"),
        10 => write!(s, "{doc:#}"),
        11 => write!(s, "{v:+<30.1}"),
        2 => write!(s, "{doc:?}"),
        3 | 4 => write!(s, "{v}"),
        5 => write!(s, "{v:?}"),
        n => match (v.as_mapping(), v.as_sequence()) {
            (Some(m), _) if n == 6 => write!(s, "{m}"),
            (Some(m), _) => write!(s, "{m:?}"),
            (_, Some(m)) if n == 6 => write!(s, "{m}"),
            (_, Some(m)) => write!(s, "{m:?}"),
            _ => match v.as_number() {
                Some(n) => write!(s, "{n:?}"),
                None => write!(s, "{v:#?}"),
            },
        },
    }
}

impl Scenario for C02 {
    const ID: &'static str = "C02";
    const RUNS: (u64, u64) = (300_000, 20_000_000);
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let start = Start::gen(rng, 16, 6);
        let cfg = OpCfg::swarm(rng, false);
        let n = rng.range(2, 16);
        let steps = (0..n)
            .map(|_| match rng.below(9) {
                0 | 1 => Step::Op(gen_op(rng, &cfg, 1)),
                2..=5 => Step::Show(rng.below(12) as u8, rng.below(256) as u16, rng.u64() as u16, rng.below(9) as u8),
                _ => Step::Serde(if rng.chance(1, 3) { 0 } else { rng.below(256) as u16 }, rng.u64() as u16),
            })
            .collect();
        Plan { start, steps }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        let Some(mut doc) = plan.start.open(ctx) else { return Ok(()) };
        for (i, step) in plan.steps.iter().enumerate() {
            match step {
                Step::Op(op) => {
                    edit(&mut doc, op, ctx);
                }
                Step::Show(what, target, at, part) => {
                    let all = values(&doc);
                    let v = &all[*target as usize % all.len()];
                    let state = digest(&doc, true);
                    let mut whole = sink(None, 0);
                    if seam::tracked(|| format(&doc, v, *what, &mut whole)).is_err() {
                        return fail("spurious", format!("step {i}: formatting failed by itself"));
                    }
                    let want = whole.pieces.concat();
                    if matches!(what % 12, 3 | 4 | 11) {
                        // The text of a value is part of the document's.
                        let bytes = text(&doc);
                        if std::str::from_utf8(&bytes).is_ok_and(|s| !s.contains(&want)) {
                            return fail(
                                "agree",
                                format!("step {i}: formatted {want:?}, which is not in {:?}", bstr::BStr::new(&bytes)),
                            );
                        }
                    }
                    if matches!(what % 12, 0 | 1 | 8 | 9 | 10) {
                        let bytes = text(&doc);
                        if std::str::from_utf8(&bytes).is_ok() {
                            if want.as_bytes() != bytes {
                                return fail(
                                    "agree",
                                    format!("step {i}: formatted {want:?}, written {:?}", bstr::BStr::new(&bytes)),
                                );
                            }
                            ctx.probe("formatted and written agree");
                        }
                    }
                    if whole.pieces.is_empty() {
                        continue;
                    }
                    let k = *at as usize % whole.pieces.len();
                    let mut broken = sink(Some(k), *part);
                    let r = seam::tracked(|| format(&doc, v, *what, &mut broken));
                    ctx.fault("text destination failed");
                    ctx.tick("format", format!("{what} {k}").as_bytes());
                    ctx.nontrivial = true;
                    let got = broken.pieces.concat();
                    let bad = |class: &str, why: &str| {
                        fail(
                            class,
                            format!("step {i}: {why}: failing at piece {k}, received {got:?}, complete is {want:?}"),
                        )
                    };
                    if !broken.failed {
                        return bad("differs", "the output took another course");
                    }
                    if r.is_ok() {
                        return bad("swallowed", "success was reported");
                    }
                    if broken.after > 0 {
                        return bad("after", "more was emitted after the failure");
                    }
                    if broken.pieces[..k] != whole.pieces[..k] || !want.starts_with(&got) {
                        return bad("prefix", "not a prefix");
                    }
                    let mut again = sink(None, 0);
                    if format(&doc, v, *what, &mut again).is_err() || again.pieces != whole.pieces {
                        return bad("again", "repeated, the output differs");
                    }
                    drop(all);
                    if digest(&doc, true) != state {
                        return fail("changed", format!("step {i}: formatting changed the document"));
                    }
                }
                Step::Serde(target, at) => {
                    let all = values(&doc);
                    let v = &all[*target as usize % all.len()];
                    let state = digest(&doc, true);
                    let gate = Gate::new(None, true);
                    let whole = match seam::tracked(|| v.serialize(Ser(gate.clone()))) {
                        Ok(c) => c,
                        Err(e) => return fail("spurious", format!("step {i}: serializing failed by itself: {e}")),
                    };
                    let n = gate.calls.get();
                    let want = gate.log.borrow().clone();
                    let k = u64::from(*at) % n;
                    let broken = Gate::new(Some(k), true);
                    let r = seam::tracked(|| v.serialize(Ser(broken.clone())));
                    ctx.fault("serializer failed");
                    ctx.tick("serialize", &k.to_le_bytes());
                    ctx.nontrivial = true;
                    let got = broken.log.borrow().clone();
                    let bad = |class: &str, why: String| {
                        fail(
                            class,
                            format!("step {i}: {why}: failing at call {k}, received {got:?}, complete is {want:?}"),
                        )
                    };
                    match r {
                        Ok(_) => return bad("swallowed", "success was reported".into()),
                        Err(e) if e.tag != Some(k) => return bad("error", format!("reported was {e}")),
                        Err(_) => {}
                    }
                    if broken.after.get() > 0 {
                        return bad("after", "more was emitted after the failure".into());
                    }
                    if got[..] != want[..k as usize] {
                        return bad("prefix", "not a prefix".into());
                    }
                    let gate = Gate::new(None, true);
                    match v.serialize(Ser(gate.clone())) {
                        Ok(c) if c == whole && *gate.log.borrow() == want => {}
                        _ => return bad("again", "repeated, the output differs".into()),
                    }
                    drop(all);
                    if digest(&doc, true) != state {
                        return fail("changed", format!("step {i}: serializing changed the document"));
                    }
                }
            }
            ctx.state(&text(&doc));
        }
        Ok(())
    }

    fn about() -> About {
        About {
            title: "text and serde output stop exactly at the first sink failure",
            rule: "Each run brings a document into some state (generated, a quarter of them damaged, edited), and formats it or a value in it, or serializes a value, first completely and then into a destination failing at a seeded piece or call (taking none or part of it); what was received, what is returned and calls after the failure are judged, then it is repeated. Non-trivial: at least one failure was injected.",
            faults: &["text destination failed", "serializer failed"],
            real: &["nondestructive::yaml Display and Debug of documents, values, mappings, sequences and numbers, Serialize of values"],
            stub: &["text destinations", "serializer", "hash seeds (getrandom)"],
            assumptions: &[],
        }
    }
}
