//! Saving to a faulty output is byte-exact or fails loudly.

use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

use serde::{Deserialize, Serialize};

use crate::engine::{About, Scenario};
use crate::ops::{gen_op, Op, OpCfg};
use crate::read::{digest, text};
use crate::rng::Rng;
use crate::rt::{fail, Ctx, Res};
use crate::seam;
use crate::world::{edit, show, Start};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum B {
    Short(u8),
    Interrupted,
    Zero,
    Hard(u8),
}

#[derive(Debug, Serialize, Deserialize)]
struct Output {
    /// How it is passed.
    how: u8,
    /// At most this much at once, if not zero.
    grain: u8,
    /// There is space for this much.
    room: Option<u16>,
    /// What happens at some of the calls.
    script: Vec<(u16, B)>,
}

#[derive(Serialize, Deserialize)]
enum Step {
    Op(Op),
    Save(Output),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    start: Start,
    steps: Vec<Step>,
}

pub struct C01;

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WriteZero,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::StorageFull,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::NotFound,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::Unsupported,
];

#[derive(Debug)]
struct Tag(u64);

impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected {}", self.0)
    }
}

impl std::error::Error for Tag {}

#[derive(Default)]
struct Log {
    got: Vec<u8>,
    calls: u16,
    flushes: u32,
    /// The failure reported: a tag and a kind, or that nothing was taken.
    hard: Option<(u64, io::ErrorKind)>,
    zero: bool,
    after: u32,
    faults: Vec<&'static str>,
}

struct Sink<'a> {
    o: &'a Output,
    log: Rc<RefCell<Log>>,
}

impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        seam::untracked(|| {
            let mut log = self.log.borrow_mut();
            if log.hard.is_some() || log.zero {
                log.after += 1;
            }
            let n = log.calls;
            log.calls = n.saturating_add(1);
            let mut take = buf.len();
            if self.o.grain > 0 {
                take = take.min(self.o.grain as usize);
            }
            let event = self.o.script.iter().find(|s| s.0 == n).map(|s| s.1);
            match event {
                Some(B::Short(k)) if take > 1 => {
                    log.faults.push("short write");
                    take = (k as usize).clamp(1, take - 1);
                }
                Some(B::Interrupted) => {
                    log.faults.push("interrupted");
                    return Err(io::ErrorKind::Interrupted.into());
                }
                Some(B::Zero) if !buf.is_empty() => {
                    log.faults.push("zero-length write");
                    log.zero = true;
                    return Ok(0);
                }
                Some(B::Hard(k)) => {
                    log.faults.push("hard error");
                    let kind = KINDS[k as usize % KINDS.len()];
                    let tag = u64::from(n) << 8 | u64::from(k);
                    log.hard = Some((tag, kind));
                    return Err(io::Error::new(kind, Tag(tag)));
                }
                _ => {}
            }
            if let Some(room) = self.o.room {
                let left = (room as usize).saturating_sub(log.got.len());
                if left == 0 && !buf.is_empty() {
                    log.faults.push("disk full");
                    log.hard = Some((0xF011, io::ErrorKind::StorageFull));
                    return Err(io::Error::new(io::ErrorKind::StorageFull, Tag(0xF011)));
                }
                take = take.min(left);
            }
            log.got.extend_from_slice(&buf[..take]);
            Ok(take)
        })
    }

    fn flush(&mut self) -> io::Result<()> {
        let mut log = self.log.borrow_mut();
        if log.hard.is_some() || log.zero {
            log.after += 1;
        }
        log.flushes += 1;
        Ok(())
    }
}

fn gen_output(rng: &mut Rng) -> Output {
    let n = match rng.below(8) {
        0 => 0,
        1..=3 => 1,
        4 | 5 => 2,
        _ => rng.range(3, 12),
    };
    let near = 1 + rng.size(40, 500);
    let script = (0..n)
        .map(|_| {
            let b = match rng.below(9) {
                0..=2 => B::Short(rng.below(8) as u8),
                3..=5 => B::Interrupted,
                6 => B::Zero,
                _ => B::Hard(rng.u64() as u8),
            };
            (rng.below(near) as u16, b)
        })
        .collect();
    Output {
        how: rng.below(6) as u8,
        grain: if rng.chance(1, 3) { rng.range(1, 4) as u8 } else { 0 },
        room: rng.chance(1, 4).then(|| rng.size(60, 2000) as u16),
        script,
    }
}

impl Scenario for C01 {
    const ID: &'static str = "C01";
    const RUNS: (u64, u64) = (300_000, 20_000_000);
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let start = Start::gen(rng, 16, 6);
        let cfg = OpCfg::swarm(rng, false);
        let n = rng.range(2, 14);
        let steps = (0..n)
            .map(|_| {
                if rng.chance(1, 4) {
                    Step::Op(gen_op(rng, &cfg, 1))
                } else {
                    Step::Save(gen_output(rng))
                }
            })
            .collect();
        Plan { start, steps }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        let Some(mut doc) = plan.start.open(ctx) else { return Ok(()) };
        for (i, step) in plan.steps.iter().enumerate() {
            let o = match step {
                Step::Op(op) => {
                    edit(&mut doc, op, ctx);
                    continue;
                }
                Step::Save(o) => o,
            };
            let want = text(&doc);
            let state = digest(&doc, true);
            ctx.state(&want);
            let log = Rc::new(RefCell::new(Log::default()));
            let mut sink = Sink { o, log: log.clone() };
            let mut zero_copy = None;
            let r = seam::tracked(|| match o.how % 6 {
                0 => doc.write_to(sink),
                1 => doc.write_to(&mut sink),
                2 => doc.write_to(&mut sink as &mut dyn Write),
                3 => doc.write_to(Box::new(sink) as Box<dyn Write + '_>),
                4 => {
                    // A fixed buffer, which is a full disk too.
                    let room = o.room.map_or(want.len(), |r| r as usize);
                    let mut buf = vec![0xEE; room];
                    let mut left: &mut [u8] = &mut buf;
                    let r = doc.write_to(&mut left);
                    let n = room - left.len();
                    buf.truncate(n);
                    zero_copy = Some((buf, room));
                    r
                }
                _ => {
                    let mut b = io::BufWriter::with_capacity(1 + o.grain as usize * 7, &mut sink);
                    let r = doc.write_to(&mut b).and_then(|()| b.flush());
                    let _ = b.into_parts();
                    r
                }
            });
            let log = log.borrow();
            for f in &log.faults {
                ctx.fault(f);
            }
            ctx.tick("save", format!("{} {:?} {}", log.calls, log.hard, log.got.len()).as_bytes());
            let bad = |class: &str, why: String| {
                fail(
                    class,
                    format!("step {i} {o:?}: {why}; the output holds {}, the text is {}", show(&log.got), show(&want)),
                )
            };
            if text(&doc) != want || digest(&doc, true) != state {
                return bad("changed", "saving changed the document".into());
            }
            if let Some((buf, room)) = zero_copy {
                let n = room.min(want.len());
                let full = room < want.len();
                if full {
                    ctx.fault("disk full");
                }
                if buf != want[..n] || r.is_err() != full {
                    return bad("bytes", format!("a buffer of {room} bytes holds {}, returned {r:?}", show(&buf)));
                }
                ctx.nontrivial |= full;
                continue;
            }
            if !want.starts_with(&log.got) {
                return bad("bytes", "the output holds something else".into());
            }
            if log.after > 0 && o.how % 6 != 5 {
                return bad("after", format!("{} calls after the failure", log.after));
            }
            match (&r, log.hard, log.zero) {
                (Ok(()), None, false) => {
                    if log.got != want {
                        return bad("bytes", "success, but bytes are missing".into());
                    }
                    ctx.probe("complete");
                }
                (Ok(()), ..) => return bad("swallowed", "the output failed, and success was reported".into()),
                (Err(e), Some((tag, kind)), _) => {
                    let t = e.get_ref().and_then(|e| e.downcast_ref::<Tag>()).map(|t| t.0);
                    if e.kind() != kind || t != Some(tag) {
                        return bad("error", format!("the output failed with {kind:?} {tag}, reported was {e:?}"));
                    }
                    ctx.nontrivial = true;
                }
                (Err(e), None, true) => {
                    if e.kind() != io::ErrorKind::WriteZero {
                        return bad("error", format!("the output took nothing, reported was {e:?}"));
                    }
                    ctx.nontrivial = true;
                }
                (Err(e), None, false) => return bad("error", format!("the output did not fail, reported was {e:?}")),
            }
        }
        Ok(())
    }

    fn about() -> About {
        About {
            title: "saving to a faulty output is byte-exact or fails loudly",
            rule: "Each run brings a document into some state (generated, a quarter of them damaged, edited), and saves it several times, with edits in between, to outputs which take bytes in arbitrary pieces, are interrupted, take nothing, fail or run full at seeded calls and bytes; every save is judged by what the output holds, by what is returned, and by the state of the document. Non-trivial: at least one save failed.",
            faults: &["short write", "interrupted", "zero-length write", "hard error", "disk full"],
            real: &["nondestructive::yaml write_to in every state reachable by loading and editing", "std::io::Write::write_all, BufWriter"],
            stub: &["outputs", "hash seeds (getrandom)"],
            assumptions: &["What is to be written is what writing to a Vec gives; C07 and C04 compare that with a model."],
        }
    }
}
