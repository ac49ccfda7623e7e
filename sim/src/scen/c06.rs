//! Acknowledged saves survive crash and restart with the same content.

use nondestructive::yaml::{Any, Document, Value};
use serde::{Deserialize, Serialize};

use crate::disk::{gen_faults, Disk, Faults, File};
use crate::engine::{About, Scenario};
use crate::model::Tree;
use crate::ops::{exec, gen_op, resolve, Act, Kind, Op, OpCfg, PutV, SetOp};
use crate::read::{text, Opts, Reader};
use crate::rng::Rng;
use crate::rt::{fail, Ctx, Res, Violation};
use crate::seam;
use crate::spec::{block_line, gen, plain, plain_key, DocSpec, GenCfg, N};
use crate::world::{bug, load, note, show};

#[derive(Serialize, Deserialize)]
enum Step {
    Op(Op),
    Save(Faults),
    /// The machine stops between calls.
    Crash(u64),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    spec: DocSpec,
    steps: Vec<Step>,
}

pub struct C06;

/// What a document says, apart from how it is written.
#[derive(Clone, Debug, PartialEq)]
enum Norm {
    Null,
    Bool(bool),
    Num(Vec<u8>, [Option<u128>; 4]),
    Str(Vec<u8>),
    Map(Vec<(Vec<u8>, Norm)>),
    Seq(Vec<Norm>),
}

fn norm(v: &Value<'_>) -> Norm {
    match v.as_any() {
        Any::Null => Norm::Null,
        Any::Bool(b) => Norm::Bool(b),
        Any::Number(n) => Norm::Num(
            n.as_raw().to_vec(),
            [
                v.as_f32().map(|f| u128::from(f.to_bits())),
                v.as_f64().map(|f| u128::from(f.to_bits())),
                v.as_u128(),
                v.as_i128().map(|n| n as u128),
            ],
        ),
        Any::String(s) => Norm::Str(s.to_vec()),
        Any::Mapping(m) if m.is_empty() => Norm::Null,
        Any::Mapping(m) => Norm::Map(m.iter().map(|(k, v)| (k.to_vec(), norm(&v))).collect()),
        Any::Sequence(s) if s.is_empty() => Norm::Null,
        Any::Sequence(s) => Norm::Seq(s.iter().map(|v| norm(&v)).collect()),
        _ => Norm::Str(b"?".to_vec()),
    }
}

fn differ(a: &Norm, b: &Norm) -> String {
    match (a, b) {
        (Norm::Map(x), Norm::Map(y)) if x.len() == y.len() => {
            for ((k, v), (l, w)) in x.iter().zip(y) {
                if k != l {
                    return format!(": key {} became {}", show(k), show(l));
                }
                if v != w {
                    return format!(".{}{}", show(k), differ(v, w));
                }
            }
            String::new()
        }
        (Norm::Seq(x), Norm::Seq(y)) if x.len() == y.len() => {
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                if v != w {
                    return format!("[{i}]{}", differ(v, w));
                }
            }
            String::new()
        }
        (a, b) => format!(": {} became {}", brief(a), brief(b)),
    }
}

fn brief(n: &Norm) -> String {
    match n {
        Norm::Str(s) => show(s),
        Norm::Num(s, v) => format!("number {} {v:?}", show(s)),
        n => format!("{n:?}"),
    }
}

/// Keep a document inside of what the property is about.
fn tame(spec: &mut DocSpec) {
    fn go(n: &mut N, flow: bool, in_seq: bool) {
        match n {
            N::Null(style) if flow && in_seq => *style %= 4,
            N::Block { chomp, lines, .. } => {
                *chomp %= 2;
                lines.retain(|l| block_line(l));
            }
            N::Coll {
                map, flow: f, items, ws, ..
            } => {
                if *ws % 8 == 7 {
                    *ws = 6;
                }
                let mut seen: Vec<Vec<u8>> = Vec::new();
                for i in items.iter_mut() {
                    let mut k = crate::spec::raw(&i.k);
                    while *map && seen.contains(&k) {
                        i.k.push('x');
                        k = crate::spec::raw(&i.k);
                    }
                    seen.push(k);
                    // No comment follows a value on its line.
                    let inline = flow || *f || !matches!(&i.v, N::Coll { flow: false, items, .. } if !items.is_empty());
                    if inline && i.trail % 8 > 5 {
                        i.trail = 4;
                    }
                    if i.sep % 8 == 7 && (flow || *f) && matches!(i.v, N::Null(_)) {
                        i.sep -= 1;
                    }
                    go(&mut i.v, flow || *f, !*map);
                }
            }
            _ => {}
        }
    }
    spec.wild = false;
    spec.eof_nl = true;
    if spec.rtrail % 8 > 5 {
        spec.rtrail = 4;
    }
    go(&mut spec.root, false, false);
}

/// Is an edit within what the property is about?
pub fn within(tree: &Tree, act: &Act) -> bool {
    let Some(node) = tree.root.find(act.uid) else { return false };
    let parent_flow_seq = tree.parent(act.uid).and_then(|n| n.coll()).is_some_and(|c| c.flow && !c.map);
    let flow_seq = node.coll().is_some_and(|c| c.flow && !c.map);
    let set = |s: &SetOp, flow_seq: bool| match s {
        SetOp::Null(n) => !(flow_seq && n % 3 == 2),
        SetOp::StrWith(s, k) => k % 3 != 0 || plain(s, true),
        SetOp::Block(lines, _, chomp) => !lines.is_empty() && lines.iter().all(|l| block_line(l)) && chomp % 3 != 2,
        _ => true,
    };
    let put = |p: &PutV, flow_seq: bool| match p {
        PutV::Direct(s) => set(s, flow_seq),
        PutV::Via(sep, s) => {
            // Either on the same line, or far enough to the right.
            let sep = sep.as_ref().map_or(true, |s| {
                !s.is_empty() && s.bytes().all(|b| matches!(b, b' ' | b'\t')) || s.strip_prefix('\n').is_some_and(|s| s.len() > 30 && s.bytes().all(|b| b == b' '))
            });
            sep && s.as_ref().map_or(!flow_seq, |s| set(s, flow_seq))
        }
    };
    let known = |k: &[u8]| {
        std::str::from_utf8(k).is_ok_and(plain_key) || node.coll().is_some_and(|c| c.items.iter().any(|i| i.key == k))
    };
    match &act.kind {
        Kind::Set(s) => set(s, parent_flow_seq),
        Kind::Put(k, p) => known(k) && put(p, false),
        Kind::Add(p) => put(p, flow_seq),
        _ => true,
    }
}

fn open_end(doc: &Document) -> bool {
    doc.as_ref().to_string().is_empty() || text(doc).last() != Some(&b'\n')
}

fn clip(act: &Act) -> bool {
    let set = |s: &SetOp| matches!(s, SetOp::Block(_, _, chomp) if chomp % 3 != 0);
    match &act.kind {
        Kind::Set(s) => set(s),
        Kind::Put(_, PutV::Direct(s) | PutV::Via(_, Some(s))) | Kind::Add(PutV::Direct(s) | PutV::Via(_, Some(s))) => set(s),
        _ => false,
    }
}

struct Attempt {
    bytes: Vec<u8>,
    norm: Norm,
}

struct System {
    disk: Disk,
    /// Loaded from a file of nothing but whitespace, which is all in front of
    /// the value: what is set does not end in a newline.
    open_end: bool,
    doc: Document,
    /// What may be there after a crash: what was acknowledged, and what came
    /// after that.
    acked: Attempt,
    later: Vec<Attempt>,
}

const MAIN: &str = "config.yaml";
const TEMP: &str = "config.yaml.tmp";

enum Saved {
    Acked,
    Failed,
    Crashed(u64),
}

impl System {
    fn save(&mut self, faults: &Faults, ctx: &mut Ctx) -> Result<Saved, Violation> {
        self.disk.arm(faults);
        let norm = norm(&self.doc.as_ref());
        let bytes = text(&self.doc);
        let r = self.protocol(ctx, Attempt { bytes, norm })?;
        if let Some(seed) = self.disk.crashed {
            return Ok(Saved::Crashed(seed));
        }
        if !r {
            // Give the space back.
            self.disk.arm(&Vec::new());
            let _ = self.disk.unlink(ctx, TEMP);
            return Ok(Saved::Failed);
        }
        Ok(Saved::Acked)
    }

    fn protocol(&mut self, ctx: &mut Ctx, a: Attempt) -> Result<bool, Violation> {
        let Ok(inode) = self.disk.create(ctx, TEMP) else { return Ok(false) };
        let file = File {
            disk: &mut self.disk,
            ctx,
            inode,
        };
        if self.doc.write_to(file).is_err() {
            return Ok(false);
        }
        if self.disk.fsync(ctx, inode).is_err() {
            return Ok(false);
        }
        if self.disk.read(TEMP) != Some(&a.bytes[..]) {
            return fail(
                "saved",
                format!(
                    "saved {}, which is not the text of the document {}",
                    show(self.disk.read(TEMP).unwrap_or_default()),
                    show(&a.bytes)
                ),
            );
        }
        if self.disk.rename(ctx, TEMP, MAIN).is_err() {
            return Ok(false);
        }
        self.later.push(a);
        if self.disk.fsync_dir(ctx).is_err() {
            return Ok(false);
        }
        if let Some(a) = self.later.pop() {
            self.acked = a;
        }
        self.later.clear();
        Ok(true)
    }

    fn restart(&mut self, seed: u64, ctx: &mut Ctx, what: &str) -> Res {
        ctx.tick("restart", &[]);
        self.disk.crash(seed);
        let Some(bytes) = self.disk.read(MAIN) else {
            return Err(bug("the file is gone"));
        };
        let doc = match load(bytes) {
            Ok(doc) => doc,
            Err(e) => {
                return fail(
                    "unreadable",
                    format!("{what}: what was saved does not load: {e} at {:?}: {}", e.span(), show(bytes)),
                );
            }
        };
        let got = norm(&doc.as_ref());
        let all: Vec<&Attempt> = self.later.iter().chain([&self.acked]).collect();
        let Some(i) = all.iter().position(|a| a.bytes == bytes && a.norm == got) else {
            let Some(a) = all.iter().find(|a| a.bytes == bytes) else {
                return Err(bug("the disk holds what was never saved"));
            };
            return fail(
                "content",
                format!("{what}: content{} in {}", differ(&a.norm, &got), show(bytes)),
            );
        };
        if i < self.later.len() {
            ctx.probe("later save survived");
        } else {
            ctx.probe("acknowledged save survived");
        }
        self.acked = Attempt {
            bytes: bytes.to_vec(),
            norm: got,
        };
        self.later.clear();
        self.doc = doc;
        self.open_end = open_end(&self.doc);
        Ok(())
    }
}

impl Scenario for C06 {
    const ID: &'static str = "C06";
    const RUNS: (u64, u64) = (300_000, 20_000_000);
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let size = rng.range(2, 24);
        let spec = gen(
            rng,
            &GenCfg {
                wild: false,
                size,
                depth: 6,
                safe: true,
            },
        );
        let cfg = OpCfg::swarm(rng, true);
        let clients = rng.range(1, 4) as u8;
        let n = crate::ops::steps(rng, 14, 60) + 1;
        let often = rng.range(2, 8);
        let steps = (0..n)
            .map(|_| {
                if rng.chance(1, often) {
                    if rng.chance(1, 3) {
                        Step::Crash(rng.u64())
                    } else {
                        Step::Save(gen_faults(rng, 60))
                    }
                } else {
                    Step::Op(gen_op(rng, &cfg, clients))
                }
            })
            .collect();
        Plan { spec, steps }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        let mut spec = plan.spec.clone();
        tame(&mut spec);
        let tree = spec.build();
        let bytes = tree.render();
        let doc = match load(&bytes) {
            Ok(doc) => doc,
            Err(e) => {
                return fail(
                    "unreadable",
                    format!("the first file does not load: {e} at {:?}: {}", e.span(), show(&bytes)),
                )
            }
        };
        let reader = Reader {
            opts: Opts {
                stored: true,
                serde: false,
            },
        };
        if let Err(e) = reader.document(&doc, &tree) {
            return fail("loaded", format!("the first file says otherwise: {e} in {}", show(&bytes)));
        }
        let acked = Attempt {
            bytes: text(&doc),
            norm: norm(&doc.as_ref()),
        };
        let mut s = System {
            disk: Disk::default(),
            open_end: open_end(&doc),
            doc,
            acked,
            later: Vec::new(),
        };
        if !matches!(s.save(&Vec::new(), ctx)?, Saved::Acked) {
            return Err(bug("the first save failed"));
        }
        let mut ops = 0;
        let mut crashes = 0;
        let end = [Step::Save(Vec::new()), Step::Crash(1)];
        for (i, step) in plan.steps.iter().chain(&end).enumerate() {
            match step {
                Step::Op(op) => {
                    let tree = Tree::learn(&s.doc);
                    if tree.root.size() > 250 {
                        continue;
                    }
                    let Some(act) = resolve(&tree, op) else { continue };
                    if !within(&tree, &act) || (s.open_end && clip(&act)) {
                        ctx.count("outside");
                        continue;
                    }
                    note(ctx, &act);
                    seam::tracked(|| exec(&mut s.doc, &act));
                    ops += 1;
                }
                Step::Save(faults) => {
                    ctx.tick("save", &[]);
                    match s.save(faults, ctx)? {
                        Saved::Acked => ctx.count("saves acknowledged"),
                        Saved::Failed => ctx.count("saves failed"),
                        Saved::Crashed(seed) => {
                            crashes += 1;
                            s.restart(seed, ctx, &format!("step {i}, crash in a save"))?;
                        }
                    }
                    ctx.state(&s.acked.bytes);
                }
                Step::Crash(seed) => {
                    ctx.tick("crash", &[]);
                    ctx.fault("crash between calls");
                    crashes += 1;
                    s.restart(*seed, ctx, &format!("step {i}"))?;
                }
            }
        }
        ctx.nontrivial = ops > 2 && crashes > 1;
        Ok(())
    }

    fn about() -> About {
        About {
            title: "acknowledged saves survive crash and restart with the same content",
            rule: "Each run writes a generated document of known content to a simulated disk, then interleaves up to four clients' edits with saves (temporary file, fsync, rename, fsync of the directory) under injected disk faults and with crashes that lose or tear what was not synced; after every restart the file must load, and say what the document said when the save was acknowledged, or a later one which had been renamed. Non-trivial: three edits and two crashes.",
            faults: &["short write", "interrupted", "disk full", "write failed", "fsync failed", "rename failed", "create failed", "fsync directory failed", "crash in write", "crash in fsync", "crash in rename", "crash in create", "crash in fsync directory", "crash between calls"],
            real: &["nondestructive::yaml parser, editing, write_to"],
            stub: &["disk and directory", "clients (simulated)", "the save protocol of the application", "hash seeds (getrandom)"],
            assumptions: &["The disk keeps what was synced; rename is atomic.", "Keys inserted are plain identifiers; block text has trimmed non-empty lines; no empty nulls in inline sequences; comments stand on their own lines or follow something else than a plain string or number."],
        }
    }
}
