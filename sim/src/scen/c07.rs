//! Edits are local: all other bytes stay where they are.

use nondestructive::yaml::Document;
use serde::{Deserialize, Serialize};

use crate::engine::{About, Scenario};
use crate::model::{Item, Mark, Node, Tree, Val};
use crate::ops::{exec, gen_op, resolve, Act, Kind, Op, OpCfg, PutV, Ret, SetOp};
use crate::read::text;
use crate::rng::Rng;
use crate::rt::{fail, Ctx, Res, Violation};
use crate::seam;
use crate::spec::{gen, plain, plain_key, DocSpec, GenCfg};
use crate::world::{follow, note, open, restore, show, snapshot, walk, position};

#[derive(Serialize, Deserialize)]
enum Step {
    Op(Op),
    Clone,
    Checkpoint,
    Rollback,
    Restore,
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    spec: DocSpec,
    steps: Vec<Step>,
}

pub struct C07;

fn ws(b: &[u8]) -> bool {
    b.iter().all(|b| matches!(b, b' ' | b'\t' | b'\n' | b'\r'))
}

/// Whitespace which appears in front of a value: there was none, or it had
/// been hidden.
fn gap(w: &[u8], hidden: &[u8], seps: &[Vec<u8>]) -> bool {
    ws(w) || w == hidden || seps.iter().any(|s| s == w)
}

/// Separators which carry comments. New entries may copy them from others.
fn separators(tree: &Tree) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut add = |s: &[u8]| {
        if !ws(s) && !out.iter().any(|o| o == s) {
            out.push(s.to_vec());
        }
    };
    tree.root.visit(&mut |n| {
        add(&n.pre);
        if let Some(c) = n.coll() {
            c.items.iter().for_each(|i| add(&i.pre));
        }
    });
    out
}

/// What is put in place of `a..b`, everything around it being where it was.
fn chunk<'t>(before: &[u8], after: &'t [u8], a: usize, b: usize) -> Result<&'t [u8], String> {
    let tail = &before[b..];
    if after.len() < a + tail.len() || after[..a] != before[..a] {
        let at = before.iter().zip(after).take_while(|(a, b)| a == b).count();
        return Err(format!("changed at byte {at}, before the entry at {a}"));
    }
    if !after.ends_with(tail) {
        return Err(format!("the text after byte {b} changed"));
    }
    Ok(&after[a..after.len() - tail.len()])
}

struct Edit<'a> {
    before: &'a [u8],
    after: &'a [u8],
    seps: &'a [Vec<u8>],
}

impl Edit<'_> {
    /// In an inline sequence, whitespace before an item and before its value
    /// are next to one another: only together do they have to be the same.
    fn hide(&self, item: &mut Item, m: &Mark) -> Result<(), String> {
        let all = [&item.pre[..], &item.node.pre].concat();
        let start = m.pre - item.pre.len();
        let c = chunk(self.before, self.after, start, m.end)?;
        if !all.starts_with(c) {
            return Err(format!("left {} in place of an empty value", show(c)));
        }
        item.pre = c.to_vec();
        item.node.pre = all[c.len()..].to_vec();
        item.node.val = Val::null();
        Ok(())
    }

    /// A value goes from one to another. `old` keeps its place and name.
    fn replace(&self, old: &mut Node, m: &Mark, root: bool, val: Val, text: &[u8], loose: bool) -> Result<(), String> {
        let was = old.val.blank();
        let is = val.blank();
        if was && is {
            if self.before != self.after {
                return Err("changed, although nothing of it is written".into());
            }
        } else if is && !root {
            let c = chunk(self.before, self.after, m.pre, m.end)?;
            if !c.is_empty() {
                return Err(format!("left {} in place of an empty value", show(c)));
            }
        } else if root || (!was && !loose) {
            let c = chunk(self.before, self.after, m.val, m.end)?;
            if c != text {
                return Err(format!("wrote {}, expected {}", show(c), show(text)));
            }
        } else {
            // Whitespace comes into being with the value.
            let c = chunk(self.before, self.after, m.pre, m.end)?;
            let Some(w) = c.strip_suffix(text) else {
                return Err(format!("wrote {}, expected it to end in {}", show(c), show(text)));
            };
            if !gap(w, &old.pre, self.seps) {
                return Err(format!("wrote {} in front of the value, there was {}", show(w), show(&old.pre)));
            }
            old.pre = w.to_vec();
        }
        old.val = val;
        Ok(())
    }

    /// An item is added to the end of a collection.
    fn append(&self, node: &mut Node, m: &Mark, root: bool, mut item: Item, text: &[u8], sep: Option<&str>) -> Result<(), String> {
        let hidden = node.pre.clone();
        let blank = node.val.blank();
        let Some(c) = node.coll_mut() else { return Err("no collection".into()) };
        let at = if blank && !root { m.pre } else { m.items };
        let whole = chunk(self.before, self.after, at, at)?;
        let bad = |why: &str| Err(format!("added {}: {why}", show(whole)));
        let mut s = whole;
        if c.flow && !c.items.is_empty() {
            match s.strip_prefix(b",") {
                Some(rest) => s = rest,
                None => return bad("expected a separator"),
            }
        }
        if c.flow && c.items.is_empty() && c.trailing {
            match s.strip_suffix(b",") {
                Some(rest) => s = rest,
                None => c.trailing = false,
            }
        }
        let n = if blank && s.starts_with(&hidden) && !ws(&hidden) {
            hidden.len()
        } else {
            let odd = self.seps.iter().filter(|p| s.starts_with(p)).map(Vec::len).max();
            odd.unwrap_or_else(|| s.iter().take_while(|b| ws(&[**b])).count())
        };
        let (w, rest) = s.split_at(n);
        if blank {
            item.pre = Vec::new();
        } else {
            item.pre = w.to_vec();
        }
        let w = w.to_vec();
        s = rest;
        let name = if c.map {
            [&item.ktext[..], b":"].concat()
        } else if c.flow {
            Vec::new()
        } else {
            b"-".to_vec()
        };
        let mut w2: Vec<u8> = Vec::new();
        if name.is_empty() {
            // Whitespace before the item and before the value are the same.
            let Some(rest) = s.strip_suffix(text) else { return bad("expected it to end in its value") };
            if !gap(rest, &[], self.seps) {
                return bad("more than the value");
            }
            w2.extend(rest);
        } else {
            let Some(rest) = s.strip_prefix(&name[..]) else { return bad("expected its key or dash") };
            if item.node.val.blank() {
                if !rest.is_empty() {
                    return bad("more than an entry without a value");
                }
            } else {
                let Some(rest) = rest.strip_suffix(text) else { return bad("expected it to end in its value") };
                if !gap(rest, &[], self.seps) {
                    return bad("more than whitespace in front of the value");
                }
                if let Some(sep) = sep {
                    if rest != sep.as_bytes() {
                        return bad("not the separator asked for");
                    }
                }
                w2.extend(rest);
            }
        }
        item.node.pre = w2;
        c.items.push(item);
        if blank && !root {
            node.pre = w;
        } else if blank {
            node.pre.extend(w);
        }
        Ok(())
    }
}

fn blank_val(s: &SetOp) -> bool {
    matches!(s, SetOp::Null(n) if n % 3 == 2)
}

fn new_val(s: &SetOp, text: &[u8], flow: bool) -> Val {
    match s {
        SetOp::MakeMap => Val::coll(true, flow),
        SetOp::MakeSeq => Val::coll(false, flow),
        s if blank_val(s) => Val::null(),
        SetOp::Null(_) => Val::Null(text.to_vec()),
        _ => Val::Str(Vec::new(), text.to_vec()),
    }
}

/// The item of an inline sequence.
fn flow_item(n: &mut Node, uid: u32) -> Option<&mut Item> {
    let c = n.coll_mut()?;
    if c.flow && !c.map {
        if let Some(i) = c.items.iter().position(|i| i.node.uid == uid) {
            return c.items.get_mut(i);
        }
    }
    c.items.iter_mut().find_map(|i| flow_item(&mut i.node, uid))
}

fn put_set(p: &PutV) -> SetOp {
    match p {
        PutV::Direct(s) => s.clone(),
        PutV::Via(_, s) => s.clone().unwrap_or(SetOp::Null(2)),
    }
}

/// Apply to the model, and find the edit in the text.
fn verify(tree: &mut Tree, act: &Act, doc: &Document, before: &[u8], m: &crate::model::Marks, after: &[u8], seps: &[Vec<u8>]) -> Result<(), String> {
    let e = Edit { before, after, seps };
    let in_flow = tree.in_flow(act.uid);
    let root = tree.root.uid;
    let fresh = tree.fresh();
    let at = position(tree, act.uid).unwrap_or_default();
    let at_child = |i: usize| [&at[..], &[i]].concat();
    let written = |at: &[usize]| walk(doc, at).map(|v| v.to_string().into_bytes()).unwrap_or_default();
    let Some(node) = tree.root.find_mut(act.uid) else { return Err("no node".into()) };
    let mark = m[&act.uid];
    match &act.kind {
        Kind::Set(s) => {
            let keep = match (s, node.coll()) {
                (SetOp::MakeMap, Some(c)) => c.map,
                (SetOp::MakeSeq, Some(c)) => !c.map,
                _ => false,
            };
            if keep {
                return if before == after { Ok(()) } else { Err("changed, although it is that collection already".into()) };
            }
            let text = written(&at);
            let val = new_val(s, &text, in_flow);
            let (was, is) = (node.val.blank(), val.blank());
            if let Some(item) = flow_item(&mut tree.root, act.uid) {
                if is && !was {
                    return e.hide(item, &mark);
                }
            }
            let Some(node) = tree.root.find_mut(act.uid) else { return Err("no node".into()) };
            e.replace(node, &mark, act.uid == root, val, &text, false)
        }
        Kind::Put(key, p) => {
            let s = put_set(p);
            let is_root = act.uid == root;
            let Some(c) = node.coll_mut() else { return Err("no collection".into()) };
            let flow = c.flow;
            let sep = match p {
                PutV::Via(Some(sep), _) if !s.make() => Some(sep.as_str()),
                _ => None,
            };
            if let Some(i) = c.items.iter().position(|i| i.key == *key) {
                let child = &mut c.items[i].node;
                let text = written(&at_child(i));
                let m = m[&child.uid];
                let loose = matches!(p, PutV::Via(..));
                return e.replace(child, &m, false, new_val(&s, &text, flow), &text, loose);
            }
            let text = written(&at_child(c.items.len()));
            let item = Item {
                pre: Vec::new(),
                key: key.clone(),
                ktext: key.clone(),
                node: Node::new(fresh, new_val(&s, &text, flow)),
                suf: Vec::new(),
            };
            e.append(node, &mark, is_root, item, &text, sep)
        }
        Kind::Add(p) => {
            let s = put_set(p);
            let is_root = act.uid == root;
            let Some(c) = node.coll() else { return Err("no collection".into()) };
            let flow = c.flow;
            let sep = match p {
                PutV::Via(Some(sep), _) if !s.make() => Some(sep.as_str()),
                _ => None,
            };
            let text = written(&at_child(c.items.len()));
            let item = Item {
                pre: Vec::new(),
                key: Vec::new(),
                ktext: Vec::new(),
                node: Node::new(fresh, new_val(&s, &text, flow)),
                suf: Vec::new(),
            };
            e.append(node, &mark, is_root, item, &text, sep)
        }
        Kind::RemoveKey(k) => {
            let Some(c) = node.coll_mut() else { return Err("no collection".into()) };
            if let Some(i) = c.items.iter().position(|i| i.key == k.as_bytes()) {
                c.items.remove(i);
            }
            exact(tree, after)
        }
        Kind::RemoveIdx(i) => {
            let Some(c) = node.coll_mut() else { return Err("no collection".into()) };
            if *i < c.items.len() {
                c.items.remove(*i);
            }
            exact(tree, after)
        }
        Kind::Clear => {
            let Some(c) = node.coll_mut() else { return Err("no collection".into()) };
            c.items.clear();
            exact(tree, after)
        }
    }
}

fn exact(tree: &Tree, after: &[u8]) -> Result<(), String> {
    let want = tree.render();
    if want == after {
        Ok(())
    } else {
        Err(format!("expected {}", show(&want)))
    }
}

/// Within what the property is about.
fn within(act: &Act) -> bool {
    let sep = |p: &PutV| match p {
        PutV::Via(Some(sep), _) => !sep.is_empty() && sep.bytes().all(|b| b.is_ascii_whitespace()),
        _ => true,
    };
    let set = |s: &SetOp| match s {
        SetOp::StrWith(s, k) => k % 3 != 0 || plain(s, true),
        _ => true,
    };
    match &act.kind {
        Kind::Put(k, p) => key(k) && sep(p) && set(&put_set(p)),
        Kind::Add(p) => sep(p) && set(&put_set(p)),
        Kind::Set(s) => set(s),
        _ => true,
    }
}

fn key(k: &[u8]) -> bool {
    std::str::from_utf8(k).is_ok_and(plain_key)
}

#[derive(Clone)]
struct State {
    doc: Document,
    tree: Tree,
    seps: Vec<Vec<u8>>,
}

impl Scenario for C07 {
    const ID: &'static str = "C07";
    const RUNS: (u64, u64) = (300_000, 20_000_000);
    type Plan = Plan;

    fn gen(rng: &mut Rng) -> Plan {
        let size = rng.range(3, 24);
        let spec = gen(
            rng,
            &GenCfg {
                wild: false,
                size,
                depth: 5,
                safe: false,
            },
        );
        let cfg = OpCfg::swarm(rng, false);
        let clients = rng.range(1, 4) as u8;
        let n = crate::ops::steps(rng, 16, 60) + 1;
        let steps = (0..n)
            .map(|_| match rng.below(32) {
                0 => Step::Clone,
                1 => Step::Checkpoint,
                2 => Step::Rollback,
                3 => Step::Restore,
                _ => Step::Op(gen_op(rng, &cfg, clients)),
            })
            .collect();
        Plan { spec, steps }
    }

    fn run(plan: &Plan, ctx: &mut Ctx) -> Res {
        let Some((doc, mut tree)) = open(&plan.spec) else {
            ctx.count("rejected");
            return Ok(());
        };
        if !tree.adopt(&doc) {
            ctx.count("read differently");
            return Ok(());
        }
        let seps = separators(&tree);
        let mut s = State { doc, tree, seps };
        let mut saved: Option<State> = None;
        let mut done = 0;
        if text(&s.doc) != s.tree.render() {
            ctx.count("loaded differently");
            return Ok(());
        }
        for (i, step) in plan.steps.iter().enumerate() {
            match step {
                Step::Op(op) => {
                    if s.tree.root.size() > 300 {
                        continue;
                    }
                    let Some(act) = resolve(&s.tree, op) else { continue };
                    if !within(&act) {
                        continue;
                    }
                    note(ctx, &act);
                    let (before, marks) = s.tree.marks();
                    let got = seam::tracked(|| exec(&mut s.doc, &act));
                    if got == Ret::Lost {
                        ctx.count("diverged");
                        return Ok(());
                    }
                    let after = text(&s.doc);
                    if let Err(e) = verify(&mut s.tree, &act, &s.doc, &before, &marks, &after, &s.seps) {
                        return fail(
                            "local",
                            format!("step {i} {:?}: {e}\nbefore {}\nafter  {}", act.kind, show(&before), show(&after)),
                        );
                    }
                    let want = s.tree.render();
                    if want != after {
                        return Err(Violation {
                            class: "local".into(),
                            detail: format!(
                                "step {i} {:?}: expected {}\nfound {}\nbefore {}",
                                act.kind,
                                show(&want),
                                show(&after),
                                show(&before)
                            ),
                        });
                    }
                    if !follow(&mut s.tree, &s.doc) {
                        ctx.count("diverged");
                        return Ok(());
                    }
                    done += 1;
                    ctx.state(&after);
                }
                Step::Clone => {
                    ctx.tick("clone", &[]);
                    s.doc = s.doc.clone();
                }
                Step::Checkpoint => {
                    ctx.tick("checkpoint", &[]);
                    saved = Some(s.clone());
                }
                Step::Rollback => {
                    if let Some(old) = &saved {
                        ctx.tick("rollback", &[]);
                        ctx.fault("rollback");
                        s = old.clone();
                    }
                }
                Step::Restore => {
                    ctx.tick("restore", &[]);
                    ctx.fault("crash and restore");
                    match snapshot(&s.doc).and_then(|b| restore(&b)) {
                        Ok(doc) => s.doc = doc,
                        Err(_) => {
                            ctx.count("no snapshot");
                            return Ok(());
                        }
                    }
                }
            }
            if text(&s.doc) != s.tree.render() {
                return fail("local", format!("step {i}: text changed without an edit: {}", show(&text(&s.doc))));
            }
        }
        ctx.nontrivial = done > 2;
        Ok(())
    }

    fn about() -> About {
        About {
            title: "edits are local: all other bytes stay where they are, history-wide",
            rule: "Each run generates a block or flow document with comments, blank lines and arbitrary whitespace along with a model of every byte of it, and applies a seeded schedule of up to four clients' edits with clones, rollbacks and restores from snapshots; after every edit the saved text must equal the text before it except for the run of the entry addressed. Non-trivial: at least three edits took effect.",
            faults: &["rollback", "crash and restore"],
            real: &["nondestructive::yaml parser, editing, writing, snapshots"],
            stub: &["clients (simulated)", "snapshot storage (ciborium in memory)", "hash seeds (getrandom)"],
            assumptions: &["The text of a new value is that which Display gives for it; C06 decides whether it reads back."],
        }
    }
}
