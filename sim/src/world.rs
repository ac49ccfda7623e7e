//! What scenarios share: loading, snapshots, and following a document.

use nondestructive::yaml::{self, Document, Value};
use serde::{Deserialize, Serialize};

use crate::content::{De, Gate, Ser, SimErr, C};
use crate::model::{Node, Tree, Val};
use crate::damage::{self, Dmg};
use crate::ops::{exec, gen_op, resolve, Act, Op, OpCfg, Ret};
use crate::read::text;
use crate::rng::Rng;
use crate::rt::{Ctx, Violation};
use crate::seam;
use crate::spec::{gen, DocSpec, GenCfg};

pub fn bug(detail: impl Into<String>) -> Violation {
    Violation {
        class: "harness".into(),
        detail: detail.into(),
    }
}

pub fn show(b: &[u8]) -> String {
    format!("{:?}", bstr::BStr::new(b))
}

/// Load text, counting what is allocated.
pub fn load(text: &[u8]) -> Result<Document, yaml::Error> {
    seam::tracked(|| yaml::from_slice(text))
}

/// A document of a workload. `None` if the library does not take it, which is
/// up to other properties.
pub fn open(spec: &DocSpec) -> Option<(Document, Tree)> {
    let tree = spec.build();
    let doc = load(&tree.render()).ok()?;
    Some((doc, tree))
}

/// Serialize a whole document, and restore it.
pub fn snapshot(doc: &Document) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    ciborium::into_writer(doc, &mut out).map_err(|e| e.to_string())?;
    Ok(out)
}

pub fn restore(bytes: &[u8]) -> Result<Document, String> {
    ciborium::from_reader(bytes).map_err(|e| e.to_string())
}

pub fn snapshot_tree<T: Serialize>(v: &T, fail_at: Option<u64>) -> (Result<C, SimErr>, std::rc::Rc<Gate>) {
    let gate = Gate::new(fail_at, false);
    (v.serialize(Ser(gate.clone())), gate)
}

pub fn restore_tree<'de, T: Deserialize<'de>>(c: &'de C, fail_at: Option<u64>) -> (Result<T, SimErr>, std::rc::Rc<Gate>) {
    let gate = Gate::new(fail_at, false);
    (T::deserialize(De(c, gate.clone())), gate)
}

/// Children of a value in order.
pub fn children<'a>(v: &Value<'a>) -> Vec<Value<'a>> {
    if let Some(m) = v.as_mapping() {
        m.into_iter().map(|(_, v)| v).collect()
    } else if let Some(s) = v.as_sequence() {
        s.into_iter().collect()
    } else {
        Vec::new()
    }
}

/// Where a value of the model is: positions from the root.
pub fn position(tree: &Tree, uid: u32) -> Option<Vec<usize>> {
    fn go(n: &Node, uid: u32, at: &mut Vec<usize>) -> bool {
        if n.uid == uid {
            return true;
        }
        if let Val::Coll(c) = &n.val {
            for (i, item) in c.items.iter().enumerate() {
                at.push(i);
                if go(&item.node, uid, at) {
                    return true;
                }
                at.pop();
            }
        }
        false
    }
    let mut at = Vec::new();
    go(&tree.root, uid, &mut at).then_some(at)
}

pub fn walk<'a>(doc: &'a Document, at: &[usize]) -> Option<Value<'a>> {
    let mut v = doc.as_ref();
    for i in at {
        v = children(&v).into_iter().nth(*i)?;
    }
    Some(v)
}

/// Take the identifiers of new values from the document. What is known stays.
/// False if the shapes differ.
pub fn follow(tree: &mut Tree, doc: &Document) -> bool {
    fn go(n: &mut Node, v: &Value<'_>) -> bool {
        if n.id.is_none() {
            n.id = Some(v.id());
        }
        let map = v.as_mapping().is_some();
        let seq = v.as_sequence().is_some();
        match &mut n.val {
            Val::Coll(c) => {
                let kids = children(v);
                (if c.map { map } else { seq })
                    && kids.len() == c.items.len()
                    && c.items.iter_mut().zip(&kids).all(|(i, v)| go(&mut i.node, v))
            }
            _ => !map && !seq,
        }
    }
    go(&mut tree.root, &doc.as_ref())
}

pub fn kind(act: &Act) -> &'static str {
    use crate::ops::{Kind, SetOp};
    match &act.kind {
        Kind::Set(SetOp::MakeMap | SetOp::MakeSeq) => "make",
        Kind::Set(SetOp::Block(..)) => "set_block",
        Kind::Set(SetOp::Null(_)) => "set_null",
        Kind::Set(_) => "set",
        Kind::Put(..) => "insert",
        Kind::Add(_) => "push",
        Kind::RemoveKey(_) | Kind::RemoveIdx(_) => "remove",
        Kind::Clear => "clear",
    }
}

pub fn note(ctx: &mut Ctx, act: &Act) {
    ctx.count(&format!("op.{}", kind(act)));
    ctx.tick("op", format!("{:?} {:?}", act.uid, act.kind).as_bytes());
}

/// Where a run starts: a document, what storage did to it, and edits.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Start {
    pub spec: DocSpec,
    pub damage: Vec<Dmg>,
    pub ops: Vec<Op>,
}

impl Start {
    pub fn gen(rng: &mut Rng, size: usize, ops: usize) -> Start {
        let wild = rng.chance(1, 3);
        let size = rng.range(2, size.max(3));
        let spec = gen(
            rng,
            &GenCfg {
                wild,
                size,
                depth: 6,
                safe: false,
            },
        );
        let damage = if rng.chance(1, 4) { damage::gen(rng) } else { Vec::new() };
        let cfg = OpCfg::swarm(rng, false);
        let n = if ops == 0 { 0 } else { rng.below(ops + 1) };
        let ops = (0..n).map(|_| gen_op(rng, &cfg, 1)).collect();
        Start { spec, damage, ops }
    }

    pub fn bytes(&self, ctx: &mut Ctx) -> Vec<u8> {
        let mut b = self.spec.build().render();
        let other = b.clone();
        damage::apply(&mut b, &self.damage, &other, ctx);
        b
    }

    pub fn open(&self, ctx: &mut Ctx) -> Option<Document> {
        let bytes = self.bytes(ctx);
        let Ok(mut doc) = load(&bytes) else {
            ctx.count("rejected");
            return None;
        };
        for op in &self.ops {
            edit(&mut doc, op, ctx);
        }
        ctx.tick("start", &text(&doc));
        Some(doc)
    }
}

/// One edit, unless the document has become large.
pub fn edit(doc: &mut Document, op: &Op, ctx: &mut Ctx) -> Option<(Act, Ret)> {
    let tree = Tree::learn(doc);
    if tree.root.size() > 250 {
        return None;
    }
    let act = resolve(&tree, op)?;
    note(ctx, &act);
    let ret = seam::tracked(|| exec(doc, &act));
    Some((act, ret))
}

/// Every value, in document order.
pub fn values(doc: &Document) -> Vec<Value<'_>> {
    fn go<'a>(v: Value<'a>, out: &mut Vec<Value<'a>>) {
        let kids = children(&v);
        out.push(v);
        for v in kids {
            go(v, out);
        }
    }
    let mut out = Vec::new();
    go(doc.as_ref(), &mut out);
    out
}
