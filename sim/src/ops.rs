//! Editing operations: generated, resolved against the model, and applied to
//! both the model and real documents.

use nondestructive::yaml::{AnyMut, Block, Chomp, Document, Id, MappingMut, Null, Separator, SequenceMut, StringKind, ValueMut};
use serde::{Deserialize, Serialize};

use crate::cb;
use crate::model::{Item, Node, Num, NumV, Seg, Tree, Val, NUM_TYPES};
use crate::rng::Rng;
use crate::spec;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SetOp {
    Null(u8),
    Bool(bool),
    Str(String),
    StrWith(String, u8),
    Block(Vec<String>, bool, u8),
    Num(Num),
    MakeMap,
    MakeSeq,
    /// A string made from one which is in the document.
    Echo(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PutV {
    /// `insert_str` and the like.
    Direct(SetOp),
    /// `insert` or `push` with a separator, and setting what it returns.
    Via(Option<String>, Option<SetOp>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum KeySel {
    /// Of an existing entry.
    Old(u16),
    New(String),
    /// Almost that of an existing entry.
    Near(u16, u8),
}

/// A key which is almost another one.
pub fn near(key: &[u8], how: u8) -> Vec<u8> {
    let mut out = key.to_vec();
    match how % 6 {
        0 => out.make_ascii_uppercase(),
        1 => {
            if let Some(b) = out.first_mut() {
                *b ^= if b.is_ascii_alphabetic() { 32 } else { 0 };
            }
        }
        2 => out.push(b'x'),
        3 => {
            out.pop();
        }
        4 => out.insert(0, b'x'),
        _ => {
            if let Some(b) = out.last_mut() {
                *b ^= if b.is_ascii_alphabetic() { 32 } else { 0 };
            }
        }
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Set(u16, SetOp),
    Put(u16, KeySel, PutV),
    Add(u16, PutV),
    RemoveKey(u16, KeySel),
    RemoveIdx(u16, u16),
    Clear(u16),
}

/// One edit by one client.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub c: u8,
    pub route: u8,
    pub e: Edit,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Set(SetOp),
    Put(Vec<u8>, PutV),
    Add(PutV),
    RemoveKey(String),
    RemoveIdx(usize),
    Clear,
}

/// An edit of a particular value.
#[derive(Clone, Debug)]
pub struct Act {
    pub uid: u32,
    pub id: Id,
    pub path: Option<Vec<Seg>>,
    pub route: u8,
    pub kind: Kind,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ret {
    Done,
    Removed(bool),
    /// The identifier of the value returned.
    Value(Id),
    /// The target could not be reached.
    Lost,
}

const ECHO: &str = "echo";

/// What a block of lines says.
pub fn block_value(lines: &[String], folded: bool, chomp: u8) -> Vec<u8> {
    let mut out = lines.join(if folded { " " } else { "\n" });
    if chomp % 3 != 0 {
        out.push('\n');
    }
    out.into_bytes()
}

fn block_kind(folded: bool, chomp: u8) -> Block {
    let chomp = match chomp % 3 {
        0 => Chomp::Strip,
        1 => Chomp::Clip,
        _ => Chomp::Keep,
    };
    if folded {
        Block::Folded(chomp)
    } else {
        Block::Literal(chomp)
    }
}

impl SetOp {
    /// The value once it was set, unless it stays.
    pub fn val(&self, flow: bool) -> Val {
        match self {
            SetOp::Null(n) => Val::Null(match n % 3 {
                0 => b"null".to_vec(),
                1 => b"~".to_vec(),
                _ => Vec::new(),
            }),
            SetOp::Bool(b) => Val::Bool(*b, Vec::new()),
            SetOp::Str(s) | SetOp::StrWith(s, _) => Val::Str(s.clone().into_bytes(), Vec::new()),
            SetOp::Block(lines, folded, chomp) => Val::Str(block_value(lines, *folded, *chomp), Vec::new()),
            SetOp::Num(n) => Val::Num(NumV::Typed(*n), Vec::new()),
            SetOp::MakeMap => Val::coll(true, flow),
            SetOp::MakeSeq => Val::coll(false, flow),
            SetOp::Echo(..) => Val::Str(ECHO.into(), Vec::new()),
        }
    }

    /// Find out which string is meant.
    fn settle(&self, tree: &Tree, uid: u32) -> SetOp {
        let SetOp::Echo(n, how) = self else { return self.clone() };
        let own = |uid: u32| match &tree.root.find(uid)?.val {
            Val::Str(s, _) => String::from_utf8(s.clone()).ok(),
            _ => None,
        };
        let any = || own(pick(&tree.nodes(|n| matches!(n.val, Val::Str(..))), *n)?);
        let s = if n % 2 == 0 { own(uid).or_else(any) } else { any() };
        let mut s = s.filter(|s| s.len() < 400).unwrap_or_else(|| ECHO.to_owned());
        match how % 8 {
            0 | 1 => {}
            2 => s = format!("'{}'", s.replace('\'', "''")),
            3 => s = format!("\"{s}\""),
            4 => {
                s.pop();
            }
            5 => s.push(' '),
            6 => s.push('x'),
            _ => return SetOp::StrWith(s, 1 + how / 8 % 2),
        }
        SetOp::Str(s)
    }

    pub fn make(&self) -> bool {
        matches!(self, SetOp::MakeMap | SetOp::MakeSeq)
    }

    /// Something which can be inserted directly.
    pub fn direct(&self) -> bool {
        matches!(
            self,
            SetOp::Bool(_) | SetOp::Str(_) | SetOp::Block(..) | SetOp::Num(_) | SetOp::Echo(..)
        )
    }
}

macro_rules! by_type {
    ($num:expr, $obj:ident, ($($arg:expr),*), $f0:ident $f1:ident $f2:ident $f3:ident $f4:ident $f5:ident $f6:ident $f7:ident $f8:ident $f9:ident $f10:ident $f11:ident) => {{
        let b = $num.bits();
        match $num.ty % NUM_TYPES {
            0 => $obj.$f0($($arg,)* $num.f32()),
            1 => $obj.$f1($($arg,)* $num.f64()),
            2 => $obj.$f2($($arg,)* b as u8),
            3 => $obj.$f3($($arg,)* b as i8),
            4 => $obj.$f4($($arg,)* b as u16),
            5 => $obj.$f5($($arg,)* b as i16),
            6 => $obj.$f6($($arg,)* b as u32),
            7 => $obj.$f7($($arg,)* b as i32),
            8 => $obj.$f8($($arg,)* b as u64),
            9 => $obj.$f9($($arg,)* b as i64),
            10 => $obj.$f10($($arg,)* b),
            _ => $obj.$f11($($arg,)* b as i128),
        }
    }};
}

pub fn set(mut v: ValueMut<'_>, s: &SetOp) -> Id {
    let id = v.as_ref().id();
    match s {
        SetOp::Null(n) => v.set_null(match n % 3 {
            0 => Null::Keyword,
            1 => Null::Tilde,
            _ => Null::Empty,
        }),
        SetOp::Bool(b) => v.set_bool(*b),
        SetOp::Str(s) => v.set_string(cb::S(s)),
        SetOp::StrWith(s, k) => v.set_string_with(
            cb::S(s),
            match k % 3 {
                0 => StringKind::Bare,
                1 => StringKind::Single,
                _ => StringKind::Double,
            },
        ),
        SetOp::Block(lines, folded, chomp) => v.set_block(cb::Lines(lines), block_kind(*folded, *chomp)),
        SetOp::Num(num) => by_type!(num, v, (), set_f32 set_f64 set_u8 set_i8 set_u16 set_i16 set_u32 set_i32 set_u64 set_i64 set_u128 set_i128),
        SetOp::MakeMap => {
            let m = v.make_mapping();
            return m.as_ref().id();
        }
        SetOp::MakeSeq => {
            let s = v.make_sequence();
            return s.as_ref().id();
        }
        SetOp::Echo(..) => v.set_string(ECHO),
    }
    id
}

fn put(mut m: MappingMut<'_>, key: &[u8], p: &PutV) -> Ret {
    match p {
        PutV::Direct(s) => {
            match s {
                SetOp::Bool(b) => m.insert_bool(cb::K(key), *b),
                SetOp::Str(s) => m.insert_str(cb::K(key), cb::S(s)),
                SetOp::Block(lines, folded, chomp) => m.insert_block(cb::K(key), cb::Lines(lines), block_kind(*folded, *chomp)),
                SetOp::Num(num) => by_type!(num, m, (cb::K(key)), insert_f32 insert_f64 insert_u8 insert_i8 insert_u16 insert_i16 insert_u32 insert_i32 insert_u64 insert_i64 insert_u128 insert_i128),
                _ => {
                    set(m.insert(cb::K(key), Separator::Auto), s);
                }
            }
            Ret::Done
        }
        PutV::Via(sep, s) => {
            let sep = sep.as_ref().map_or(Separator::Auto, |s| Separator::Custom(s));
            let v = m.insert(cb::K(key), sep);
            let id = v.as_ref().id();
            if let Some(s) = s {
                set(v, s);
            }
            Ret::Value(id)
        }
    }
}

fn add(mut q: SequenceMut<'_>, p: &PutV) -> Ret {
    match p {
        PutV::Direct(s) => {
            match s {
                SetOp::Bool(b) => q.push_bool(*b),
                SetOp::Str(s) => q.push_string(cb::S(s)),
                SetOp::Block(lines, folded, chomp) => q.push_block(cb::Lines(lines), block_kind(*folded, *chomp)),
                SetOp::Num(num) => by_type!(num, q, (), push_f32 push_f64 push_u8 push_i8 push_u16 push_i16 push_u32 push_i32 push_u64 push_i64 push_u128 push_i128),
                _ => {
                    set(q.push(Separator::Auto), s);
                }
            }
            Ret::Done
        }
        PutV::Via(sep, s) => {
            let sep = sep.as_ref().map_or(Separator::Auto, |s| Separator::Custom(s));
            let v = q.push(sep);
            let id = v.as_ref().id();
            if let Some(s) = s {
                set(v, s);
            }
            Ret::Value(id)
        }
    }
}

fn act_on(mut v: ValueMut<'_>, route: u8, kind: &Kind) -> Ret {
    enum Either<'a> {
        M(MappingMut<'a>),
        S(SequenceMut<'a>),
        No,
    }
    if let Kind::Set(s) = kind {
        return Ret::Value(set(v, s));
    }
    let map = v.as_ref().as_mapping().is_some();
    let e = match route / 4 % 3 {
        0 if map => v.as_mapping_mut().map_or(Either::No, Either::M),
        0 => v.as_sequence_mut().map_or(Either::No, Either::S),
        1 if map => v.into_mapping_mut().map_or(Either::No, Either::M),
        1 => v.into_sequence_mut().map_or(Either::No, Either::S),
        _ => match v.into_any_mut() {
            AnyMut::Mapping(m) => Either::M(m),
            AnyMut::Sequence(s) => Either::S(s),
            _ => Either::No,
        },
    };
    match (e, kind) {
        (Either::M(m), Kind::Put(k, p)) => put(m, k, p),
        (Either::S(s), Kind::Add(p)) => add(s, p),
        (Either::M(mut m), Kind::RemoveKey(k)) => Ret::Removed(m.remove(k)),
        (Either::S(mut s), Kind::RemoveIdx(i)) => Ret::Removed(s.remove(*i)),
        (Either::M(mut m), Kind::Clear) => {
            m.clear();
            Ret::Done
        }
        (Either::S(mut s), Kind::Clear) => {
            s.clear();
            Ret::Done
        }
        _ => Ret::Lost,
    }
}

/// Apply to a document.
pub fn exec(doc: &mut Document, act: &Act) -> Ret {
    fn by_ref(mut v: ValueMut<'_>, path: &[Seg], f: &mut dyn FnMut(ValueMut<'_>) -> Ret) -> Ret {
        match path.split_first() {
            None => f(v),
            Some((Seg::Key(k), rest)) => match v.as_mapping_mut() {
                Some(mut m) => match m.get_mut(k) {
                    Some(v) => by_ref(v, rest, f),
                    None => Ret::Lost,
                },
                None => Ret::Lost,
            },
            Some((Seg::Index(i), rest)) => match v.as_sequence_mut() {
                Some(mut s) => match s.get_mut(*i) {
                    Some(v) => by_ref(v, rest, f),
                    None => Ret::Lost,
                },
                None => Ret::Lost,
            },
        }
    }
    match (&act.path, act.route % 4) {
        (Some(path), 1) => {
            let mut v = doc.as_mut();
            for seg in path {
                let next = match seg {
                    Seg::Key(k) => v.into_mapping_mut().and_then(|m| m.get_into_mut(k)),
                    Seg::Index(i) => v.into_sequence_mut().and_then(|s| s.get_into_mut(*i)),
                };
                match next {
                    Some(next) => v = next,
                    None => return Ret::Lost,
                }
            }
            act_on(v, act.route, &act.kind)
        }
        (Some(path), 2) => by_ref(doc.as_mut(), path, &mut |v| act_on(v, act.route, &act.kind)),
        (Some(path), 3) => {
            let mut v = doc.as_mut();
            for seg in path {
                let next = match (v.into_any_mut(), seg) {
                    (AnyMut::Mapping(m), Seg::Key(k)) => m.get_into_mut(k),
                    (AnyMut::Sequence(s), Seg::Index(i)) => s.get_into_mut(*i),
                    _ => None,
                };
                match next {
                    Some(next) => v = next,
                    None => return Ret::Lost,
                }
            }
            act_on(v, act.route, &act.kind)
        }
        _ => act_on(doc.value_mut(act.id), act.route, &act.kind),
    }
}

fn pick<T: Copy>(s: &[T], n: u16) -> Option<T> {
    if s.is_empty() {
        None
    } else {
        Some(s[n as usize % s.len()])
    }
}

/// Find out what an edit means in the current state.
pub fn resolve(tree: &Tree, op: &Op) -> Option<Act> {
    let map = |n: &Node| n.coll().is_some_and(|c| c.map);
    let seq = |n: &Node| n.coll().is_some_and(|c| !c.map);
    let key = |uid: u32, k: &KeySel| match k {
        KeySel::New(k) => Some(k.clone().into_bytes()),
        KeySel::Old(n) => {
            let c = tree.root.find(uid)?.coll()?;
            if c.items.is_empty() {
                return None;
            }
            Some(c.items[*n as usize % c.items.len()].key.clone())
        }
        KeySel::Near(n, how) => {
            let c = tree.root.find(uid)?.coll()?;
            if c.items.is_empty() {
                return None;
            }
            let key = &c.items[*n as usize % c.items.len()].key;
            let near = near(key, *how);
            let plain = std::str::from_utf8(&near).is_ok_and(spec::plain_key);
            Some(if plain { near } else { key.clone() })
        }
    };
    let settle = |uid: u32, p: &PutV| match p {
        PutV::Direct(s) => match s.settle(tree, uid) {
            s @ SetOp::StrWith(..) => PutV::Via(None, Some(s)),
            s => PutV::Direct(s),
        },
        PutV::Via(sep, s) => PutV::Via(sep.clone(), s.as_ref().map(|s| s.settle(tree, uid))),
    };
    let (uid, kind) = match &op.e {
        Edit::Set(t, s) => {
            let uid = pick(&tree.nodes(|_| true), *t)?;
            (uid, Kind::Set(s.settle(tree, uid)))
        }
        Edit::Put(t, k, p) => {
            let uid = pick(&tree.nodes(map), *t)?;
            let key = key(uid, k)?;
            // What is there already, if any.
            let c = tree.root.find(uid)?.coll()?;
            let old = c.items.iter().find(|i| i.key == key).map_or(uid, |i| i.node.uid);
            (uid, Kind::Put(key, settle(old, p)))
        }
        Edit::Add(t, p) => {
            let uid = pick(&tree.nodes(seq), *t)?;
            (uid, Kind::Add(settle(uid, p)))
        }
        Edit::RemoveKey(t, k) => {
            let uid = pick(&tree.nodes(map), *t)?;
            (uid, Kind::RemoveKey(String::from_utf8(key(uid, k)?).ok()?))
        }
        Edit::RemoveIdx(t, i) => {
            let uid = pick(&tree.nodes(seq), *t)?;
            let len = tree.root.find(uid)?.coll()?.items.len();
            // Past the end now and then.
            let at = *i as usize % (len + 1);
            let far = at == len && *i % 2 == 1;
            (uid, Kind::RemoveIdx(if far { usize::MAX - *i as usize % 4 } else { at }))
        }
        Edit::Clear(t) => (pick(&tree.nodes(|n| n.coll().is_some()), *t)?, Kind::Clear),
    };
    let node = tree.root.find(uid)?;
    Some(Act {
        uid,
        id: node.id?,
        path: if op.route % 4 == 0 { None } else { tree.path(uid) },
        route: op.route,
        kind,
    })
}

/// Apply to the model. The literal text of what changed is left blank.
pub fn model(tree: &mut Tree, act: &Act) -> Ret {
    let in_flow = tree.in_flow(act.uid);
    let fresh = tree.fresh();
    let Some(node) = tree.root.find_mut(act.uid) else {
        return Ret::Lost;
    };
    let flow = node.coll().is_some_and(|c| c.flow);
    let put_val = |p: &PutV| match p {
        PutV::Direct(s) => s.val(flow),
        PutV::Via(_, s) => s.as_ref().map_or_else(Val::null, |s| s.val(flow)),
    };
    match &act.kind {
        Kind::Set(s) => {
            let keep = match (s, node.coll()) {
                (SetOp::MakeMap, Some(c)) => c.map,
                (SetOp::MakeSeq, Some(c)) => !c.map,
                _ => false,
            };
            if !keep {
                node.val = s.val(in_flow);
            }
            Ret::Value(act.id)
        }
        Kind::Put(key, p) => {
            let val = put_val(p);
            let Some(c) = node.coll_mut() else { return Ret::Lost };
            if let Some(item) = c.items.iter_mut().find(|i| i.key == *key) {
                item.node.val = val;
            } else {
                c.items.push(Item {
                    pre: Vec::new(),
                    key: key.clone(),
                    ktext: Vec::new(),
                    node: Node::new(fresh, val),
                    suf: Vec::new(),
                });
            }
            Ret::Done
        }
        Kind::Add(p) => {
            let val = put_val(p);
            let Some(c) = node.coll_mut() else { return Ret::Lost };
            c.items.push(Item {
                pre: Vec::new(),
                key: Vec::new(),
                ktext: Vec::new(),
                node: Node::new(fresh, val),
                suf: Vec::new(),
            });
            Ret::Done
        }
        Kind::RemoveKey(k) => {
            let Some(c) = node.coll_mut() else { return Ret::Lost };
            match c.items.iter().position(|i| i.key == k.as_bytes()) {
                Some(i) => {
                    c.items.remove(i);
                    Ret::Removed(true)
                }
                None => Ret::Removed(false),
            }
        }
        Kind::RemoveIdx(i) => {
            let Some(c) = node.coll_mut() else { return Ret::Lost };
            if *i < c.items.len() {
                c.items.remove(*i);
                Ret::Removed(true)
            } else {
                Ret::Removed(false)
            }
        }
        Kind::Clear => {
            let Some(c) = node.coll_mut() else { return Ret::Lost };
            c.items.clear();
            Ret::Done
        }
    }
}

/// What kinds of edits to generate.
#[derive(Clone, Copy)]
pub struct OpCfg {
    /// Only what reads back the same from storage.
    pub safe: bool,
    /// set, put, add, remove key, remove index, clear
    pub mix: [usize; 6],
    /// What most edits address.
    pub hot: Option<u16>,
    /// What most values are.
    pub fav: Option<u8>,
    /// Whether strings are made from others.
    pub echo: bool,
}

/// How many steps a run takes: now and then a great many.
pub fn steps(rng: &mut Rng, typical: usize, max: usize) -> usize {
    if rng.chance(1, 120) {
        return rng.range(max, max * 6);
    }
    rng.size(typical, max)
}

impl OpCfg {
    /// A different mix for every run.
    pub fn swarm(rng: &mut Rng, safe: bool) -> Self {
        let mut mix = [8, 8, 6, 4, 3, 1];
        for m in &mut mix {
            match rng.below(5) {
                0 => *m = 0,
                1 => *m *= 4,
                _ => {}
            }
        }
        if mix.iter().sum::<usize>() == 0 {
            mix[0] = 1;
        }
        let hot = rng.chance(1, 3).then(|| rng.below(1 << 12) as u16);
        let fav = rng.chance(1, 8).then(|| rng.below(8) as u8);
        OpCfg { safe, mix, hot, fav, echo: true }
    }
}

pub fn gen_num(rng: &mut Rng) -> Num {
    let ty = rng.below(NUM_TYPES as usize) as u8;
    let pick = |rng: &mut Rng| match rng.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << rng.below(64),
        3 => (1u64 << rng.below(64)).wrapping_sub(1),
        4 => rng.below(200) as u64,
        _ => rng.u64(),
    };
    let (hi, lo) = (pick(rng), pick(rng));
    let lo = match ty {
        0 if rng.chance(1, 2) => u64::from((*rng.pick(&[0.0f32, -0.0, 1.0, 10.42, -1.5e-9, 3.0e20, f32::MAX, f32::MIN_POSITIVE, 16777216.0])).to_bits()),
        1 if rng.chance(1, 2) => (*rng.pick(&[0.0f64, -0.0, 1.0, 10.42, -1.5e-9, 3.0e20, f64::MAX, f64::MIN_POSITIVE, 9007199254740993.0, 1e16, 1e-7])).to_bits(),
        _ => lo,
    };
    Num { ty, hi, lo }
}

pub fn gen_set(rng: &mut Rng, cfg: &OpCfg) -> SetOp {
    let kind = match cfg.fav {
        Some(kind) if rng.chance(3, 4) => kind as usize,
        _ => rng.weighted(&[2, 2, 6, 2, 3, 4, 2, 2]),
    };
    match kind {
        0 => SetOp::Null(rng.below(3) as u8),
        1 => SetOp::Bool(rng.chance(1, 2)),
        2 if cfg.echo && rng.chance(1, 6) => SetOp::Echo(rng.u64() as u16, rng.below(16) as u8),
        2 => SetOp::Str(spec::any_string(rng)),
        3 => {
            let s = spec::any_string(rng);
            let k = if cfg.safe && !spec::plain(&s, true) { 1 + rng.below(2) } else { rng.below(3) };
            SetOp::StrWith(s, k as u8)
        }
        4 => {
            let lines = if !cfg.safe && rng.chance(1, 3) {
                (0..rng.below(4)).map(|_| spec::any_string(rng)).collect()
            } else {
                spec::block_lines(rng)
            };
            let chomp = if cfg.safe { rng.below(2) } else { rng.below(3) };
            SetOp::Block(lines, rng.chance(1, 2), chomp as u8)
        }
        5 => SetOp::Num(gen_num(rng)),
        6 => SetOp::MakeMap,
        _ => SetOp::MakeSeq,
    }
}

/// The first ones can be read back.
const SEPARATORS: &[&str] = &[
    " ", "  ", "\t", "   ", "\n                                        ", "", "\n", "\n   ", " # note\n    ", "\r\n  ", " \u{e9}", "-", " ? ",
];

fn gen_put(rng: &mut Rng, cfg: &OpCfg) -> PutV {
    let s = gen_set(rng, cfg);
    if s.direct() && rng.chance(2, 3) {
        return PutV::Direct(s);
    }
    let sep = if rng.chance(1, 4) {
        let n = if cfg.safe { 5 } else { SEPARATORS.len() };
        Some(SEPARATORS[rng.below(n)].to_owned())
    } else {
        None
    };
    PutV::Via(sep, if rng.chance(1, 8) { None } else { Some(s) })
}

fn gen_key(rng: &mut Rng, cfg: &OpCfg) -> KeySel {
    if rng.chance(1, 2) {
        KeySel::Old(rng.below(64) as u16)
    } else if rng.chance(1, 4) {
        KeySel::Near(rng.below(64) as u16, rng.below(6) as u8)
    } else if let (Some(s), true) = (rng.family.clone(), rng.chance(1, 2)) {
        KeySel::New(spec::family_key(rng, &s))
    } else if cfg.safe || rng.chance(4, 5) {
        KeySel::New(if rng.chance(1, 2) {
            (*rng.pick(&["a", "b", "c", "key", "new", "x", "name"])).to_owned()
        } else {
            format!("n{}", rng.below(100))
        })
    } else {
        KeySel::New(spec::any_string(rng))
    }
}

pub fn gen_op(rng: &mut Rng, cfg: &OpCfg, clients: u8) -> Op {
    let t = match cfg.hot {
        Some(t) if rng.chance(3, 4) => t,
        _ => rng.below(1 << 12) as u16,
    };
    let e = match rng.weighted(&cfg.mix) {
        0 => Edit::Set(t, gen_set(rng, cfg)),
        1 => Edit::Put(t, gen_key(rng, cfg), gen_put(rng, cfg)),
        2 => Edit::Add(t, gen_put(rng, cfg)),
        3 => Edit::RemoveKey(
            t,
            if rng.chance(1, 8) {
                KeySel::New("missing".to_owned())
            } else if rng.chance(1, 8) {
                KeySel::Near(rng.below(64) as u16, rng.below(6) as u8)
            } else {
                KeySel::Old(rng.below(64) as u16)
            },
        ),
        4 => Edit::RemoveIdx(t, rng.below(64) as u16),
        _ => Edit::Clear(t),
    };
    Op {
        c: rng.below(clients as usize) as u8,
        route: rng.below(12) as u8,
        e,
    }
}
