//! The reference model of a document: a plain tree with its literal text.

use nondestructive::yaml::{Any, Document, Id, Value};

/// A typed number, as passed to one of the `set_*`, `insert_*` and `push_*`
/// methods.
#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Num {
    /// f32 f64 u8 i8 u16 i16 u32 i32 u64 i64 u128 i128
    pub ty: u8,
    pub hi: u64,
    pub lo: u64,
}

pub const NUM_TYPES: u8 = 12;

impl Num {
    pub fn bits(self) -> u128 {
        (u128::from(self.hi) << 64) | u128::from(self.lo)
    }

    pub fn float(self) -> bool {
        self.ty % NUM_TYPES < 2
    }

    /// The value of an integer: sign and magnitude.
    pub fn int(self) -> (bool, u128) {
        let b = self.bits();
        fn s(v: i128) -> (bool, u128) {
            (v < 0, v.unsigned_abs())
        }
        match self.ty % NUM_TYPES {
            2 => (false, u128::from(b as u8)),
            3 => s(i128::from(b as i8)),
            4 => (false, u128::from(b as u16)),
            5 => s(i128::from(b as i16)),
            6 => (false, u128::from(b as u32)),
            7 => s(i128::from(b as i32)),
            8 => (false, u128::from(b as u64)),
            9 => s(i128::from(b as i64)),
            10 => (false, b),
            11 => s(b as i128),
            _ => (false, 0),
        }
    }

    pub fn f32(self) -> f32 {
        let v = f32::from_bits(self.lo as u32);
        if v.is_finite() {
            v
        } else {
            1.5
        }
    }

    pub fn f64(self) -> f64 {
        let v = f64::from_bits(self.lo);
        if v.is_finite() {
            v
        } else {
            2.5
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum NumV {
    /// As found in a loaded document.
    Text(Vec<u8>),
    /// As set.
    Typed(Num),
}

#[derive(Clone, Debug)]
pub enum Val {
    Null(Vec<u8>),
    Bool(bool, Vec<u8>),
    Num(NumV, Vec<u8>),
    Str(Vec<u8>, Vec<u8>),
    Coll(Coll),
}

#[derive(Clone, Debug)]
pub struct Coll {
    pub map: bool,
    pub flow: bool,
    pub trailing: bool,
    /// Whitespace before the closing bracket.
    pub tail: Vec<u8>,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub pre: Vec<u8>,
    pub key: Vec<u8>,
    pub ktext: Vec<u8>,
    pub node: Node,
    pub suf: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Node {
    /// Stable name of the value in the model.
    pub uid: u32,
    /// Identifier in the document.
    pub id: Option<Id>,
    pub pre: Vec<u8>,
    pub val: Val,
    /// The value of the string is to be learned when the document is loaded.
    pub learn: bool,
}

#[derive(Clone, Debug)]
pub struct Tree {
    pub header: Vec<u8>,
    pub root: Node,
    pub suffix: Vec<u8>,
    pub next: u32,
}

impl Val {
    pub fn null() -> Self {
        Val::Null(Vec::new())
    }

    pub fn coll(map: bool, flow: bool) -> Self {
        Val::Coll(Coll {
            map,
            flow,
            trailing: false,
            tail: Vec::new(),
            items: Vec::new(),
        })
    }

    /// Has no text of its own, and then neither has the whitespace before it.
    pub fn blank(&self) -> bool {
        match self {
            Val::Null(text) => text.is_empty(),
            Val::Coll(c) => !c.flow && c.items.is_empty(),
            _ => false,
        }
    }
}

impl Node {
    pub fn new(uid: u32, val: Val) -> Self {
        Node {
            uid,
            id: None,
            pre: Vec::new(),
            val,
            learn: false,
        }
    }

    pub fn coll(&self) -> Option<&Coll> {
        match &self.val {
            Val::Coll(c) => Some(c),
            _ => None,
        }
    }

    pub fn coll_mut(&mut self) -> Option<&mut Coll> {
        match &mut self.val {
            Val::Coll(c) => Some(c),
            _ => None,
        }
    }

    fn render(&self, out: &mut Vec<u8>, root: bool) {
        if root || !self.val.blank() {
            out.extend(&self.pre);
        }
        self.render_val(out);
    }

    pub fn render_val(&self, out: &mut Vec<u8>) {
        match &self.val {
            Val::Null(t) | Val::Bool(_, t) | Val::Num(_, t) | Val::Str(_, t) => out.extend(t),
            Val::Coll(c) => {
                if c.flow {
                    out.push(if c.map { b'{' } else { b'[' });
                }
                for (i, item) in c.items.iter().enumerate() {
                    if c.flow && i > 0 {
                        out.push(b',');
                    }
                    out.extend(&item.pre);
                    if c.map {
                        out.extend(&item.ktext);
                        out.push(b':');
                    } else if !c.flow {
                        out.push(b'-');
                    }
                    item.node.render(out, false);
                    out.extend(&item.suf);
                }
                if c.flow {
                    if c.trailing && !c.items.is_empty() {
                        out.push(b',');
                    }
                    out.extend(&c.tail);
                    out.push(if c.map { b'}' } else { b']' });
                }
            }
        }
    }

    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        if let Val::Coll(c) = &self.val {
            for item in &c.items {
                item.node.visit(f);
            }
        }
    }

    pub fn visit_mut(&mut self, f: &mut dyn FnMut(&mut Node)) {
        f(self);
        if let Val::Coll(c) = &mut self.val {
            for item in &mut c.items {
                item.node.visit_mut(f);
            }
        }
    }

    pub fn find(&self, uid: u32) -> Option<&Node> {
        if self.uid == uid {
            return Some(self);
        }
        match &self.val {
            Val::Coll(c) => c.items.iter().find_map(|i| i.node.find(uid)),
            _ => None,
        }
    }

    pub fn find_mut(&mut self, uid: u32) -> Option<&mut Node> {
        if self.uid == uid {
            return Some(self);
        }
        match &mut self.val {
            Val::Coll(c) => c.items.iter_mut().find_map(|i| i.node.find_mut(uid)),
            _ => None,
        }
    }

    pub fn size(&self) -> usize {
        let mut n = 0;
        self.visit(&mut |_| n += 1);
        n
    }
}

/// Where the parts of a value are in the text.
#[derive(Clone, Copy, Debug)]
pub struct Mark {
    /// Whitespace before the value.
    pub pre: usize,
    /// Its own text.
    pub val: usize,
    pub end: usize,
    /// End of the last item, or where the first would be.
    pub items: usize,
}

pub type Marks = std::collections::HashMap<u32, Mark>;

impl Tree {
    pub fn marks(&self) -> (Vec<u8>, Marks) {
        fn go(n: &Node, root: bool, out: &mut Vec<u8>, marks: &mut Marks) {
            let pre = out.len();
            if root || !n.val.blank() {
                out.extend(&n.pre);
            }
            let val = out.len();
            let mut items = val;
            if let Val::Coll(c) = &n.val {
                if c.flow {
                    out.push(if c.map { b'{' } else { b'[' });
                }
                items = out.len();
                for (i, item) in c.items.iter().enumerate() {
                    if c.flow && i > 0 {
                        out.push(b',');
                    }
                    out.extend(&item.pre);
                    if c.map {
                        out.extend(&item.ktext);
                        out.push(b':');
                    } else if !c.flow {
                        out.push(b'-');
                    }
                    go(&item.node, false, out, marks);
                    out.extend(&item.suf);
                    items = out.len();
                }
                if c.flow {
                    if c.trailing && !c.items.is_empty() {
                        out.push(b',');
                    }
                    out.extend(&c.tail);
                    out.push(if c.map { b'}' } else { b']' });
                }
            } else {
                n.render_val(out);
            }
            marks.insert(
                n.uid,
                Mark {
                    pre,
                    val,
                    end: out.len(),
                    items,
                },
            );
        }
        let mut out = self.header.clone();
        let mut marks = Marks::new();
        go(&self.root, true, &mut out, &mut marks);
        out.extend(&self.suffix);
        (out, marks)
    }
}

/// How to get to a value from the root.
#[derive(Clone, Debug)]
pub enum Seg {
    Key(std::string::String),
    Index(usize),
}

impl Tree {
    pub fn render(&self) -> Vec<u8> {
        let mut out = self.header.clone();
        self.root.render(&mut out, true);
        out.extend(&self.suffix);
        out
    }

    pub fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }

    /// The nodes in document order which satisfy `f`.
    pub fn nodes(&self, f: impl Fn(&Node) -> bool) -> Vec<u32> {
        let mut out = Vec::new();
        self.root.visit(&mut |n| {
            if f(n) {
                out.push(n.uid);
            }
        });
        out
    }

    /// Path to a node, and the path of containing nodes. There is none by
    /// lookup if a key on the way is not unique or not UTF-8.
    pub fn path(&self, uid: u32) -> Option<Vec<Seg>> {
        fn go(n: &Node, uid: u32, path: &mut Vec<Seg>) -> Option<bool> {
            if n.uid == uid {
                return Some(true);
            }
            let Val::Coll(c) = &n.val else { return None };
            for (i, item) in c.items.iter().enumerate() {
                let at = path.len();
                let mut ok = true;
                if c.map {
                    let first = c.items.iter().position(|o| o.key == item.key) == Some(i);
                    match std::str::from_utf8(&item.key) {
                        Ok(key) if first => path.push(Seg::Key(key.to_owned())),
                        _ => {
                            ok = false;
                            path.push(Seg::Index(i));
                        }
                    }
                } else {
                    path.push(Seg::Index(i));
                }
                if let Some(r) = go(&item.node, uid, path) {
                    return Some(r && ok);
                }
                path.truncate(at);
            }
            None
        }
        let mut path = Vec::new();
        match go(&self.root, uid, &mut path) {
            Some(true) => Some(path),
            _ => None,
        }
    }

    /// The collection a node is an item of.
    pub fn parent(&self, uid: u32) -> Option<&Node> {
        let mut out = None;
        self.root.visit(&mut |n| {
            if let Val::Coll(c) = &n.val {
                if c.items.iter().any(|i| i.node.uid == uid) {
                    out = Some(n);
                }
            }
        });
        out
    }

    pub fn in_flow(&self, uid: u32) -> bool {
        self.parent(uid)
            .and_then(Node::coll)
            .is_some_and(|c| c.flow)
    }

    /// Build a model from what can be read from a document. The text is only
    /// that of scalars.
    pub fn learn(doc: &Document) -> Tree {
        fn node(v: Value<'_>, next: &mut u32) -> Node {
            *next += 1;
            let mut n = Node::new(*next, Val::null());
            n.id = Some(v.id());
            n.val = match v.as_any() {
                Any::Null => Val::Null(v.to_string().into_bytes()),
                Any::Bool(b) => Val::Bool(b, v.to_string().into_bytes()),
                Any::Number(num) => Val::Num(NumV::Text(num.as_raw().to_vec()), Vec::new()),
                Any::String(s) => Val::Str(s.to_vec(), Vec::new()),
                Any::Mapping(m) => {
                    let items = m
                        .iter()
                        .map(|(k, v)| Item {
                            pre: Vec::new(),
                            key: k.to_vec(),
                            ktext: Vec::new(),
                            node: node(v, next),
                            suf: Vec::new(),
                        })
                        .collect();
                    Val::Coll(Coll {
                        map: true,
                        flow: m.to_string().starts_with('{'),
                        trailing: false,
                        tail: Vec::new(),
                        items,
                    })
                }
                Any::Sequence(s) => {
                    let items = s
                        .iter()
                        .map(|v| Item {
                            pre: Vec::new(),
                            key: Vec::new(),
                            ktext: Vec::new(),
                            node: node(v, next),
                            suf: Vec::new(),
                        })
                        .collect();
                    Val::Coll(Coll {
                        map: false,
                        flow: s.to_string().starts_with('['),
                        trailing: false,
                        tail: Vec::new(),
                        items,
                    })
                }
                _ => Val::Str(b"?raw".to_vec(), Vec::new()),
            };
            n
        }
        let mut next = 0;
        let root = node(doc.as_ref(), &mut next);
        Tree {
            header: Vec::new(),
            root,
            suffix: Vec::new(),
            next,
        }
    }

    /// Take identifiers (and values to be learned) from the document. False if
    /// the document does not have the shape of the model.
    pub fn adopt(&mut self, doc: &Document) -> bool {
        fn go(n: &mut Node, v: Value<'_>) -> bool {
            n.id = Some(v.id());
            if n.learn {
                n.learn = false;
                if let (Val::Str(s, _), Some(t)) = (&mut n.val, v.as_bstr()) {
                    *s = t.to_vec();
                }
            }
            match &mut n.val {
                Val::Coll(c) if c.map => {
                    let Some(m) = v.as_mapping() else { return false };
                    m.len() == c.items.len()
                        && c.items
                            .iter_mut()
                            .zip(m.iter())
                            .all(|(i, (_, v))| go(&mut i.node, v))
                }
                Val::Coll(c) => {
                    let Some(m) = v.as_sequence() else { return false };
                    m.len() == c.items.len()
                        && c.items.iter_mut().zip(m.iter()).all(|(i, v)| go(&mut i.node, v))
                }
                _ => v.as_mapping().is_none() && v.as_sequence().is_none(),
            }
        }
        go(&mut self.root, doc.as_ref())
    }
}
