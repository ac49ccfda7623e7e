//! Documents as written by others: a structured description, generated and
//! shrunk, and rendered into text along with the model of what it says.

use serde::{Deserialize, Serialize};

use crate::model::{Coll, Item, Node, NumV, Tree, Val};
use crate::rng::Rng;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum N {
    Null(u8),
    Bool(bool, u8),
    Num(u8),
    Str(String, u8),
    Block {
        lines: Vec<String>,
        folded: bool,
        chomp: u8,
        extra: u8,
    },
    Coll {
        map: bool,
        flow: bool,
        /// Placement: 0 next line, 1 same line (items), 2 same indent (sequences).
        place: u8,
        indent: u8,
        items: Vec<I>,
        trailing: bool,
        ws: u8,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct I {
    pub k: String,
    pub kq: u8,
    /// Lines before the item.
    pub gap: Vec<Gap>,
    /// Separator style.
    pub sep: u8,
    /// Trailing style.
    pub trail: u8,
    pub v: N,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Gap {
    Blank(u8),
    Comment(u8, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DocSpec {
    pub header: u8,
    pub lead: Vec<Gap>,
    pub base: u8,
    pub crlf: bool,
    pub root: N,
    pub rtrail: u8,
    pub eof_nl: bool,
    pub tail: Vec<Gap>,
    /// Anything goes: no promise about what the text says.
    pub wild: bool,
}

pub const NUMBERS: &[&str] = &[
    "0", "7", "42", "-1", "10.5", "-0.25", "1e3", "1.5e-7", "1.5E+3", "18446744073709551615",
    "99999999999999999999", "-9223372036854775808", "007", "0.1", "255", "-128", "65536", "1.0",
    ".5", "5.", "-0.0", "1E5", "-.5", "-1e-3", "00", "-7", "256", "32767", "-32769", "4294967296",
    "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
    "-170141183460469231731687303715884105728",
];

const BOOLS: [[&str; 3]; 2] = [["false", "False", "FALSE"], ["true", "True", "TRUE"]];

/// Characters U+F780 to U+F7FF stand for the bytes 0x80 to 0xff.
pub fn raw(s: &str) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len());
    for c in s.chars() {
        match c as u32 {
            n @ 0xF780..=0xF7FF => out.push((n - 0xF700) as u8),
            _ => out.extend(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    out
}

fn keyword(s: &str) -> bool {
    s == "~" || ["true", "false", "null"].iter().any(|k| s.eq_ignore_ascii_case(k))
}

/// May be a number to one reader or another.
fn numeric(s: &str) -> bool {
    let t = s.strip_prefix(['-', '+']).unwrap_or(s);
    let digits = |s: &str| s.chars().all(|c| c.is_ascii_digit() || c == '_');
    let (mantissa, exp) = t.split_once(['e', 'E']).unwrap_or((t, ""));
    let (int, frac) = mantissa.split_once('.').unwrap_or((mantissa, ""));
    digits(int) && digits(frac) && digits(exp.strip_prefix(['-', '+']).unwrap_or(exp))
        || t.to_ascii_lowercase().starts_with(".inf")
        || t.to_ascii_lowercase().starts_with(".nan")
        || (t.starts_with('0') && t[1..].starts_with(['x', 'o', 'b']))
        || s.starts_with("---")
        || s.starts_with("...")
}

/// Can be written without quotes anywhere and reads as the same string.
pub fn plain(s: &str, flow: bool) -> bool {
    let mut prev = ' ';
    for (i, c) in s.chars().enumerate() {
        let ok = match c {
            'a'..='z' | 'A'..='Z' | '_' | '/' | '\u{a1}'..='\u{1ffff}' => !c.is_whitespace() && !c.is_control(),
            '0'..='9' | '.' | '$' | '=' => true,
            '-' => i > 0 || s[1..].starts_with(|c: char| c.is_ascii_alphanumeric()),
            '+' | '@' | '!' | '*' | '&' | '%' | '~' | '\\' => i > 0,
            ' ' => i > 0 && i + 1 < s.chars().count(),
            '#' => i > 0 && prev != ' ',
            ':' => i > 0 && !flow && prev != ' ' && i + 1 < s.chars().count(),
            '(' | ')' | ';' | '<' | '^' => true,
            '?' | '|' | '"' | '\'' | '>' | '`' => i > 0,
            ',' | '[' | ']' | '{' | '}' => i > 0 && !flow,
            _ => false,
        };
        if !ok || (prev == ':' && c == ' ') {
            return false;
        }
        prev = c;
    }
    !s.is_empty() && !keyword(s) && !numeric(s)
}

/// Can be a key without quotes.
pub fn plain_key(s: &str) -> bool {
    !s.is_empty()
        && s.chars().enumerate().all(|(i, c)| match c {
            'a'..='z' | 'A'..='Z' | '_' | '0'..='9' | '/' | '$' => true,
            '\u{a1}'..='\u{1ffff}' => !c.is_whitespace() && !c.is_control(),
            '-' | '.' | '+' | '@' | '=' => i > 0,
            _ => false,
        })
}

pub fn quote_single(s: &str) -> Vec<u8> {
    let mut out = vec![b'\''];
    for b in raw(s) {
        out.push(b);
        if b == b'\'' {
            out.push(b);
        }
    }
    out.push(b'\'');
    out
}

pub fn quote_double(s: &str, style: u8) -> Vec<u8> {
    let mut out = vec![b'"'];
    for (i, b) in raw(s).into_iter().enumerate() {
        let alt = (style as usize + i) % 2 == 1;
        match b {
            b'"' => out.extend(if alt { &b"\\\""[..] } else { b"\\x22" }),
            b'\\' => out.extend(if alt { &b"\\x5c"[..] } else { b"\\u005c" }),
            b'\n' => out.extend(b"\\n"),
            0 => out.extend(if alt { &b"\\0"[..] } else { b"\\x00" }),
            b'\t' if alt => out.extend(b"\\t"),
            b'\r' => out.extend(b"\\r"),
            7 => out.extend(b"\\a"),
            8 => out.extend(b"\\b"),
            0x0b => out.extend(b"\\v"),
            0x0c => out.extend(b"\\f"),
            0x1b => out.extend(b"\\e"),
            b if b < 0x20 || b == 0x7f => out.extend(format!("\\x{b:02X}").as_bytes()),
            b => out.push(b),
        }
    }
    out.push(b'"');
    out
}

/// A line of a block scalar which reads as it is written.
pub fn block_line(s: &str) -> bool {
    !s.is_empty() && s.trim() == s && !s.starts_with('#') && !s.chars().any(|c| c == '\n' || c == '\r')
}

struct R<'a> {
    nl: &'a [u8],
    wild: bool,
    next: u32,
    /// Ends in something which has to be followed by a newline.
    need_nl: bool,
    /// Nothing but whitespace may follow on the same line.
    no_comment: bool,
    /// The carriage return of the next line ending is part of a block.
    cr: bool,
}

impl R<'_> {
    fn gap(&self, gap: &[Gap], out: &mut Vec<u8>) {
        for g in gap {
            match g {
                Gap::Blank(n) => {
                    out.extend(std::iter::repeat(b' ').take(*n as usize % 8));
                    if n / 8 % 2 == 1 {
                        out.extend(b"\t ");
                    }
                }
                Gap::Comment(n, text) => {
                    out.extend(std::iter::repeat(b' ').take(*n as usize % 8));
                    out.push(b'#');
                    out.extend(raw(text).into_iter().filter(|b| !matches!(b, b'\n' | b'\r' | 0)));
                }
            }
            out.extend(self.nl);
        }
    }

    fn newline(&mut self) -> &'static [u8] {
        if std::mem::take(&mut self.cr) || self.nl.len() == 1 {
            b"\n"
        } else {
            b"\r\n"
        }
    }

    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }

    fn indent(n: usize, out: &mut Vec<u8>) {
        out.extend(std::iter::repeat(b' ').take(n));
    }

    /// Whitespace in inline collections.
    fn flow_ws(&self, style: u8, comment: bool) -> Vec<u8> {
        let nl = self.nl;
        let more = self.next as usize + style as usize / 8;
        match style % 8 {
            0..=2 => vec![],
            3 | 4 => b" ".to_vec(),
            5 => b"  ".to_vec(),
            6 => match more % 7 {
                0 => [nl, b" \t "].concat(),
                1 => [nl, nl, b"  "].concat(),
                2 => [b"\t", nl, b"\t"].concat(),
                3 => nl.to_vec(),
                _ => [nl, b"    "].concat(),
            },
            _ if comment => match more % 9 {
                0 => [b"\t#", nl, b"\t"].concat(),
                1 => [b" # a".as_slice(), nl, b" #b", nl, b"   "].concat(),
                2 => [nl, b"#{ '", nl, nl, b" "].concat(),
                3 => [b" # ,\t".as_slice(), nl].concat(),
                4 => [b" #\"".as_slice(), nl, b" \t \t"].concat(),
                _ => [b" # c, ]}:".as_slice(), nl, b"  "].concat(),
            },
            _ => b"\t".to_vec(),
        }
    }

    fn trail(&self, style: u8) -> Vec<u8> {
        match style % 8 {
            0..=3 => vec![],
            4 => b" ".to_vec(),
            5 if self.next % 3 == 0 => b"\t  \t".to_vec(),
            5 => b" \t".to_vec(),
            6 if !self.no_comment => b" # trailing: [x".to_vec(),
            7 if !self.no_comment => b"  #".to_vec(),
            _ => b"  ".to_vec(),
        }
    }

    fn scalar(&mut self, n: &N, flow: bool) -> (Val, bool) {
        self.no_comment = false;
        match n {
            N::Null(style) => {
                let text: &[u8] = match style % 5 {
                    0 => b"null",
                    1 => b"~",
                    2 => b"Null",
                    3 => b"NULL",
                    _ => b"",
                };
                self.no_comment = !text.is_empty();
                (Val::Null(text.to_vec()), false)
            }
            N::Bool(b, style) => {
                self.no_comment = true;
                let text = BOOLS[usize::from(*b)][*style as usize % 3];
                (Val::Bool(*b, text.as_bytes().to_vec()), false)
            }
            N::Num(n) => {
                self.no_comment = true;
                let text = NUMBERS[*n as usize % NUMBERS.len()].as_bytes().to_vec();
                (Val::Num(NumV::Text(text.clone()), text), false)
            }
            N::Str(s, style) => {
                let v = raw(s);
                if style % 4 == 0 && plain(s, flow) {
                    self.no_comment = true;
                    return (Val::Str(v.clone(), v), false);
                }
                if style % 4 == 1 && !v.contains(&0) {
                    return (Val::Str(v, quote_single(s)), false);
                }
                (Val::Str(v, quote_double(s, *style)), false)
            }
            N::Block { lines, .. } => {
                let s = lines.join("\n");
                (Val::Str(raw(&s), quote_double(&s, 0)), false)
            }
            N::Coll { .. } => unreachable!("not a scalar"),
        }
    }

    fn key(&self, i: &I, flow: bool) -> (Vec<u8>, Vec<u8>) {
        let v = raw(&i.k);
        let text = match i.kq % 4 {
            0 | 3 if plain_key(&i.k) => v.clone(),
            1 if !v.contains(&0) && !v.contains(&b'\n') => quote_single(&i.k),
            _ => quote_double(&i.k, i.kq),
        };
        let _ = flow;
        (v, text)
    }

    fn flow(&mut self, n: &N) -> Node {
        let N::Coll {
            map,
            items,
            trailing,
            ws,
            ..
        } = n
        else {
            let uid = self.fresh();
            let (val, learn) = self.scalar(n, true);
            let mut node = Node::new(uid, val);
            node.learn = learn;
            return node;
        };
        let uid = self.fresh();
        let mut out: Vec<Item> = Vec::new();
        let mut trailing = *trailing && !items.is_empty();
        for (i, item) in items.iter().enumerate() {
            let last = i + 1 == items.len();
            let (key, ktext) = if *map {
                self.key(item, true)
            } else {
                Default::default()
            };
            let mut pre = self.flow_ws(item.gap.len() as u8 + item.sep / 8, true);
            let mut node = self.flow(&item.v);
            let mut suf = Vec::new();
            if *map {
                let mut vpre = self.flow_ws(item.sep.max(3), true);
                if !self.wild && vpre.is_empty() {
                    vpre = b" ".to_vec();
                }
                node.pre = vpre;
            }
            if node.val.blank() {
                node.pre = Vec::new();
                self.no_comment = false;
                if !*map && last {
                    trailing = true;
                }
                if !*map {
                    // Whitespace in front of a blank item precedes the item.
                    suf = Vec::new();
                } else {
                    suf = self.flow_ws(item.sep, true);
                }
            } else if self.no_comment {
                suf.extend(self.flow_ws(item.trail, false));
            } else {
                suf.extend(self.flow_ws(item.trail, true));
            }
            if pre.is_empty() && i > 0 && !self.wild {
                pre = b" ".to_vec();
            }
            out.push(Item {
                pre,
                key,
                ktext,
                node,
                suf,
            });
        }
        let mut tail = self.flow_ws(*ws, true);
        if let Some(last) = out.last_mut() {
            if !trailing {
                // Whitespace after the last item precedes the bracket.
                let comment_ok = !self.no_comment;
                tail = self.flow_ws(*ws, comment_ok);
                last.suf = Vec::new();
            }
        }
        self.no_comment = false;
        let mut node = Node::new(uid, Val::null());
        node.val = Val::Coll(Coll {
            map: *map,
            flow: true,
            trailing,
            tail,
            items: out,
        });
        node
    }

    /// Render a value in block context. `pend` holds whitespace which precedes
    /// whatever comes next.
    fn block(
        &mut self,
        n: &N,
        sep: u8,
        trail: u8,
        gap: &[Gap],
        parent: Option<(usize, bool)>,
        pend: &mut Vec<u8>,
    ) -> Node {
        let indent = parent.map_or(0, |p| p.0);
        match n {
            N::Coll {
                map,
                flow: false,
                place,
                indent: extra,
                items,
                ..
            } if !items.is_empty() => {
                let uid = self.fresh();
                let mut node = Node::new(uid, Val::null());
                let extra = match extra {
                    0..=5 => 1 + *extra as usize,
                    _ => FAR[*extra as usize % FAR.len()],
                };
                let own;
                match parent {
                    None => own = None,
                    Some((_, false)) if *map || place % 3 != 2 => {
                        own = Some(indent + extra);
                    }
                    Some((_, false)) => own = Some(indent),
                    Some((_, true)) if place % 3 == 1 => {
                        node.pre = vec![b' '; extra];
                        own = Some(indent + 1 + extra);
                    }
                    Some((_, true)) => own = Some(indent + extra),
                }
                let own = match own {
                    None => indent,
                    Some(own) => {
                        if node.pre.is_empty() {
                            self.no_comment = false;
                            node.pre = self.trail(trail);
                            node.pre.extend(self.nl);
                            let mut g = Vec::new();
                            self.gap(gap, &mut g);
                            node.pre.extend(g);
                            Self::indent(own, &mut node.pre);
                        }
                        own
                    }
                };
                self.items(&mut node, *map, items, own, pend);
                node
            }
            N::Block {
                lines,
                folded,
                chomp,
                extra,
            } => {
                let wild = self.wild;
                let lines: Vec<&String> = lines
                    .iter()
                    .filter(|l| block_line(l) || (wild && l.is_empty()))
                    .collect();
                let lines: Vec<&String> = {
                    let start = lines.iter().position(|l| !l.is_empty()).unwrap_or(lines.len());
                    lines[start..].to_vec()
                };
                if lines.is_empty() || lines.last().is_some_and(|l| l.is_empty()) {
                    return self.block(&N::Str("block".into(), 0), sep, trail, gap, parent, pend);
                }
                let uid = self.fresh();
                let mut node = Node::new(uid, Val::null());
                let inner = match parent {
                    None => 1 + *extra as usize % 5,
                    Some((i, _)) => i + 1 + *extra as usize % 5,
                };
                if parent.is_some() {
                    node.pre = b" ".to_vec();
                }
                let mut text = vec![if *folded { b'>' } else { b'|' }];
                match chomp % 3 {
                    0 => text.push(b'-'),
                    1 => {}
                    _ => text.push(b'+'),
                }
                let mut value = String::new();
                for (i, l) in lines.iter().enumerate() {
                    text.extend(self.nl);
                    if !l.is_empty() {
                        Self::indent(inner, &mut text);
                        text.extend(raw(l));
                    } else {
                        node.learn = true;
                    }
                    if i > 0 {
                        value.push(if *folded { ' ' } else { '\n' });
                    }
                    value.push_str(l);
                }
                match chomp % 3 {
                    0 => {}
                    1 => {
                        value.push('\n');
                        self.need_nl = true;
                    }
                    _ => node.learn = true,
                }
                if self.nl.len() > 1 {
                    text.push(b'\r');
                    self.cr = true;
                    self.need_nl = true;
                }
                node.val = Val::Str(raw(&value), text);
                *pend = Vec::new();
                self.no_comment = true;
                node
            }
            _ => {
                let flow = matches!(n, N::Coll { .. });
                let mut node = if flow {
                    self.flow(n)
                } else {
                    let uid = self.fresh();
                    let (val, learn) = self.scalar(n, false);
                    let mut node = Node::new(uid, val);
                    node.learn = learn;
                    node
                };
                self.need_nl = false;
                let mut blank = false;
                if parent.is_some() {
                    if node.val.blank() {
                        blank = true;
                        self.need_nl = true;
                    } else {
                        let save = self.no_comment;
                        match sep % 8 {
                            0..=4 => node.pre = b" ".to_vec(),
                            5 => node.pre = b"  ".to_vec(),
                            6 => node.pre = b"\t".to_vec(),
                            _ => {
                                self.no_comment = false;
                                node.pre = self.trail(trail);
                                node.pre.extend(self.nl);
                                let mut g = Vec::new();
                                self.gap(gap, &mut g);
                                node.pre.extend(g);
                                Self::indent(indent + 2, &mut node.pre);
                            }
                        }
                        self.no_comment = save;
                    }
                }
                if blank {
                    self.no_comment = false;
                }
                *pend = self.trail(trail);
                node
            }
        }
    }

    fn items(&mut self, node: &mut Node, map: bool, items: &[I], own: usize, pend: &mut Vec<u8>) {
        let mut out = Vec::new();
        for (i, item) in items.iter().enumerate() {
            let mut pre = Vec::new();
            if i > 0 {
                pre.append(pend);
                pre.extend(self.newline());
                self.gap(&item.gap, &mut pre);
                Self::indent(own, &mut pre);
            }
            let (key, ktext) = if map {
                self.key(item, false)
            } else {
                Default::default()
            };
            self.need_nl = false;
            let gap: &[Gap] = if i == 0 { &item.gap } else { &[] };
            let value = self.block(&item.v, item.sep, item.trail, gap, Some((own, !map)), pend);
            out.push(Item {
                pre,
                key,
                ktext,
                node: value,
                suf: Vec::new(),
            });
        }
        node.val = Val::Coll(Coll {
            map,
            flow: false,
            trailing: false,
            tail: Vec::new(),
            items: out,
        });
    }
}

impl DocSpec {
    /// The text and what it says.
    pub fn build(&self) -> Tree {
        let nl: &[u8] = if self.crlf { b"\r\n" } else { b"\n" };
        let mut r = R {
            nl,
            wild: self.wild,
            next: 0,
            need_nl: false,
            no_comment: false,
            cr: false,
        };
        let mut header = Vec::new();
        let mut lead = Vec::new();
        match self.header % 8 {
            0..=4 => {}
            5 => header.extend(b"---"),
            6 => header.extend([b"%YAML 1.2", nl, b"---"].concat()),
            _ => header.extend([b"# first", nl, b"%YAML 1.2", nl, b"%TAG ! x", nl, b" # :", nl, b"---"].concat()),
        }
        if !header.is_empty() {
            lead.extend(nl);
        }
        r.gap(&self.lead, &mut lead);
        let block = matches!(&self.root, N::Coll { flow: false, items, .. } if !items.is_empty());
        let base = if block || self.wild { self.base as usize % 6 } else { 0 };
        R::indent(base, &mut lead);
        let mut pend = Vec::new();
        let mut root = r.block(
            &self.root,
            0,
            self.rtrail,
            &[],
            None,
            &mut pend,
        );
        if let (true, N::Coll { map, items, .. }) = (block, &self.root) {
            r.next = 0;
            let uid = r.fresh();
            root = Node::new(uid, Val::null());
            pend.clear();
            r.cr = false;
            r.items(&mut root, *map, items, base, &mut pend);
        }
        root.pre = lead;
        if root.val.blank() {
            // Everything which follows is part of what precedes it.
            root.pre.append(&mut pend);
            r.need_nl = false;
        }
        let mut suffix = pend;
        let learn = !self.eof_nl && !r.need_nl;
        if self.eof_nl || r.need_nl || !self.tail.is_empty() {
            suffix.extend(r.newline());
            r.gap(&self.tail, &mut suffix);
        }
        let _ = learn;
        if root.val.blank() {
            root.pre.append(&mut suffix);
        }
        let next = r.next;
        Tree {
            header,
            root,
            suffix,
            next,
        }
    }
}

/// What to generate.
#[derive(Clone, Copy)]
pub struct GenCfg {
    pub wild: bool,
    pub size: usize,
    pub depth: usize,
    /// No empty values in inline sequences, keys are unique.
    pub safe: bool,
}

/// How far to the right a collection might be.
const FAR: &[usize] = &[7, 8, 15, 16, 30, 31, 33, 63, 64, 65, 127, 128, 254, 255, 257];

const KEYS: &[&str] = &[
    "a", "b", "c", "d", "key", "name", "x", "y", "other", "list", "map", "_id", "a-b", "a.b", "k1", "k2", "k3", "1", "2024", "$ref", "x/y",
    "1.5", "true",
];

const ODD_KEYS: &[&str] = &["", "a b", "a: b", "\"", "'", "é", "- x", "1", "true", "#", "{", "a,b", "日本", "\\"];

pub const WORDS: &[&str] = &[
    "foo", "bar", "hello world", "x", "a-b", "v1.2", "path/to/file", "é", "日本語", "a#b", "some longer text here", "y",
    "on", "x=1", "1.2.3", "2024-01-01", "5 apples", "1a", "-x", "(a)", "$x", "127.0.0.1", "1e", "a\\b", "3 - 4", ".x", "v-1.0-rc+5",
];

/// Pieces which need care wherever they end up.
pub const ODD: &[&str] = &[
    "", " ", "  x", "x  ", "true", "null", "~", "Null", "TRUE", "1", "-1", "1.5", ".5", "1e3", "0x10", "-", "- a", "a: b",
    "a:", ":", "#", "a # b", "#x", "'", "''", "it's", "\"", "\"quoted\"", "\\", "a\\b", "\n", "a\nb", "a\n", "\na", "\t",
    "\r", "\r\n", "\0", "\u{7}", "\u{1b}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "[", "]", "{", "}", ",",
    "[a, b]", "{a: b}", "a, b", "a]", "a}", "|", ">", "|-", "&a", "*a", "!t", "%", "@", "`", "?", "? a", "---", "...",
    "-x", "a,b", "\u{1F600}", "x: |", "a :b", "e", "+1", "1a", "=", "<<", "!!str x", "'a", "a'", "\"a", "a\"", "\u{200b}x",
    "\u{3000}", "x\u{c}", "\u{c}", "\u{b}", "x\t", "\tx", "1 ", " 1", "a:\tb", "a:\nb", "-\t", "?x", "~x", "nul", "0", "00",
    "-.", ".", "..", "1.2.3", "1-2", "2024-01-01", "12:30", "e5", "-e", "\\n", "\\\"", "\\\\", "x\\", "!!str x", "!t a", "&a b", "*a b", "!<x:y> z", "!!map", "<<: *a", "? x", "? - a", "%x y", "@x", "- - a",
];

/// What plans are drawn from. The strings of some are hard to tell apart.
pub fn planner(seed: u64) -> Rng {
    let mut rng = Rng::new(seed);
    if rng.chance(1, 60) {
        let n = match rng.below(3) {
            0 => rng.range(3, 40),
            1 => (1 << rng.range(3, 13)) + rng.below(5) - 2,
            _ => rng.range(17, 300),
        };
        let unit = *rng.pick(&["abcdefghijklmnopqrstuvwxyz", "a", "0123456789", "ab", "x-y", "日本"]);
        rng.family = Some(unit.chars().cycle().take(n).collect::<String>().into());
    }
    rng
}

/// Another one of the family.
fn variation(rng: &mut Rng, s: &str) -> String {
    let mut s: Vec<char> = s.chars().collect();
    let at = match rng.below(4) {
        0 => 0,
        1 => s.len() - 1,
        _ => rng.below(s.len()),
    };
    match rng.below(8) {
        0 => {}
        1 => s.truncate(at + 1),
        2 => s.push(*rng.pick(&['a', '0', 'é'])),
        3 => {
            let to = rng.below(s.len());
            s.swap(at, to);
        }
        4 => s[at] = s[at].to_ascii_uppercase(),
        _ => s[at] = *rng.pick(&['q', 'r', '7', 'a', '日']),
    }
    s.into_iter().collect()
}

/// One which can be a key as it is.
pub fn family_key(rng: &mut Rng, s: &str) -> String {
    let s = variation(rng, s);
    if plain_key(&s) {
        s
    } else {
        "k".to_owned()
    }
}

pub fn any_string(rng: &mut Rng) -> String {
    if let Some(s) = rng.family.clone() {
        if rng.chance(3, 4) {
            return variation(rng, &s);
        }
    }
    match rng.weighted(&[6, 6, 3, 2, 1]) {
        0 => (*rng.pick(WORDS)).to_owned(),
        1 => (*rng.pick(ODD)).to_owned(),
        2 => {
            let mut s = String::new();
            for _ in 0..rng.range(1, 4) {
                s.push_str(if rng.chance(2, 3) { rng.pick(ODD) } else { rng.pick(WORDS) });
            }
            s
        }
        3 => {
            let n = rng.range(1, 8);
            (0..n)
                .map(|_| match rng.below(4) {
                    0 => char::from(rng.below(128) as u8),
                    1 => *rng.pick(&['\'', '"', '\\', ':', '#', ' ', '\n', '-', ',', '{', ']', '0', 'n', 'x']),
                    2 => char::from_u32(rng.below(0xD800) as u32).unwrap_or('x'),
                    _ => char::from_u32(0x10000 + rng.below(0x1000) as u32).unwrap_or('x'),
                })
                .filter(|c| !(0xF780..=0xF7FF).contains(&(*c as u32)))
                .collect()
        }
        _ if rng.chance(1, 12) => long_string(rng),
        _ => {
            let n = rng.range(20, 600);
            let unit = *rng.pick(WORDS);
            let s: String = unit.chars().cycle().take(n).collect();
            let s = s.trim();
            match rng.below(6) {
                0 => format!("{s}{}", rng.pick(ODD)),
                1 => format!("{}{s}", rng.pick(ODD)),
                2 => format!("{s}{}", rng.pick(&[" ", "\t", "\n", ":", " #", "\r", "'", "\""])),
                3 => format!("{}{s}", rng.pick(&[" ", "\t", "\n", "- ", "? ", "#", "&", "*", "!", "|", ">", "'", "\"", "%", "@", "`"])),
                _ => s.to_owned(),
            }
        }
    }
}

/// About as long as buffers tend to be, with what needs care around the end.
fn long_string(rng: &mut Rng) -> String {
    let n = (1usize << rng.range(6, 14)) + rng.below(5) - 2;
    let unit = *rng.pick(WORDS);
    let odd = *rng.pick(ODD);
    let mut s: String = unit.chars().cycle().take(n).collect();
    match rng.below(4) {
        0 => {}
        1 => s.push_str(odd),
        2 => {
            let tail = rng.below(12);
            let at = s.char_indices().rev().nth(tail).map_or(0, |c| c.0);
            s.insert_str(at, odd);
        }
        _ => {
            let at = s.char_indices().map(|c| c.0).nth(rng.below(n)).unwrap_or(0);
            s.insert_str(at, odd);
        }
    }
    s.trim().to_owned()
}

/// A collection of many scalars.
fn gen_many(rng: &mut Rng, cfg: &GenCfg) -> N {
    let map = rng.chance(2, 3);
    let flow = rng.chance(1, 4);
    let n = rng.range(17, *rng.clone().pick(&[40, 70, 140, 280]));
    let items = (0..n)
        .map(|i| I {
            k: if map { format!("k{i}") } else { String::new() },
            kq: 0,
            gap: if rng.chance(1, 8) { gaps(rng) } else { Vec::new() },
            sep: if rng.chance(1, 8) { rng.below(32) as u8 } else { 0 },
            trail: if rng.chance(1, 8) { rng.below(8) as u8 } else { 0 },
            v: gen_scalar(rng, cfg, flow, !map),
        })
        .collect();
    N::Coll {
        map,
        flow,
        place: rng.below(3) as u8,
        indent: 1,
        items,
        trailing: rng.chance(1, 4),
        ws: rng.below(8) as u8,
    }
}

pub fn block_lines(rng: &mut Rng) -> Vec<String> {
    let n = rng.range(1, 4);
    (0..n)
        .map(|_| {
            let s = if rng.chance(1, 3) {
                any_string(rng)
            } else {
                (*rng.pick(WORDS)).to_owned()
            };
            let s: String = s
                .chars()
                .map(|c| if c.is_control() || c == '\u{2028}' { ' ' } else { c })
                .collect();
            let s = s.trim().trim_start_matches('#').trim().to_owned();
            if s.is_empty() {
                "line".to_owned()
            } else {
                s
            }
        })
        .collect()
}

fn wildify(rng: &mut Rng, s: String) -> String {
    // Bytes which are not UTF-8.
    let mut s = s;
    if rng.chance(1, 4) {
        let at = s.char_indices().map(|c| c.0).nth(rng.below(s.len() + 1)).unwrap_or(s.len());
        s.insert(at, char::from_u32(0xF780 + rng.below(128) as u32).unwrap());
    }
    s
}

fn gaps(rng: &mut Rng) -> Vec<Gap> {
    if !rng.chance(1, 4) {
        return Vec::new();
    }
    let n = rng.range(1, 3);
    (0..n)
        .map(|_| {
            if rng.chance(1, 3) {
                Gap::Blank(rng.below(4) as u8 + if rng.chance(1, 6) { 8 } else { 0 })
            } else {
                let text = *rng.pick(&[" comment", " a: b", "", " - x", " 'unterminated", " [", "#", " é", " x # y", " }: ,"]);
                Gap::Comment(rng.below(6) as u8, text.to_owned())
            }
        })
        .collect()
}

fn gen_key(rng: &mut Rng, cfg: &GenCfg, i: usize) -> (String, u8) {
    match rng.below(12) {
        0 => ((*rng.pick(ODD_KEYS)).to_owned(), rng.below(8) as u8),
        1 if cfg.wild => {
            let s = any_string(rng);
            (wildify(rng, s), rng.below(8) as u8)
        }
        2 => (format!("k{i}"), rng.below(8) as u8),
        _ if rng.family.is_some() && rng.chance(1, 2) => {
            let s = any_string(rng);
            (s, rng.below(8) as u8)
        }
        _ => ((*rng.pick(KEYS)).to_owned(), if rng.chance(1, 6) { rng.below(8) as u8 } else { 0 }),
    }
}

fn gen_scalar(rng: &mut Rng, cfg: &GenCfg, flow: bool, in_seq: bool) -> N {
    match rng.weighted(&[2, 2, 4, 8, if flow { 0 } else { 2 }]) {
        0 => N::Null(if cfg.safe && flow && in_seq { rng.below(4) as u8 } else { rng.below(6) as u8 }),
        1 => N::Bool(rng.chance(1, 2), if rng.chance(1, 3) { rng.below(3) as u8 } else { 0 }),
        2 => N::Num(rng.below(NUMBERS.len()) as u8),
        3 => {
            let s = any_string(rng);
            let s = if cfg.wild { wildify(rng, s) } else { s };
            N::Str(s, rng.below(8) as u8)
        }
        _ => {
            let mut lines = block_lines(rng);
            if cfg.wild && rng.chance(1, 3) {
                let at = rng.below(lines.len());
                lines.insert(at, String::new());
            }
            N::Block {
                lines,
                folded: rng.chance(1, 2),
                chomp: if cfg.safe { rng.below(2) as u8 } else { rng.below(3) as u8 },
                extra: rng.below(4) as u8,
            }
        }
    }
}

fn gen_node(rng: &mut Rng, cfg: &GenCfg, left: &mut usize, depth: usize, flow: bool, in_seq: bool) -> N {
    *left = left.saturating_sub(1);
    if depth >= cfg.depth || *left == 0 || rng.chance(depth + 1, depth + 4) {
        return gen_scalar(rng, cfg, flow, in_seq);
    }
    let flow = flow || rng.chance(1, 4);
    let map = rng.chance(3, 5);
    let n = if rng.chance(1, 8) { 0 } else { 1 + rng.size(4, 24) };
    let mut items: Vec<I> = Vec::new();
    for i in 0..n {
        if *left == 0 {
            break;
        }
        let (mut k, kq) = if map { gen_key(rng, cfg, i) } else { Default::default() };
        if map && (cfg.safe || !rng.chance(1, 12)) && items.iter().any(|o| o.k == k) {
            k = format!("k{i}x");
        }
        let v = gen_node(rng, cfg, left, depth + 1, flow, !map);
        items.push(I {
            k,
            kq,
            gap: gaps(rng),
            sep: rng.below(32) as u8,
            trail: rng.below(8) as u8,
            v,
        });
    }
    N::Coll {
        map,
        flow: flow || items.is_empty(),
        place: rng.below(3) as u8,
        indent: match rng.below(80) {
            0 => 6 + rng.below(FAR.len()) as u8,
            1..=39 => rng.below(5) as u8,
            _ => 1,
        },
        items,
        trailing: rng.chance(1, 5),
        ws: rng.below(8) as u8,
    }
}

/// Nest something deeply.
fn deep(rng: &mut Rng, mut n: N, depth: usize) -> N {
    let flow = rng.chance(1, 2);
    for _ in 0..depth {
        let map = rng.chance(1, 2);
        n = N::Coll {
            map,
            flow,
            place: 1,
            indent: 0,
            items: vec![I {
                k: "k".into(),
                kq: 0,
                gap: vec![],
                sep: 0,
                trail: 0,
                v: n,
            }],
            trailing: false,
            ws: 0,
        };
    }
    n
}

pub fn gen(rng: &mut Rng, cfg: &GenCfg) -> DocSpec {
    let mut left = 1 + rng.size(cfg.size, cfg.size * 5);
    let root = if rng.chance(1, 12) {
        gen_scalar(rng, cfg, false, false)
    } else {
        // Most documents are collections.
        let mut n = gen_node(rng, cfg, &mut left, 0, false, false);
        if !matches!(n, N::Coll { .. }) && rng.chance(9, 10) {
            left = left.max(4);
            let map = rng.chance(2, 3);
            let items = (0..rng.range(1, 4))
                .map(|i| I {
                    k: format!("k{i}"),
                    kq: 0,
                    gap: gaps(rng),
                    sep: rng.below(8) as u8,
                    trail: rng.below(8) as u8,
                    v: gen_node(rng, cfg, &mut left, 1, false, !map),
                })
                .collect();
            n = N::Coll {
                map,
                flow: false,
                place: 0,
                indent: 1,
                items,
                trailing: false,
                ws: 0,
            };
        }
        if rng.chance(1, 60) {
            n = deep(rng, n, 8);
        }
        if rng.chance(1, 60) {
            n = gen_many(rng, cfg);
        }
        n
    };
    DocSpec {
        header: rng.below(8) as u8,
        lead: gaps(rng),
        base: if rng.chance(1, 4) { rng.below(6) as u8 } else { 0 },
        crlf: rng.chance(1, 10),
        root,
        rtrail: rng.below(8) as u8,
        eof_nl: cfg.safe || !rng.chance(1, 4),
        tail: gaps(rng),
        wild: cfg.wild,
    }
}
