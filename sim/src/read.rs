//! Compare everything that can be read from a document with the model.

use std::collections::{BTreeMap, BTreeSet, HashSet};

use bstr::ByteSlice;
use nondestructive::yaml::{Any, Document, Id, Number, Value};
use serde::de::{DeserializeSeed, IgnoredAny, IntoDeserializer};
use serde::Serialize;

use crate::content::{Gate, Hinted, HintedKeys, Recorder, Ser, C, HINTS};
use crate::model::{Node, Num, NumV, Tree, Val};

pub type Check = Result<(), String>;

fn b(s: &[u8]) -> String {
    format!("{:?}", s.as_bstr())
}

pub fn ser(v: &Value<'_>) -> Result<C, String> {
    v.serialize(Ser(Gate::new(None, false))).map_err(|e| e.to_string())
}

pub fn de(v: Value<'_>) -> Result<C, String> {
    Recorder(Gate::new(None, false))
        .deserialize(v.into_deserializer())
        .map_err(|e| e.to_string())
}

/// Asking serde for some type finds what the accessor of that type does, and
/// anything else what there is.
pub fn hinted(doc: &Document, id: Id, hint: u8) -> Check {
    let v = doc.value(id);
    let gate = || Recorder(Gate::new(None, false));
    let any = gate().deserialize(doc.value(id).into_deserializer()).map_err(|e| e.to_string())?;
    let got = Hinted(gate(), hint)
        .deserialize(doc.value(id).into_deserializer())
        .map_err(|e| format!("deserializing {v:?} with hint {hint}: {e}"))?;
    let int = |w: u8, n: Option<i128>| n.map(|n| C::I(w, n));
    let uint = |w: u8, n: Option<u128>| n.map(|n| C::U(w, n));
    let typed = match hint % HINTS {
        1 => int(8, v.as_i8().map(Into::into)),
        2 => int(16, v.as_i16().map(Into::into)),
        3 => int(32, v.as_i32().map(Into::into)),
        4 => int(64, v.as_i64().map(Into::into)),
        5 => int(128, v.as_i128()),
        6 => uint(8, v.as_u8().map(Into::into)),
        7 => uint(16, v.as_u16().map(Into::into)),
        8 => uint(32, v.as_u32().map(Into::into)),
        9 => uint(64, v.as_u64().map(Into::into)),
        10 => uint(128, v.as_u128()),
        11 => v.as_f32().map(|f| C::F32(f.to_bits())),
        12 => v.as_f64().map(|f| C::F64(f.to_bits())),
        _ => None,
    };
    // A key is a string, whatever the hint.
    if let (C::Map(items), false) = (&any, matches!(hint % HINTS, 5 | 10)) {
        let got = HintedKeys(hint)
            .deserialize(doc.value(id).into_deserializer())
            .map_err(|e| format!("deserializing the keys of {v:?} with hint {hint}: {e}"))?;
        if !got.iter().eq(items.iter().map(|(k, _)| k)) {
            return Err(format!("deserializing the keys of {v:?} with hint {hint}: {got:?}"));
        }
    }
    let want = typed.unwrap_or(any);
    if got != want {
        return Err(format!("deserializing {v:?} with hint {hint}: {got:?}, expected {want:?}"));
    }
    if id == doc.as_ref().id() {
        let got = Hinted(gate(), hint)
            .deserialize(doc.into_deserializer())
            .map_err(|e| format!("deserializing the document with hint {hint}: {e}"))?;
        if got != want {
            return Err(format!("deserializing the document with hint {hint}: {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}

/// Types which take only what fits them find what the accessors do.
pub fn fitting(doc: &Document, id: Id) -> Check {
    fn to<'de, T: serde::Deserialize<'de>>(doc: &'de Document, id: Id) -> Option<T> {
        T::deserialize(doc.value(id).into_deserializer()).ok()
    }
    let v = doc.value(id);
    let wrong = |what: &str| Err(format!("deserializing {v:?} as {what}"));
    if to::<&str>(doc, id) != v.as_str() || to::<String>(doc, id).as_deref() != v.as_str() {
        return wrong("a string");
    }
    if v.as_bstr().is_some() && to::<&[u8]>(doc, id) != v.as_bstr().map(|s| s.as_bytes()) {
        return wrong("bytes");
    }
    if to::<bool>(doc, id) != v.as_bool() {
        return wrong("bool");
    }
    let null = v.as_any().is_null();
    if to::<Option<IgnoredAny>>(doc, id).map(|v| v.is_none()) != Some(null)
        && !matches!(v.as_number(), Some(n) if n.as_f64().is_none())
    {
        return wrong("an option");
    }
    if to::<Vec<IgnoredAny>>(doc, id).map(|v| v.len()) != v.as_sequence().map(|s| s.len()) {
        return wrong("a sequence");
    }
    let map = to::<BTreeMap<&str, IgnoredAny>>(doc, id);
    let keys = v.as_mapping().and_then(|m| m.iter().map(|(k, _)| k.to_str().ok()).collect::<Option<BTreeSet<_>>>());
    if map.map(|m| m.into_keys().collect::<BTreeSet<_>>()) != keys {
        return wrong("a mapping of strings");
    }
    Ok(())
}

macro_rules! ints {
    ($v:expr, $m:expr, $($f:ident $ty:ident),*) => {
        $({
            let want = if $m.0 {
                if $m.1 <= 1 << 127 { <$ty>::try_from(($m.1 as i128).wrapping_neg()).ok() } else { None }
            } else {
                <$ty>::try_from($m.1).ok()
            };
            if $v.$f() != want {
                return Err(format!("{} is {:?}, expected {:?}", stringify!($f), $v.$f(), want));
            }
            let n = $v.as_number().and_then(|n| n.$f());
            if n != want {
                return Err(format!("Number::{} is {:?}, expected {:?}", stringify!($f), n, want));
            }
        })*
    };
}

/// A number reads as what it was set to.
fn typed(v: &Value<'_>, n: Num) -> Check {
    if n.float() {
        let (got, want) = if n.ty % 12 == 0 {
            (v.as_f32().map(|f| u64::from(f.to_bits())), u64::from(n.f32().to_bits()))
        } else {
            (v.as_f64().map(f64::to_bits), n.f64().to_bits())
        };
        if got != Some(want) {
            return Err(format!("float reads as {got:?}, expected {want:?}"));
        }
        return Ok(());
    }
    let m = n.int();
    ints!(
        v, m, as_u8 u8, as_i8 i8, as_u16 u16, as_i16 i16, as_u32 u32, as_i32 i32, as_u64 u64, as_i64 i64, as_u128 u128,
        as_i128 i128
    );
    Ok(())
}

/// What serde sees of a number which was set.
fn event(n: Num) -> C {
    match n.ty % 12 {
        0 => C::F32(n.f32().to_bits()),
        1 => C::F64(n.f64().to_bits()),
        ty => {
            let width = [8, 16, 32, 64, 128][(ty as usize - 2) / 2];
            let (neg, mag) = n.int();
            if ty % 2 == 0 {
                C::U(width, mag)
            } else {
                C::I(width, if neg { (mag as i128).wrapping_neg() } else { mag as i128 })
            }
        }
    }
}

/// Whether serde sees one of the values which the accessors see.
fn consistent(v: &Value<'_>, c: &C) -> bool {
    match c {
        C::U(_, n) => v.as_u128() == Some(*n),
        C::I(_, n) => v.as_i128() == Some(*n),
        C::F32(n) => v.as_f32().map(f32::to_bits) == Some(*n),
        C::F64(n) => v.as_f64().map(f64::to_bits) == Some(*n),
        C::None => v.as_f64().is_none() && v.as_u128().is_none() && v.as_i128().is_none(),
        _ => false,
    }
}

/// Every form of access finds the same.
fn surface(doc: &Document, v: &Value<'_>, kinds: [bool; 6]) -> Check {
    let id = v.id();
    let owned = || doc.value(id);
    let wrong = |what: &str| Err(format!("{what} of {v:?}: kinds {kinds:?}"));
    let number = |n: &Number<'_>| n.as_raw().to_vec();
    let strings = |s: &nondestructive::yaml::String<'_>| (s.to_vec(), s.as_raw().to_vec());
    let into = match owned().into_any() {
        Any::Null => kinds[0],
        Any::Bool(b) => v.as_bool() == Some(b),
        Any::Number(n) => v.as_number().map(|n| number(&n)) == Some(number(&n)),
        Any::String(s) => v.as_bstr().map(|s| s.to_vec()) == Some(s.to_vec()),
        Any::Mapping(m) => m.id() == id && kinds[4],
        Any::Sequence(s) => s.id() == id && kinds[5],
        _ => false,
    };
    if !into {
        return wrong("into_any");
    }
    if v.as_any().is_null() != kinds[0] || owned().into_any().is_null() != kinds[0] {
        return wrong("is_null");
    }
    if v.as_any().into_bool() != v.as_bool() || owned().into_any().into_bool() != v.as_bool() {
        return wrong("into_bool");
    }
    let n = v.as_number().as_ref().map(number);
    if v.as_any().into_number().as_ref().map(number) != n
        || owned().into_any().into_number().as_ref().map(number) != n
        || owned().into_number().as_ref().map(number) != n
    {
        return wrong("into_number");
    }
    let s = v.as_any().into_string().as_ref().map(strings);
    if s.as_ref().map(|s| s.0.as_bstr()) != v.as_bstr() || owned().into_any().into_string().as_ref().map(strings) != s {
        return wrong("into_string");
    }
    if v.as_str() != v.as_bstr().and_then(|s| s.to_str().ok()) {
        return wrong("as_str");
    }
    if v.as_mapping().is_some_and(|m| m.id() != id) || v.as_sequence().is_some_and(|s| s.id() != id) {
        return wrong("identifiers");
    }
    if let Some(n) = v.as_number() {
        if n.as_f64().map(f64::to_bits) != v.as_f64().map(f64::to_bits)
            || n.as_f32().map(f32::to_bits) != v.as_f32().map(f32::to_bits)
        {
            return wrong("floats");
        }
    } else if v.as_f64().is_some()
        || v.as_f32().is_some()
        || v.as_i8().is_some()
        || v.as_u8().is_some()
        || v.as_i64().is_some()
        || v.as_u64().is_some()
        || v.as_i128().is_some()
        || v.as_u128().is_some()
    {
        return wrong("numbers");
    }
    Ok(())
}

pub struct Opts {
    /// Loaded from storage: how numbers were set is no longer known, and an
    /// empty collection may be null.
    pub stored: bool,
    pub serde: bool,
}

pub struct Reader {
    pub opts: Opts,
}

impl Reader {
    /// Some entry of a collection, by its size alone.
    fn pick(&self, len: usize) -> usize {
        (len * 5 / 8).min(len - 1)
    }

    /// The value is what the model says, through every way of reading it.
    pub fn value(&self, doc: &Document, v: &Value<'_>, n: &Node, c: Option<(&C, &C)>) -> Check {
        let kinds = [
            matches!(v.as_any(), Any::Null),
            v.as_bool().is_some(),
            v.as_number().is_some(),
            v.as_bstr().is_some(),
            v.as_mapping().is_some(),
            v.as_sequence().is_some(),
        ];
        if kinds.iter().filter(|k| **k).count() != 1 {
            return Err(format!("kinds {kinds:?}"));
        }
        let id = v.id();
        surface(doc, v, kinds)?;
        let any = match v.as_any() {
            Any::Null => 0,
            Any::Bool(_) => 1,
            Any::Number(_) => 2,
            Any::String(_) => 3,
            Any::Mapping(m) if m.id() == id => 4,
            Any::Sequence(s) if s.id() == id => 5,
            _ => 6,
        };
        if !kinds.get(any).is_some_and(|k| *k) {
            return Err(format!("any {any} but kinds {kinds:?}"));
        }
        let stored = self.opts.stored;
        match &n.val {
            Val::Coll(m) if stored && m.items.is_empty() && !m.flow && kinds[0] => {}
            Val::Null(_) => {
                if !kinds[0] {
                    return Err(format!("expected null, found {v:?}"));
                }
                if !v.as_any().is_null() {
                    return Err("is_null".into());
                }
            }
            Val::Bool(want, _) => {
                if v.as_bool() != Some(*want) || v.as_any().into_bool() != Some(*want) {
                    return Err(format!("expected {want}, found {v:?}"));
                }
            }
            Val::Num(num, _) => {
                let Some(got) = v.as_number() else {
                    return Err(format!("expected number {num:?}, found {v:?}"));
                };
                let raw = got.as_raw().to_vec();
                if v.as_any().into_number().map(|n| n.as_raw().to_vec()) != Some(raw.clone()) {
                    return Err("into_number".into());
                }
                match num {
                    NumV::Text(t) => {
                        if raw != *t {
                            return Err(format!("expected number {}, found {}", b(t), b(&raw)));
                        }
                        let int = match (v.as_u128(), v.as_i128()) {
                            (Some(n), Some(m)) if u128::try_from(m) != Ok(n) => {
                                return Err(format!("as_u128 {n}, as_i128 {m}"))
                            }
                            (Some(n), _) => Some((false, n)),
                            (None, Some(m)) => Some((m < 0, m.unsigned_abs())),
                            (None, None) => None,
                        };
                        // Whether `-0` is an unsigned number is up to the library.
                        if int == Some((false, 0)) && raw.starts_with(b"-") {
                            let m = (false, 0u128);
                            ints!(v, m, as_i8 i8, as_i16 i16, as_i32 i32, as_i64 i64, as_i128 i128);
                        } else if let Some(m) = int {
                            ints!(
                                v, m, as_u8 u8, as_i8 i8, as_u16 u16, as_i16 i16, as_u32 u32, as_i32 i32, as_u64 u64,
                                as_i64 i64, as_u128 u128, as_i128 i128
                            );
                        } else if v.as_u64().is_some() || v.as_i64().is_some() || v.as_u8().is_some() || v.as_i8().is_some() {
                            return Err(format!("integer {} which is none with 128 bits", b(&raw)));
                        }
                    }
                    NumV::Typed(n) => typed(v, *n).map_err(|e| format!("{num:?} written {}: {e}", b(&raw)))?,
                }
            }
            Val::Str(want, _) => {
                let Some(got) = v.as_bstr() else {
                    return Err(format!("expected string {}, found {v:?}", b(want)));
                };
                if got != want {
                    return Err(format!("expected string {}, found {}", b(want), b(got)));
                }
                if v.as_str() != std::str::from_utf8(want).ok() {
                    return Err("as_str".into());
                }
                match v.as_any().into_string() {
                    Some(s) if **s == **want => {
                        let _ = s.as_raw();
                    }
                    _ => return Err("into_string".into()),
                }
            }
            Val::Coll(m) if m.map => {
                let Some(got) = v.as_mapping() else {
                    return Err(format!("expected mapping, found {v:?}"));
                };
                if got.len() != m.items.len() || got.is_empty() != m.items.is_empty() {
                    return Err(format!(
                        "expected {} entries, found {} (empty: {}): {v:?}",
                        m.items.len(),
                        got.len(),
                        got.is_empty()
                    ));
                }
                let entries: Vec<_> = got.iter().collect();
                if entries.len() != m.items.len() || (&got).into_iter().count() != entries.len() {
                    return Err("iteration and length".into());
                }
                if !m.items.is_empty() {
                    let back: Vec<_> = got.iter().rev().map(|(k, v)| (k, v.id())).collect();
                    if back.iter().rev().ne(entries.iter().map(|(k, v)| (*k, v.id())).collect::<Vec<_>>().iter()) {
                        return Err("iteration from the back".into());
                    }
                    let nth = self.pick(m.items.len());
                    let at = got.iter().nth(nth).map(|(_, v)| v.id());
                    let from = got.iter().nth_back(m.items.len() - 1 - nth).map(|(_, v)| v.id());
                    if at != Some(entries[nth].1.id()) || from != at || got.iter().len() != m.items.len() {
                        return Err(format!("nth({nth})"));
                    }
                }
                for (i, ((k, child), item)) in entries.iter().zip(&m.items).enumerate() {
                    if **k != *item.key {
                        return Err(format!("expected key {}, found {}", b(&item.key), b(k)));
                    }
                    if let Ok(k) = std::str::from_utf8(&item.key) {
                        let first = m.items.iter().position(|o| o.key == item.key).unwrap_or(i);
                        let found = got.get(k).map(|v| v.id());
                        if found != Some(entries[first].1.id()) {
                            return Err(format!("get({k:?}) is {found:?}"));
                        }
                        let near = crate::ops::near(&item.key, (i + k.len()) as u8);
                        if !m.items.iter().any(|o| o.key == near) {
                            if let Ok(near) = std::str::from_utf8(&near) {
                                if got.get(near).is_some() {
                                    return Err(format!("get({near:?}) is something, without such a key"));
                                }
                            }
                        }
                    }
                    let c = self.child(c, i, Some(&item.key))?;
                    self.value(doc, child, &item.node, c)
                        .map_err(|e| format!(".{}{e}", b(&item.key)))?;
                }
                if got.get("\u{1}not there").is_some() {
                    return Err("get of a missing key".into());
                }
                if got.into_iter().count() != m.items.len() {
                    return Err("into_iter".into());
                }
            }
            Val::Coll(m) => {
                let Some(got) = v.as_sequence() else {
                    return Err(format!("expected sequence, found {v:?}"));
                };
                if got.len() != m.items.len() || got.is_empty() != m.items.is_empty() {
                    return Err(format!(
                        "expected {} items, found {} (empty: {}): {v:?}",
                        m.items.len(),
                        got.len(),
                        got.is_empty()
                    ));
                }
                let items: Vec<_> = got.iter().collect();
                if items.len() != m.items.len() || (&got).into_iter().count() != items.len() {
                    return Err("iteration and length".into());
                }
                let first = got.first().map(|v| v.id());
                let last = got.last().map(|v| v.id());
                if first != items.first().map(Value::id) || last != items.last().map(Value::id) {
                    return Err("first and last".into());
                }
                if !m.items.is_empty() {
                    if got.iter().rev().map(|v| v.id()).ne(items.iter().rev().map(|v| v.id())) {
                        return Err("iteration from the back".into());
                    }
                    let nth = self.pick(m.items.len());
                    let at = got.iter().nth(nth).map(|v| v.id());
                    let from = got.iter().nth_back(m.items.len() - 1 - nth).map(|v| v.id());
                    if at != Some(items[nth].id()) || from != at || got.iter().len() != m.items.len() {
                        return Err(format!("nth({nth})"));
                    }
                }
                for (i, (child, item)) in items.iter().zip(&m.items).enumerate() {
                    if got.get(i).map(|v| v.id()) != Some(child.id()) {
                        return Err(format!("get({i})"));
                    }
                    let c = self.child(c, i, None)?;
                    self.value(doc, child, &item.node, c).map_err(|e| format!("[{i}]{e}"))?;
                }
                if got.get(items.len()).is_some() || got.get(usize::MAX).is_some() {
                    return Err("get past the end".into());
                }
            }
        }
        if let Some((s, d)) = c {
            self.serde(v, n, s, d)?;
        }
        Ok(())
    }

    fn child<'c>(&self, c: Option<(&'c C, &'c C)>, i: usize, key: Option<&[u8]>) -> Result<Option<(&'c C, &'c C)>, String> {
        fn at<'c>(c: &'c C, i: usize, key: Option<&[u8]>) -> Option<&'c C> {
            match (c, key) {
                (C::Map(m), Some(key)) => {
                    let (k, v) = m.get(i)?;
                    match k {
                        C::Str(s) if s.as_bytes() == key => Some(v),
                        C::Bytes(s) if s == key => Some(v),
                        // How keys which are not UTF-8 are serialized is up to bstr.
                        C::Seq(_) if std::str::from_utf8(key).is_err() => Some(v),
                        _ => None,
                    }
                }
                (C::Seq(s), None) => s.get(i),
                _ => None,
            }
        }
        let Some((s, d)) = c else { return Ok(None) };
        match (at(s, i, key), at(d, i, key)) {
            (Some(s), Some(d)) => Ok(Some((s, d))),
            _ => Err(format!("serde of item {i}: serialized {s:?}, deserialized {d:?}")),
        }
    }

    fn serde(&self, v: &Value<'_>, n: &Node, s: &C, d: &C) -> Check {
        let ok = match &n.val {
            Val::Coll(_) if v.as_mapping().is_none() && v.as_sequence().is_none() => *s == C::None && *d == C::None,
            Val::Coll(m) if m.map => {
                matches!(s, C::Map(s) if s.len() == m.items.len()) && matches!(d, C::Map(d) if d.len() == m.items.len())
            }
            Val::Coll(m) => {
                matches!(s, C::Seq(s) if s.len() == m.items.len()) && matches!(d, C::Seq(d) if d.len() == m.items.len())
            }
            Val::Null(_) => *s == C::None && *d == C::None,
            Val::Bool(b, _) => *s == C::Bool(*b) && *d == C::Bool(*b),
            Val::Num(NumV::Typed(n), _) if !self.opts.stored => {
                let want = event(*n);
                *s == want && *d == want
            }
            Val::Num(..) => consistent(v, s) && consistent(v, d),
            Val::Str(w, _) => match std::str::from_utf8(w) {
                Ok(w) => matches!(s, C::Str(s) if s == w) && matches!(d, C::Str(s) if s == w),
                Err(_) => matches!(s, C::Bytes(s) if s == w) && matches!(d, C::Bytes(s) if s == w),
            },
        };
        if ok {
            Ok(())
        } else {
            Err(format!("serde of {v:?}: serialized {s:?}, deserialized {d:?}"))
        }
    }

    pub fn document(&self, doc: &Document, tree: &Tree) -> Check {
        let v = doc.as_ref();
        if self.opts.serde {
            let s = ser(&v)?;
            let d = de(v)?;
            self.value(doc, &doc.as_ref(), &tree.root, Some((&s, &d)))
        } else {
            self.value(doc, &v, &tree.root, None)
        }
    }
}

/// Everything which can be read, with identifiers, as one string of bytes.
pub fn digest(doc: &Document, ids: bool) -> Vec<u8> {
    /// The typed accessors of a scalar.
    fn scalar(v: &Value<'_>, out: &mut Vec<u8>) {
        use std::io::Write;
        out.push(match v.as_bool() {
            None => b'n',
            Some(b) => b'0' + u8::from(b),
        });
        match v.as_bstr() {
            None => out.push(b'n'),
            Some(s) => out.extend(s.len().to_le_bytes()),
        }
        out.push(u8::from(v.as_str().is_some()));
        if let Some(n) = v.as_number() {
            let _ = write!(out, "{:?}{:?}", v.as_i128(), n.as_u64());
            out.extend(v.as_f64().map_or(0, f64::to_bits).to_le_bytes());
            out.extend(n.as_f32().map_or(0, f32::to_bits).to_le_bytes());
        }
        out.push(b'0' + u8::from(v.as_mapping().is_some()) + u8::from(v.as_sequence().is_some()));
    }
    fn go(v: &Value<'_>, ids: bool, out: &mut Vec<u8>) {
        use std::io::Write;
        if ids {
            let _ = write!(out, "<{}>", v.id());
        }
        match v.as_any() {
            Any::Null => out.push(b'0'),
            Any::Bool(x) => out.extend(if x { b"T" } else { b"F" }),
            Any::Number(n) => {
                out.push(b'#');
                out.extend_from_slice(n.as_raw());
                let _ = write!(out, "{:?}", ser(v));
            }
            Any::String(s) => {
                let _ = write!(out, "{:?}", s.as_bytes().as_bstr());
                let _ = write!(out, "{:?}", s.as_raw().as_bytes().as_bstr());
            }
            Any::Mapping(m) => {
                out.push(b'{');
                let all: Vec<_> = m.iter().collect();
                for (i, (k, v)) in all.iter().enumerate() {
                    let _ = write!(out, "{k:?}:");
                    go(v, ids, out);
                    // Lookup, which finds the first of them.
                    if let (true, Ok(k)) = (i % (1 + all.len() / 24) == 0, k.to_str()) {
                        let found = m.get(k).map(|v| v.id());
                        if found != Some(v.id()) {
                            let _ = write!(out, "@{:?}", all.iter().position(|(_, v)| Some(v.id()) == found));
                        }
                    }
                    out.push(b',');
                }
                let _ = write!(out, "{}{}{}", m.len(), m.is_empty(), m.get("\u{1}missing").is_some());
                out.push(b'}');
            }
            Any::Sequence(s) => {
                out.push(b'[');
                let all: Vec<_> = s.iter().collect();
                for (i, v) in all.iter().enumerate() {
                    go(v, ids, out);
                    let found = s.get(i).map(|v| v.id());
                    if found != Some(v.id()) {
                        let _ = write!(out, "@{:?}", all.iter().position(|v| Some(v.id()) == found));
                    }
                    out.push(b',');
                }
                let _ = write!(out, "{}{}{}", s.len(), s.is_empty(), s.get(all.len()).is_some());
                out.push(b']');
            }
            _ => out.extend(b"raw"),
        }
        if !matches!(v.as_any(), Any::Mapping(_) | Any::Sequence(_)) {
            scalar(v, out);
        }
    }
    let mut out = Vec::new();
    go(&doc.as_ref(), ids, &mut out);
    out
}

pub fn text(doc: &Document) -> Vec<u8> {
    let mut out = Vec::new();
    // A Vec takes everything.
    let _ = doc.write_to(&mut out);
    out
}

/// Identifiers of all values, `None` if there are duplicates.
pub fn ids(doc: &Document) -> Option<Vec<Id>> {
    fn go(v: &Value<'_>, out: &mut Vec<Id>) {
        out.push(v.id());
        if let Some(m) = v.as_mapping() {
            for (_, v) in m.iter() {
                go(&v, out);
            }
        }
        if let Some(s) = v.as_sequence() {
            for v in s.iter() {
                go(&v, out);
            }
        }
    }
    let mut out = Vec::new();
    go(&doc.as_ref(), &mut out);
    let set: HashSet<Id> = out.iter().copied().collect();
    (set.len() == out.len()).then_some(out)
}
