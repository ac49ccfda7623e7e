//! What a thread may have behind it before a run begins: many attempts which
//! failed, in the library and in caller code. They are on documents of their
//! own, so that nothing of it may matter afterwards.

use std::fmt::Write as _;
use std::io;

use nondestructive::yaml::{self, Document};
use serde::de::{DeserializeSeed, IntoDeserializer};
use serde::Serialize;

use crate::cb;
use crate::content::{Gate, Hinted, Recorder, Ser, C, HINTS};
use crate::rng::Rng;
use crate::rt::{catch, inject_panic, Caught};
use crate::world::{restore, restore_tree, snapshot, snapshot_tree, values};

const GOOD: &[&str] = &[
    "a: 1\nb:\n  - x\n  - {c: [1, 2.5, true], d: \"q\\n\"}\n# end\n",
    "- |\n  block\n- 'it''s'\n- ~\n- key: {a: {b: {c: []}}}\n",
    "[1, [2, [3, {a: b}]], ]",
    "same: 1\nsame: 2\nsame: 3\n",
];

const BAD: &[&str] = &[
    "{a: [",
    "a: \"\\uD800\"",
    "a: \"open",
    "a: 'open",
    "- a\n  b: [}",
    "a: 1\nb\n",
    "{a: {b: {c: {d: 1",
    "\"\\x",
    "- - - - - {]",
];

struct Broken(u64);

impl Broken {
    fn call(&mut self) -> bool {
        cb::call("output");
        self.0 = self.0.wrapping_sub(1);
        self.0 != u64::MAX
    }
}

impl io::Write for Broken {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.call() {
            Ok(b.len())
        } else {
            Err(io::ErrorKind::Other.into())
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl std::fmt::Write for Broken {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        if self.call() {
            Ok(())
        } else {
            Err(std::fmt::Error)
        }
    }
}

fn load(text: &str) -> Option<Document> {
    yaml::from_slice(cb::K(text.as_bytes())).ok()
}

/// Something which may well fail.
fn attempt(what: usize, k: u64, doc: &mut Document) {
    let all = values(doc);
    let v = &all[k as usize * 7 % all.len()];
    match what {
        0 => {
            let _ = load(BAD[k as usize % BAD.len()]);
        }
        1 => {
            let deep = ["[", "{a: ", "- "][k as usize % 3].repeat(200 + k as usize * 9);
            let _ = load(&deep);
        }
        2 => {
            let _ = doc.write_to(Broken(k));
        }
        3 => {
            let mut out = Broken(k);
            let _ = match k % 4 {
                0 => write!(out, "{doc}"),
                1 => write!(out, "{doc:?}"),
                2 => write!(out, "{v}"),
                _ => write!(out, "{v:?}"),
            };
        }
        4 => {
            let _ = v.serialize(Ser(Gate::new(Some(k), false)));
        }
        5 => {
            let id = v.id();
            let r = Hinted(Recorder(Gate::new(Some(k), false)), k as u8 % HINTS as u8)
                .deserialize(doc.value(id).into_deserializer());
            let _ = r.is_ok();
            let _ = <(u8, bool) as serde::Deserialize>::deserialize(doc.value(id).into_deserializer()).is_ok();
        }
        6 => {
            let _ = snapshot_tree(doc, Some(k)).0.is_ok();
            if let Ok(c) = snapshot_tree(doc, None).0 {
                let _ = restore_tree::<Document>(&c, Some(k)).0.is_ok();
                let _ = restore_tree::<Document>(&C::Seq(Vec::new()), None).0.is_ok();
            }
            if let Ok(mut b) = snapshot(doc) {
                b.truncate(b.len() / 2);
                let _ = restore(&b).is_ok();
            }
        }
        7 => {
            // Caller code which panics, wherever it is called.
            let mut n = 0;
            let mut other = doc.clone();
            let r = catch(|| {
                cb::with(
                    move |_| {
                        n += 1;
                        if n > k {
                            inject_panic();
                        }
                    },
                    || match k % 5 {
                        0 => drop(load(GOOD[k as usize % GOOD.len()])),
                        1 => drop(other.write_to(Broken(u64::MAX))),
                        2 => drop(other.as_mut().set_string(cb::S("some text"))),
                        3 => drop(other.as_ref().serialize(Ser(Gate::new(None, false)))),
                        _ => {
                            if let Some(mut m) = other.as_mut().into_mapping_mut() {
                                drop(m.insert_str(cb::K(b"new"), cb::S("text")));
                            }
                        }
                    },
                )
            });
            if let Err(Caught::Library(m)) = r {
                panic!("{m}");
            }
        }
        8 => {
            // Lookups of what there is not.
            if let Some(m) = v.as_mapping() {
                let _ = (m.get("missing").is_some(), m.iter().nth(k as usize + 9).is_some());
            }
            if let Some(s) = v.as_sequence() {
                let _ = (s.get(k as usize + 9).is_some(), s.iter().nth_back(k as usize + 9).is_some());
            }
            let _ = (v.as_u8(), v.as_f32(), v.as_bool(), v.as_str().is_some());
            drop(all);
            if let Some(mut m) = doc.as_mut().into_mapping_mut() {
                let _ = (m.remove("missing"), m.get_mut("missing").is_some());
            }
            if let Some(mut s) = doc.as_mut().into_sequence_mut() {
                let _ = (s.remove(99), s.get_mut(99).is_some());
            }
        }
        _ => {
            // What succeeds is not to be used up either.
            let _ = (doc.clone(), load(GOOD[k as usize % GOOD.len()]));
            let mut out = String::new();
            let _ = write!(out, "{doc} {v:?}");
        }
    }
}

/// Whether there is one before a run is up to the seed of the thread.
pub fn maybe(seed: u64) -> u64 {
    let mut rng = Rng::new(seed ^ 0x5702_4D00);
    if !rng.chance(1, 250) {
        return 0;
    }
    let Some(mut doc) = load(*rng.pick(GOOD)) else { return 0 };
    let only = rng.chance(1, 2).then(|| rng.below(10));
    let n = *rng.pick(&[40, 150, 300, 700, 1200]);
    for _ in 0..n {
        attempt(only.unwrap_or_else(|| rng.below(10)), rng.below(12) as u64, &mut doc);
    }
    n
}
