//! A simulated disk: one directory of files, of which only what was synced is
//! sure to survive a crash.

use std::collections::BTreeMap;
use std::io;

use serde::{Deserialize, Serialize};

use crate::rng::Rng;
use crate::rt::Ctx;

/// What happens to one call.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum F {
    /// Takes part of it.
    Short(u8),
    Interrupted,
    /// Takes part of it, and nothing more until space is freed.
    Full(u8),
    Eio,
    /// The machine stops, taking part of the call with it.
    Crash(u64),
}

/// A fault at the given call of a save.
pub type Faults = Vec<(u16, F)>;

pub fn gen_faults(rng: &mut Rng, calls: usize) -> Faults {
    let n = match rng.below(6) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 => 2,
        _ => rng.range(3, 8),
    };
    (0..n)
        .map(|_| {
            let f = match rng.below(10) {
                0..=3 => F::Short(rng.below(8) as u8),
                4 | 5 => F::Interrupted,
                6 => F::Full(rng.below(8) as u8),
                7 => F::Eio,
                _ => F::Crash(rng.u64()),
            };
            (rng.below(calls) as u16, f)
        })
        .collect()
}

#[derive(Default)]
struct Inode {
    now: Vec<u8>,
    synced: Vec<u8>,
    /// Written since.
    writes: Vec<(usize, Vec<u8>)>,
}

enum DirOp {
    Link(String, usize),
    Rename(String, String),
    Unlink(String),
}

#[derive(Default)]
pub struct Disk {
    inodes: Vec<Inode>,
    dir: BTreeMap<String, usize>,
    synced: BTreeMap<String, usize>,
    pending: Vec<DirOp>,
    /// Faults to come, by number of call.
    faults: Faults,
    calls: u32,
    full: bool,
    pub crashed: Option<u64>,
}

#[derive(Debug)]
pub struct Dead;

fn err(kind: io::ErrorKind, what: &str) -> io::Error {
    io::Error::new(kind, what.to_owned())
}

fn apply(dir: &mut BTreeMap<String, usize>, op: &DirOp) {
    match op {
        DirOp::Link(n, i) => {
            dir.insert(n.clone(), *i);
        }
        DirOp::Rename(a, b) => {
            if let Some(i) = dir.remove(a) {
                dir.insert(b.clone(), i);
            }
        }
        DirOp::Unlink(n) => {
            dir.remove(n);
        }
    }
}

impl Disk {
    pub fn arm(&mut self, faults: &Faults) {
        self.faults = faults.clone();
        self.calls = 0;
        self.full = false;
    }

    /// Faults of this call, and whether the machine is gone.
    fn enter(&mut self, ctx: &mut Ctx, what: &str) -> io::Result<Option<F>> {
        if self.crashed.is_some() {
            return Err(err(io::ErrorKind::Other, "crashed"));
        }
        let n = self.calls;
        self.calls += 1;
        ctx.tick("disk", what.as_bytes());
        let f = self.faults.iter().find(|f| u32::from(f.0) == n).map(|f| f.1);
        Ok(f)
    }

    fn plain(&mut self, ctx: &mut Ctx, what: &str) -> io::Result<()> {
        match self.enter(ctx, what)? {
            Some(F::Crash(seed)) => {
                ctx.fault(&format!("crash in {what}"));
                self.crashed = Some(seed);
                Err(err(io::ErrorKind::Other, "crashed"))
            }
            Some(F::Eio | F::Full(_)) => {
                ctx.fault(&format!("{what} failed"));
                Err(err(io::ErrorKind::Other, "EIO"))
            }
            _ => Ok(()),
        }
    }

    pub fn create(&mut self, ctx: &mut Ctx, name: &str) -> io::Result<usize> {
        self.plain(ctx, "create")?;
        let i = self.inodes.len();
        self.inodes.push(Inode::default());
        let op = DirOp::Link(name.to_owned(), i);
        apply(&mut self.dir, &op);
        self.pending.push(op);
        Ok(i)
    }

    fn write(&mut self, ctx: &mut Ctx, inode: usize, buf: &[u8]) -> io::Result<usize> {
        let f = self.enter(ctx, "write")?;
        if self.full {
            return Err(err(io::ErrorKind::StorageFull, "ENOSPC"));
        }
        let part = |n: u8| (n as usize).min(buf.len());
        let (n, r) = match f {
            None => (buf.len(), None),
            Some(F::Short(n)) => {
                ctx.fault("short write");
                (part(n).max(1).min(buf.len()), None)
            }
            Some(F::Interrupted) => {
                ctx.fault("interrupted");
                return Err(err(io::ErrorKind::Interrupted, "EINTR"));
            }
            Some(F::Full(n)) => {
                ctx.fault("disk full");
                self.full = true;
                let n = part(n);
                (n, (n == 0).then(|| err(io::ErrorKind::StorageFull, "ENOSPC")))
            }
            Some(F::Eio) => {
                ctx.fault("write failed");
                return Err(err(io::ErrorKind::Other, "EIO"));
            }
            Some(F::Crash(seed)) => {
                ctx.fault("crash in write");
                self.crashed = Some(seed);
                (Rng::new(seed).below(buf.len() + 1), Some(err(io::ErrorKind::Other, "crashed")))
            }
        };
        let node = &mut self.inodes[inode];
        let at = node.now.len();
        node.now.extend_from_slice(&buf[..n]);
        node.writes.push((at, buf[..n].to_vec()));
        r.map_or(Ok(n), Err)
    }

    pub fn fsync(&mut self, ctx: &mut Ctx, inode: usize) -> io::Result<()> {
        self.plain(ctx, "fsync")?;
        let node = &mut self.inodes[inode];
        node.synced.clone_from(&node.now);
        node.writes.clear();
        Ok(())
    }

    pub fn rename(&mut self, ctx: &mut Ctx, a: &str, b: &str) -> io::Result<()> {
        self.plain(ctx, "rename")?;
        let op = DirOp::Rename(a.to_owned(), b.to_owned());
        apply(&mut self.dir, &op);
        self.pending.push(op);
        Ok(())
    }

    pub fn unlink(&mut self, ctx: &mut Ctx, name: &str) -> io::Result<()> {
        self.plain(ctx, "unlink")?;
        let op = DirOp::Unlink(name.to_owned());
        apply(&mut self.dir, &op);
        self.pending.push(op);
        self.full = false;
        Ok(())
    }

    pub fn fsync_dir(&mut self, ctx: &mut Ctx) -> io::Result<()> {
        self.plain(ctx, "fsync directory")?;
        self.synced.clone_from(&self.dir);
        self.pending.clear();
        Ok(())
    }

    /// Stop, losing what was not synced: directory changes from some point on,
    /// and any of the sectors written.
    pub fn crash(&mut self, seed: u64) {
        let mut rng = Rng::new(seed);
        let keep = rng.below(self.pending.len() + 1);
        for op in &self.pending[..keep] {
            apply(&mut self.synced, op);
        }
        self.pending.clear();
        self.dir.clone_from(&self.synced);
        for node in &mut self.inodes {
            for (at, bytes) in std::mem::take(&mut node.writes) {
                let sector = *rng.pick(&[1usize, 16, 512]);
                for (i, s) in bytes.chunks(sector).enumerate() {
                    if rng.chance(1, 2) {
                        continue;
                    }
                    let at = at + i * sector;
                    if node.synced.len() < at + s.len() {
                        // Sectors in between which were lost read as zero.
                        node.synced.resize(at + s.len(), 0);
                    }
                    node.synced[at..at + s.len()].copy_from_slice(s);
                }
            }
            node.now.clone_from(&node.synced);
        }
        self.faults.clear();
        self.crashed = None;
        self.full = false;
    }

    pub fn read(&self, name: &str) -> Option<&[u8]> {
        self.dir.get(name).map(|i| &self.inodes[*i].now[..])
    }
}

pub struct File<'a> {
    pub disk: &'a mut Disk,
    pub ctx: &'a mut Ctx,
    pub inode: usize,
}

impl io::Write for File<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.disk.write(self.ctx, self.inode, buf)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
