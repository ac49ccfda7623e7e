//! Seams below the library: hash seeds and the allocator.
//!
//! `getrandom` is what the standard library seeds `RandomState` with; defining
//! it here puts hash randomization under the simulator. The allocator counts,
//! attributes allocations to library calls, and ends the process at a cap.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

use crate::{fine, mix};

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0x5EED) };
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static WATCH: Cell<bool> = const { Cell::new(false) };
}

/// Set what hash maps created by this thread are seeded with. To be called
/// before the thread creates its first one.
pub fn set_hash_seed(seed: u64) {
    HASH_SEED.with(|s| s.set(seed));
}

/// # Safety
/// As getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut z = HASH_SEED.try_with(Cell::get).unwrap_or(1);
    for i in 0..len {
        if i % 8 == 0 {
            z = mix(z);
        }
        *buf.add(i) = (z >> ((i % 8) * 8)) as u8;
    }
    let _ = HASH_SEED.try_with(|s| s.set(mix(z)));
    len as isize
}

pub struct Counting;

const HEAD: usize = 32;
/// Exit status of a process that hit the memory cap.
pub const EXIT_MEMORY: i32 = 86;

static TRACKED: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static ANY: AtomicBool = AtomicBool::new(false);
static ANY_WATCHED: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn _exit(status: i32) -> !;
}

fn head(layout: &Layout) -> usize {
    HEAD.max(layout.align())
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let h = head(&layout);
        let size = layout.size() + h;
        let live = LIVE.fetch_add(layout.size(), Relaxed) + layout.size();
        if live > CAP.load(Relaxed) {
            _exit(EXIT_MEMORY);
        }
        let p = System.alloc(Layout::from_size_align_unchecked(size, h.max(layout.align())));
        if p.is_null() {
            return p;
        }
        let p = p.add(h);
        let track = ANY.load(Relaxed) && TRACK.try_with(Cell::get).unwrap_or(false);
        let watch = ANY_WATCHED.load(Relaxed) && WATCH.try_with(Cell::get).unwrap_or(false);
        *p.sub(8).cast::<u64>() = u64::from(track);
        *p.sub(16).cast::<u64>() = u64::from(watch);
        if watch {
            fine::watch(p as usize, layout.size());
        }
        if track {
            let t = TRACKED.fetch_add(layout.size(), Relaxed) + layout.size();
            PEAK.fetch_max(t, Relaxed);
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let h = head(&layout);
        if *p.sub(16).cast::<u64>() == 1 {
            fine::unwatch(p as usize);
        }
        if *p.sub(8).cast::<u64>() == 1 {
            TRACKED.fetch_sub(layout.size(), Relaxed);
        }
        LIVE.fetch_sub(layout.size(), Relaxed);
        System.dealloc(
            p.sub(h),
            Layout::from_size_align_unchecked(layout.size() + h, h.max(layout.align())),
        );
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

/// End the process with [`EXIT_MEMORY`] when more than this is allocated.
pub fn set_cap(bytes: usize) {
    CAP.store(bytes, Relaxed);
}

/// Attribute allocations made by `f` on this thread to the library.
pub fn tracked<T>(f: impl FnOnce() -> T) -> T {
    struct Guard(bool);
    impl Drop for Guard {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(self.0));
        }
    }
    ANY.store(true, Relaxed);
    let _guard = Guard(TRACK.with(|t| t.replace(true)));
    f()
}

/// Run caller code from within the library without attributing it to it.
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    struct Guard(bool);
    impl Drop for Guard {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(self.0));
        }
    }
    let _guard = Guard(TRACK.with(|t| t.replace(false)));
    f()
}

/// What `f` allocates on this thread is going to be shared between threads.
pub fn watched<T>(f: impl FnOnce() -> T) -> T {
    struct Guard(bool);
    impl Drop for Guard {
        fn drop(&mut self) {
            WATCH.with(|t| t.set(self.0));
        }
    }
    ANY_WATCHED.store(true, Relaxed);
    let _guard = Guard(WATCH.with(|t| t.replace(true)));
    f()
}

/// Bytes allocated by tracked calls and not yet freed.
pub fn tracked_live() -> usize {
    TRACKED.load(Relaxed)
}

/// Forget the highest value of [`tracked_live`].
pub fn reset_peak() {
    PEAK.store(TRACKED.load(Relaxed), Relaxed);
}

pub fn tracked_peak() -> usize {
    PEAK.load(Relaxed)
}
