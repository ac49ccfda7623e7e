//! Preemption inside of library code.
//!
//! For C11 the library is compiled with a call into the simulator on every edge
//! of its control flow, and at every load and store (`build.sh`). The scheduler
//! is asked after as many edges as it decided the last time, and whenever static
//! memory is touched, since that is what threads may share without anyone
//! passing it to them, or memory of a shared document is changed. A thread which would wait for a lock that another one
//! holds lets others run instead. Where the library is not compiled that way
//! nothing here is ever called.

use std::cell::{Cell, RefCell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

/// Why the scheduler is asked.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Why {
    /// The time it granted is over.
    Time,
    /// Static memory is about to be used, this place of it.
    Static(usize),
    /// Memory of a document other threads can see is about to be changed, or
    /// has been and is about to be used.
    Shared(usize),
    /// A lock is taken, someone else has to go on.
    Blocked,
}

type Hook = Box<dyn FnMut(Why) -> u64>;

thread_local! {
    /// Edges left until the scheduler is asked, 0 if it is not in charge.
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static CALM: Cell<bool> = const { Cell::new(false) };
    static EDGES: Cell<u64> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

/// Edges this thread has gone along with a scheduler in charge.
pub fn edges() -> u64 {
    EDGES.with(Cell::get)
}

/// Run with a scheduler in charge, which says for how long it need not be asked.
pub fn with<T>(hook: impl FnMut(Why) -> u64 + 'static, first: u64, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            LEFT.with(|l| l.set(0));
            HOOK.with(|h| h.borrow_mut().take());
        }
    }
    HOOK.with(|h| *h.borrow_mut() = Some(Box::new(hook)));
    LEFT.with(|l| l.set(first.max(1)));
    let _reset = Reset;
    f()
}

/// Not while the simulator itself does something.
pub fn without<T>(f: impl FnOnce() -> T) -> T {
    struct Put(u64);
    impl Drop for Put {
        fn drop(&mut self) {
            LEFT.with(|l| l.set(self.0));
        }
    }
    let _put = Put(LEFT.with(|l| l.replace(0)));
    f()
}

/// Only ask for locks for now, and once in a long while: someone might be
/// waiting for a lock in a loop.
pub fn calm<T>(f: impl FnOnce() -> T) -> T {
    struct Put(u64, bool);
    impl Drop for Put {
        fn drop(&mut self) {
            LEFT.with(|l| l.set(self.0));
            CALM.with(|c| c.set(self.1));
        }
    }
    let _put = Put(
        LEFT.with(|l| match l.get() {
            0 => 0,
            _ => l.replace(LONG),
        }),
        CALM.with(|c| c.replace(true)),
    );
    f()
}

const LONG: u64 = 1 << 14;

#[cold]
#[inline(never)]
fn ask(why: Why) {
    let left = LEFT.with(|l| l.replace(0));
    let hook = HOOK.with(|h| h.borrow_mut().take());
    let Some(mut hook) = hook else { return };
    let next = hook(why);
    HOOK.with(|h| *h.borrow_mut() = Some(hook));
    LEFT.with(|l| {
        l.set(match why {
            Why::Time if CALM.with(Cell::get) => LONG,
            Why::Time => next.max(1),
            _ => left,
        });
    });
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    LEFT.with(|l| match l.get() {
        0 => {}
        1 => {
            l.set(0);
            ask(Why::Time);
        }
        n => {
            EDGES.with(|e| e.set(e.get() + 1));
            l.set(n - 1);
        }
    });
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
    fn __errno_location() -> *mut i32;
}

#[inline]
fn touch(at: usize) {
    let (from, to) = (&raw const __data_start as usize, &raw const _end as usize);
    if at.wrapping_sub(from) < to - from && LEFT.with(Cell::get) != 0 && !CALM.with(Cell::get) {
        ask(Why::Static(at));
    }
}

/// Allocations which threads share, and the places in there which changed.
struct Watched {
    /// Ordered by where they start.
    ranges: [(usize, usize); 1024],
    changed: [usize; 64],
}

struct Guarded(AtomicBool, UnsafeCell<Watched>);

unsafe impl Sync for Guarded {}

static WATCHED: Guarded =
    Guarded(AtomicBool::new(false), UnsafeCell::new(Watched { ranges: [(0, 0); 1024], changed: [0; 64] }));
static RANGES: AtomicUsize = AtomicUsize::new(0);
static CHANGED: AtomicUsize = AtomicUsize::new(0);

/// Nothing in here allocates: the allocator calls it.
fn watched<T>(f: impl FnOnce(&mut Watched) -> T) -> T {
    while WATCHED.0.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *WATCHED.1.get() });
    WATCHED.0.store(false, Ordering::Release);
    r
}

/// This memory is shared from now on, until it is freed.
pub fn watch(at: usize, len: usize) {
    watched(|w| {
        let n = RANGES.load(Ordering::Relaxed);
        if n == w.ranges.len() {
            return;
        }
        let to = w.ranges[..n].partition_point(|r| r.0 < at);
        w.ranges.copy_within(to..n, to + 1);
        w.ranges[to] = (at, at + len);
        RANGES.store(n + 1, Ordering::Relaxed);
    });
}

pub fn unwatch(at: usize) {
    watched(|w| {
        let n = RANGES.load(Ordering::Relaxed);
        let Ok(i) = w.ranges[..n].binary_search_by_key(&at, |r| r.0) else { return };
        w.ranges.copy_within(i + 1..n, i);
        RANGES.store(n - 1, Ordering::Relaxed);
        if n == 1 {
            CHANGED.store(0, Ordering::Relaxed);
        }
    });
}

#[inline]
fn load(at: usize) {
    touch(at);
    if CHANGED.load(Ordering::Relaxed) > 0 && LEFT.with(Cell::get) != 0 && !CALM.with(Cell::get) {
        let n = CHANGED.load(Ordering::Relaxed);
        if watched(|w| w.changed[..n].contains(&at)) {
            ask(Why::Shared(at));
        }
    }
}

#[inline]
fn store(at: usize) {
    touch(at);
    if RANGES.load(Ordering::Relaxed) > 0 && LEFT.with(Cell::get) != 0 && !CALM.with(Cell::get) {
        let shared = watched(|w| {
            let n = RANGES.load(Ordering::Relaxed);
            let i = w.ranges[..n].partition_point(|r| r.0 <= at);
            if i == 0 || w.ranges[i - 1].1 <= at {
                return false;
            }
            let n = CHANGED.load(Ordering::Relaxed);
            if n < w.changed.len() && !w.changed[..n].contains(&at) {
                w.changed[n] = at;
                CHANGED.store(n + 1, Ordering::Relaxed);
            }
            true
        });
        if shared {
            ask(Why::Shared(at));
        }
    }
}

macro_rules! called {
    ($to:ident: $($name:ident)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name(at: usize) {
                $to(at);
            }
        )*
    };
}

called! { load:
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
}

called! { store:
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

const SYS_SCHED_YIELD: i64 = 24;
const SYS_FUTEX: i64 = 202;
const EAGAIN: i32 = 11;

/// What the standard library makes system calls with, locks among them.
///
/// # Safety
/// As syscall(2).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    // FUTEX_WAIT, FUTEX_WAIT_BITSET
    if n == SYS_FUTEX && matches!(b & 0x7f, 0 | 9) && LEFT.try_with(Cell::get).unwrap_or(0) != 0 {
        ask(Why::Blocked);
        *__errno_location() = EAGAIN;
        return -1;
    }
    raw(n, a, b, c, d, e, f)
}

/// # Safety
/// As sched_yield(2).
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if LEFT.try_with(Cell::get).unwrap_or(0) != 0 {
        ask(Why::Blocked);
        return 0;
    }
    raw(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0) as i32
}

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a,
        in("rsi") b,
        in("rdx") c,
        in("r10") d,
        in("r8") e,
        in("r9") f,
        lateout("rcx") _,
        lateout("r11") _,
        options(nostack),
    );
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
