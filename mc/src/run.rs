//! Worker pool with a watchdog, and panics turned into results.
use crate::report::Report;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

/// The C library's `getrandom`, replaced so that hash seeds (and with them every iteration order of the
/// code under test) are a fixed function of the thread and the number of maps made on it.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = SALT.load(Ordering::Relaxed);
    for i in 0..len {
        unsafe { *buf.add(i) = (s.wrapping_mul(31).wrapping_add(i * 7 + 11) & 0xff) as u8 };
    }
    len as isize
}
pub static SALT: AtomicUsize = AtomicUsize::new(0);

/// Allocations beyond this are taken for an attempt to exhaust memory.
const MAX_ALLOC: usize = 3 << 30;
static OVERSIZE: AtomicUsize = AtomicUsize::new(0);
struct Alloc;
/// An oversized request never returns: its thread sleeps until the watchdog has reported it.
#[cold]
fn oversize(n: usize) {
    OVERSIZE.store(n, Ordering::SeqCst);
    loop {
        std::thread::sleep(Duration::from_secs(1));
    }
}
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > MAX_ALLOC {
            oversize(l.size());
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > MAX_ALLOC {
            oversize(l.size());
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > MAX_ALLOC {
            oversize(n);
        }
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

pub fn quiet_panics() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if GUARDS.with(|g| g.get()) == 0 {
            default(i);
        }
    }));
}

thread_local! {
    static GUARDS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDS.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDS.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        format!("PANIC: {m}")
    })
}

/// Run a closure on a fresh thread, so that its hash seeds start from the same point every time.
pub fn fresh<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap()
}

thread_local! {
    static TID: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}
/// A task on the pool has got this far: the watchdog's clock starts again.
pub fn beat(rep: &Report, what: impl FnOnce() -> String) {
    let t = TID.with(|t| t.get());
    if t != u64::MAX {
        rep.enter(t, what());
    }
}

/// Run every task on a pool. A task that takes longer than `limit_s` ends the run as a violation.
pub fn pool<T: Send + Sync + 'static>(
    rep: &Arc<Report>,
    tasks: Vec<T>,
    limit_s: u64,
    show: impl Fn(&T) -> String + Send + Sync + 'static,
    f: impl Fn(&T) + Send + Sync + 'static,
) {
    let tasks = Arc::new(tasks);
    let f = Arc::new(f);
    let show = Arc::new(show);
    let next = Arc::new(AtomicUsize::new(0));
    let n = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4);
    let mut hs = vec![];
    for tid in 0..n as u64 {
        let (tasks, f, next, rep, show) = (
            tasks.clone(),
            f.clone(),
            next.clone(),
            rep.clone(),
            show.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= tasks.len() || rep.stop() {
                        break;
                    }
                    TID.with(|t| t.set(tid));
                    rep.enter(tid, show(&tasks[i]));
                    if let Err(p) = guard(|| f(&tasks[i])) {
                        rep.violation(format!("{}: {p}", show(&tasks[i])), show(&tasks[i]));
                    }
                    rep.leave(tid);
                })
                .unwrap(),
        );
    }
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(5));
        let big = OVERSIZE.load(Ordering::SeqCst);
        if big > 0 {
            // whoever asked is stuck; the others go on
            std::thread::sleep(Duration::from_millis(1500));
            let w = rep.hung_millis(1000).unwrap_or("?".into());
            rep.violation(format!("asks for {big} bytes of memory at once: {w}"), w);
            let code = rep.finish("run ended by an oversized allocation", false, &[]);
            std::process::exit(code);
        }
        if let Some(w) = rep.hung(limit_s) {
            rep.violation(format!("hang: not done after {limit_s} s: {w}"), w);
            let code = rep.finish("run ended by a hang", false, &[]);
            std::process::exit(code);
        }
    }
}
