//! Single-threaded execution of the code under test, with every I/O completion a choice point, and a
//! stateless depth-first exploration of those choices.
use crate::store::{McStore, Mutation};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .build()
        .unwrap();
}

/// Run a future whose I/O completes at once, on a runtime of this thread only.
pub fn run_free<T>(fut: impl Future<Output = T>) -> T {
    RT.with(|rt| rt.block_on(fut))
}

pub enum RunEnd<T> {
    Done(T),
    /// No operation is outstanding, and the future is not ready.
    Stuck,
}

/// One schedule: `choices` are taken at the choice points in order, then choice 0 for ever.
pub struct Trace {
    pub taken: Vec<usize>,
    pub widths: Vec<usize>,
    pub shown: Vec<String>,
}

/// Run `fut` under a schedule. At each choice point the options are the outstanding operations
/// (in name order) and, if the writer still has mutations, its next one. A choice point is reached only
/// when the future and every task it spawned wait for I/O.
pub fn run_sched<T>(
    fut: impl Future<Output = T>,
    store: &McStore,
    writer: &[Mutation],
    root: &str,
    prefix: &[usize],
) -> (RunEnd<T>, Trace, usize) {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut fut: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(fut);
    let mut tr = Trace {
        taken: vec![],
        widths: vec![],
        shown: vec![],
    };
    let mut written = 0;
    let mut writing = false;
    let end = run_free(async {
        loop {
            flag.0.store(false, Ordering::SeqCst);
            if let Poll::Ready(v) = fut.as_mut().poll(&mut Context::from_waker(&waker)) {
                return RunEnd::Done(v);
            }
            // let spawned tasks run until they wait too
            for _ in 0..3 {
                tokio::task::yield_now().await;
            }
            if flag.0.load(Ordering::SeqCst) {
                continue;
            }
            let opts = store.outstanding();
            if opts.is_empty() {
                return RunEnd::Stuck;
            }
            let width = opts.len() + usize::from(written < writer.len());
            let c = if width == 1 {
                0
            } else {
                let d = tr.taken.len();
                let c = prefix.get(d).copied().unwrap_or(0);
                assert!(c < width, "replayed choice {c} of {width} at depth {d}");
                tr.taken.push(c);
                tr.widths.push(width);
                c
            };
            // choice 0 goes on with whoever moved last: anything else is a deviation
            let pick = match (writing && written < writer.len(), c) {
                (true, 0) => opts.len(),
                (true, c) => c - 1,
                (false, c) => c,
            };
            writing = pick == opts.len();
            if !writing {
                if width > 1 {
                    tr.shown.push(opts[pick].1.clone());
                }
                store.release(opts[pick].0);
            } else {
                let m = match &writer[written] {
                    Mutation::Put(p, b) => Mutation::Put(format!("{root}/{p}"), b.clone()),
                    Mutation::Del(p) => Mutation::Del(format!("{root}/{p}")),
                };
                m.apply(&mut store.inner.lock().unwrap().files);
                tr.shown.push(format!("WRITER {}", writer[written].show()));
                written += 1;
            }
        }
    });
    (end, tr, written)
}

/// The next schedule in depth-first order whose number of non-default choices is at most `bound`.
pub fn next_prefix(tr: &Trace, bound: usize) -> Option<Vec<usize>> {
    let mut t = tr.taken.clone();
    let mut i = t.len();
    while i > 0 {
        i -= 1;
        let dev_before = t[..i].iter().filter(|c| **c != 0).count();
        if t[i] + 1 < tr.widths[i] && dev_before < bound {
            t[i] += 1;
            t.truncate(i + 1);
            return Some(t);
        }
    }
    None
}
