//! A controlled scheduler for two threads that run the real code.
//!
//! Yield points are every heap allocation, reallocation and release the code makes and every call
//! it makes of the `log` facade. Only the thread that holds the token runs between two points; a
//! plan says after how many points the token changes hands.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::OnceLock;
use std::thread::Thread;
use std::time::{Duration, Instant};

thread_local! {
    static CTL: Cell<(*const Ctl, usize)> = const { Cell::new((null(), 0)) };
}

pub struct Hook;
#[global_allocator]
static HOOK: Hook = Hook;

unsafe impl GlobalAlloc for Hook {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        point();
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        System.realloc(p, l, n)
    }
}

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {
        point();
    }
    fn flush(&self) {}
}
pub fn logging() {
    let _ = log::set_logger(&Log);
    log::set_max_level(log::LevelFilter::Trace);
}

#[inline]
pub fn point() {
    let _ = CTL.try_with(|c| {
        let (p, me) = c.get();
        if !p.is_null() {
            c.set((null(), 0));
            // the Ctl outlives the controlled region of both threads
            unsafe { (*p).yield_point(me) };
            c.set((p, me));
        }
    });
}

const NOBODY: usize = 2;

struct Ctl {
    turn: AtomicUsize,
    done: [AtomicBool; 2],
    free: AtomicBool,
    progress: AtomicU64,
    points: [AtomicUsize; 2],
    plan: Vec<usize>,
    seg: AtomicUsize,
    left: AtomicUsize,
    threads: [OnceLock<Thread>; 2],
    limit: Duration,
}

impl Ctl {
    fn yield_point(&self, me: usize) {
        if self.free.load(SeqCst) {
            return;
        }
        self.points[me].fetch_add(1, SeqCst);
        self.progress.fetch_add(1, SeqCst);
        let seg = self.seg.load(SeqCst);
        if seg >= self.plan.len() || self.left.fetch_sub(1, SeqCst) != 1 {
            return;
        }
        self.seg.store(seg + 1, SeqCst);
        self.left.store(self.plan.get(seg + 1).copied().unwrap_or(usize::MAX), SeqCst);
        if !self.done[1 - me].load(SeqCst) {
            self.give(1 - me);
            self.wait(me);
        }
    }
    fn give(&self, to: usize) {
        self.progress.fetch_add(1, SeqCst);
        self.turn.store(to, SeqCst);
        if let Some(t) = self.threads[to].get() {
            t.unpark();
        }
    }
    /// Waits for the token. A holder that makes no progress waits for a lock that this thread has
    /// (the point was inside a critical section); then both run on without control.
    fn wait(&self, me: usize) {
        let mut seen = self.progress.load(SeqCst);
        let mut since = Instant::now();
        loop {
            let turn = self.turn.load(SeqCst);
            if turn == me || self.free.load(SeqCst) {
                return;
            }
            std::thread::park_timeout(self.limit);
            let now = self.progress.load(SeqCst);
            if now != seen || turn == NOBODY {
                seen = now;
                since = Instant::now();
            } else if since.elapsed() >= self.limit {
                self.free.store(true, SeqCst);
                return;
            }
        }
    }
}

pub struct Ran<T> {
    pub results: [Option<T>; 2],
    pub points: [usize; 2],
    pub blocked: bool,
    pub switches: usize,
}

/// Runs the two bodies on two new threads under a plan; `first` starts.
pub fn run<T: Send>(bodies: [&(dyn Fn() -> T + Sync); 2], first: usize, plan: &[usize], limit: Duration) -> Ran<T> {
    let ctl = Ctl {
        turn: AtomicUsize::new(NOBODY),
        done: [AtomicBool::new(false), AtomicBool::new(false)],
        free: AtomicBool::new(false),
        progress: AtomicU64::new(0),
        points: [AtomicUsize::new(0), AtomicUsize::new(0)],
        plan: plan.to_vec(),
        seg: AtomicUsize::new(0),
        left: AtomicUsize::new(plan.first().copied().unwrap_or(usize::MAX)),
        threads: [OnceLock::new(), OnceLock::new()],
        limit,
    };
    let results = std::thread::scope(|sc| {
        let c = &ctl;
        let hs: Vec<_> = (0..2)
            .map(|me| {
                let body = bodies[me];
                sc.spawn(move || {
                    c.wait(me);
                    struct End<'a>(&'a Ctl, usize);
                    impl Drop for End<'_> {
                        fn drop(&mut self) {
                            let _ = CTL.try_with(|x| x.set((null(), 0)));
                            self.0.done[self.1].store(true, SeqCst);
                            if !self.0.done[1 - self.1].load(SeqCst) {
                                self.0.give(1 - self.1);
                            }
                        }
                    }
                    let end = End(c, me);
                    CTL.with(|x| x.set((c, me)));
                    let r = body();
                    drop(end);
                    r
                })
            })
            .collect();
        for (i, h) in hs.iter().enumerate() {
            let _ = ctl.threads[i].set(h.thread().clone());
        }
        ctl.give(first);
        let mut it = hs.into_iter().map(|h| h.join().ok());
        [it.next().unwrap(), it.next().unwrap()]
    });
    Ran {
        results,
        points: [ctl.points[0].load(SeqCst), ctl.points[1].load(SeqCst)],
        blocked: ctl.free.load(SeqCst),
        switches: ctl.seg.load(SeqCst),
    }
}
