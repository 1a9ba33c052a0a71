//! A controlled scheduler for real threads: exactly one thread runs between two
//! yield points, and every order of the threads at the yield points is explored.
//!
//! A thread that sleeps in the kernel while it holds the token waits for a lock of
//! the pattern; another thread is then chosen. When no thread is left to choose,
//! the schedule has deadlocked.

pub mod hooks;

use std::cell::{Cell, RefCell};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, OnceLock};
use std::thread::Thread;
use std::time::{Duration, Instant};

const PARKED: u32 = 0;
const RUNNING: u32 = 1;
const DONE: u32 = 2;
/// Every thread asleep for so long, with none to choose: they will never go on.
const DEADLOCK: Duration = Duration::from_secs(3);

pub struct Slot {
    state: AtomicU32,
    token: AtomicBool,
    ticks: AtomicU64,
    thread: OnceLock<Thread>,
    stat: OnceLock<File>,
}

impl Slot {
    fn new() -> Arc<Self> {
        Arc::new(Slot {
            // not yet at its first yield point
            state: AtomicU32::new(RUNNING),
            token: AtomicBool::new(true),
            ticks: AtomicU64::new(0),
            thread: OnceLock::new(),
            stat: OnceLock::new(),
        })
    }

    fn wait(&self) {
        self.state.store(PARKED, SeqCst);
        while !self.token.swap(false, SeqCst) {
            std::thread::park();
        }
    }

    fn grant(&self) {
        self.state.store(RUNNING, SeqCst);
        self.token.store(true, SeqCst);
        self.thread.get().expect("started").unpark();
    }

    /// Asleep in the kernel, not at one of our yield points.
    fn asleep(&self) -> bool {
        if self.token.load(SeqCst) {
            return false;
        }
        let Some(f) = self.stat.get() else { return false };
        let mut b = [0u8; 256];
        let Ok(n) = f.read_at(&mut b, 0) else { return false };
        // pid (name) state ...
        let Some(p) = b[..n].iter().rposition(|c| *c == b')') else { return false };
        b.get(p + 2) == Some(&b'S') && self.state.load(SeqCst) == RUNNING
    }
}

thread_local! {
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}

/// A yield point: the code under test called back into user code.
pub fn tick() {
    let s = SLOT.with(|s| s.borrow().clone());
    if let Some(s) = s {
        s.ticks.fetch_add(1, SeqCst);
        s.wait();
    }
}

thread_local! {
    static FINE: Cell<bool> = const { Cell::new(false) };
}

/// Within `f`, this thread also yields before each of its atomic operations.
pub fn each_atomic<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            FINE.set(false);
        }
    }
    let _off = Off;
    FINE.set(true);
    f()
}

/// Called before every atomic operation of instrumented code.
pub(crate) fn atomic() {
    if FINE.get() {
        tick();
    }
}

/// Is the code under test built with thread instrumentation?
pub fn instrumented() -> bool {
    hooks::SEEN.load(SeqCst)
}

pub struct Outcome {
    pub results: Vec<String>,
    pub steps: u64,
    pub deadlock: bool,
    /// times a thread was found waiting for a lock of the pattern
    pub waits: u64,
}

pub type Job = Box<dyn FnOnce() -> String + Send>;

/// Wait until no thread moves. Gives the threads at a yield point.
fn settle(slots: &[Arc<Slot>]) -> (Vec<usize>, bool) {
    let mut spins = 0u32;
    let mut asleep_since: Option<Instant> = None;
    loop {
        let busy = slots.iter().any(|s| s.state.load(SeqCst) == RUNNING);
        if !busy {
            break;
        }
        spins += 1;
        if spins < 300 {
            std::hint::spin_loop();
            continue;
        }
        if spins < 330 {
            std::thread::yield_now();
            continue;
        }
        // every running thread asleep, seen three times in a row
        let mut still = true;
        for _ in 0..3 {
            still &= slots.iter().all(|s| s.state.load(SeqCst) != RUNNING || s.asleep());
            if !still {
                break;
            }
            std::thread::yield_now();
        }
        if !still {
            asleep_since = None;
            std::thread::yield_now();
            continue;
        }
        if slots.iter().any(|s| s.state.load(SeqCst) == PARKED) {
            break;
        }
        if !slots.iter().any(|s| s.state.load(SeqCst) == RUNNING) {
            break;
        }
        let since = *asleep_since.get_or_insert_with(Instant::now);
        if since.elapsed() > DEADLOCK {
            return (vec![], true);
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let v = (0..slots.len()).filter(|i| slots[*i].state.load(SeqCst) == PARKED).collect();
    (v, false)
}

/// Run the jobs under the chooser, which is asked at every point with a choice to make.
pub fn run(jobs: Vec<Job>, choose: &mut dyn FnMut(&[usize], Option<usize>) -> usize) -> Outcome {
    let n = jobs.len();
    let slots: Vec<_> = (0..n).map(|_| Slot::new()).collect();
    let results: Arc<Vec<OnceLock<String>>> = Arc::new((0..n).map(|_| OnceLock::new()).collect());
    let mut handles = vec![];
    for (i, job) in jobs.into_iter().enumerate() {
        let slot = slots[i].clone();
        let results = results.clone();
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                let _ = slot.thread.set(std::thread::current());
                let _ = slot.stat.set(File::open("/proc/thread-self/stat").expect("own state"));
                SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
                slot.token.store(false, SeqCst);
                slot.wait();
                let r = mc_core::guarded(job).unwrap_or_else(|e| e);
                SLOT.with(|s| *s.borrow_mut() = None);
                let _ = results[i].set(r);
                slot.state.store(DONE, SeqCst);
            })
            .expect("spawn");
        handles.push(h);
    }
    let mut cur = None;
    let mut steps = 0;
    let mut waits = 0;
    loop {
        let (ready, dead) = settle(&slots);
        if dead {
            return Outcome {
                results: results.iter().map(|r| r.get().cloned().unwrap_or("blocked forever".into())).collect(),
                steps,
                deadlock: true,
                waits,
            };
        }
        waits += slots.iter().filter(|s| s.state.load(SeqCst) == RUNNING).count() as u64;
        if ready.is_empty() {
            if slots.iter().all(|s| s.state.load(SeqCst) == DONE) {
                break;
            }
            continue;
        }
        let k = choose(&ready, cur);
        steps += 1;
        cur = Some(k);
        slots[k].grant();
    }
    for h in handles {
        let _ = h.join();
    }
    Outcome {
        results: results.iter().map(|r| r.get().cloned().unwrap_or_default()).collect(),
        steps,
        deadlock: false,
        waits,
    }
}

struct Point {
    /// the threads that can go on, the current one first
    order: Vec<usize>,
    chosen: usize,
    /// choosing anything but the first takes the token from a thread that could go on
    preempts: bool,
}

pub struct Explored {
    pub schedules: u64,
    pub points: u64,
    pub steps: u64,
    pub waits: u64,
    pub diverged: u64,
    pub cut: bool,
}

/// Every schedule with at most `bound` preemptions, depth first over the choices.
/// `visit` judges each one and says whether to go on.
pub fn explore(bound: usize, limit: u64, mut jobs: impl FnMut() -> Vec<Job>, mut visit: impl FnMut(&[usize], Outcome) -> bool) -> Explored {
    // so many steps in a row of one thread, and the others get their turn: it may be
    // waiting for them
    const TURN: usize = 2000;
    let mut path: Vec<Point> = vec![];
    let mut ex = Explored { schedules: 0, points: 0, steps: 0, waits: 0, diverged: 0, cut: false };
    loop {
        let mut at = 0;
        let mut off = false;
        let mut trace: Vec<usize> = vec![];
        let mut turn = 0;
        let out = run(jobs(), &mut |ready, cur| {
            let mut order: Vec<usize> = ready.to_vec();
            let mut preempts = false;
            if let Some(c) = cur
                && let Some(p) = order.iter().position(|x| *x == c)
            {
                order.remove(p);
                if turn < TURN {
                    order.insert(0, c);
                    preempts = true;
                } else {
                    order.push(c);
                }
            }
            if at < path.len() && path[at].order != order {
                // a lock was handed over differently from the run before
                off = true;
                path.truncate(at);
            }
            if at >= path.len() {
                path.push(Point { order: order.clone(), chosen: 0, preempts });
            }
            let k = path[at].order[path[at].chosen];
            at += 1;
            turn = if cur == Some(k) { turn + 1 } else { 0 };
            trace.push(k);
            k
        });
        path.truncate(at);
        ex.schedules += 1;
        ex.points += trace.len() as u64;
        ex.steps += out.steps;
        ex.waits += out.waits;
        ex.diverged += off as u64;
        if !visit(&trace, out) {
            return ex;
        }
        if ex.schedules >= limit {
            ex.cut = true;
            return ex;
        }
        // the next schedule: the deepest choice that has an alternative within the bound
        loop {
            let Some(p) = path.last() else { return ex };
            let before: usize = path[..path.len() - 1].iter().filter(|p| p.preempts && p.chosen > 0).count();
            if p.chosen + 1 < p.order.len() && (!p.preempts || before < bound) {
                path.last_mut().unwrap().chosen += 1;
                break;
            }
            path.pop();
        }
    }
}
