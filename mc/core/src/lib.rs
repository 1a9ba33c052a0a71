//! Engine shared by all checks: supervision, exhaustive work distribution,
//! counters, evidence and violation reports.  Knows nothing about neure.

pub mod huge;
pub mod sink;

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub const WORKERS: usize = 8;
const MAX_VIOLATIONS: u64 = 5;
/// A single work item takes milliseconds; one that does not finish in this time is stuck.
const STUCK_SECS: u64 = 60;
static BEATS: [AtomicU64; WORKERS] = [const { AtomicU64::new(0) }; WORKERS];

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CUR: RefCell<(String, usize, usize)> = const { RefCell::new((String::new(), 0, 0)) };
    /// leaf steps left before the current execution counts as not terminating
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
}

pub struct StepLimit;

/// One step of the implementation (a leaf pattern was tried).
#[inline]
pub fn step() {
    STEPS.with(|s| s.set(s.get() + 1));
    BUDGET.with(|b| {
        let v = b.get();
        if v == 0 {
            std::panic::panic_any(StepLimit);
        }
        b.set(v - 1);
    });
}

#[inline]
pub fn set_budget(n: u64) {
    BUDGET.with(|b| b.set(n));
}

pub fn take_steps() -> u64 {
    STEPS.with(|s| s.replace(0))
}

/// Run code of the implementation; a panic becomes an error text.
#[inline]
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.is::<StepLimit>() {
                Err("does not terminate: step limit reached".into())
            } else {
                Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))
            }
        }
    }
}

struct Known {
    entries: Vec<(String, String)>,
}

impl Known {
    fn load(prop: &str) -> Self {
        let mut entries = vec![];
        if let Ok(s) = std::fs::read_to_string(verif().join("known-findings.txt")) {
            for l in s.lines() {
                // finding: property=<id> key=<key> <text>
                if let Some(r) = l.strip_prefix("finding: property=") {
                    let mut it = r.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let k = it.next().unwrap_or("").trim_start_matches("key=");
                    let t = it.next().unwrap_or("");
                    if p == prop {
                        entries.push((k.to_string(), t.to_string()));
                    }
                }
            }
        }
        Known { entries }
    }
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub struct Rep {
    pub prop: String,
    pub tier: Tier,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub matched: AtomicU64,
    pub failed: AtomicU64,
    pub violations: AtomicU64,
    outcomes: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    families: Mutex<Vec<(String, u64, u64)>>,
    notes: Mutex<Vec<String>>,
    known: Known,
    known_hit: Mutex<HashSet<String>>,
    stop: AtomicBool,
    digests: Option<Mutex<Vec<(String, usize, String)>>>,
    slot: Option<std::fs::File>,
    only: Option<(String, usize)>,
    fam_seq: AtomicUsize,
    start: Instant,
}

/// Counters of one worker, merged when an item is finished.
#[derive(Default)]
pub struct Local {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub matched: u64,
    pub failed: u64,
    pub outcomes: HashSet<u64>,
    /// of everything observed on the item, in order
    pub digest: u64,
    /// everything observed on the item, when asked for
    pub trace: Option<Vec<String>>,
}

impl Rep {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }

    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }

    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s());
        }
    }

    /// Report a violation of the property. `key` identifies the failing case.
    pub fn violation(&self, key: &str, text: &str) {
        if let Some((_, t)) = self.known.entries.iter().find(|(k, _)| k == key) {
            if self.known_hit.lock().unwrap().insert(key.to_string()) {
                println!("KNOWN-FINDING: property={} {}", self.prop, t);
            }
            return;
        }
        let n = self.violations.fetch_add(1, Relaxed);
        if n >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
            return;
        }
        let (fam, idx, _) = CUR.with(|c| c.borrow().clone());
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.txt", self.prop, n));
        let body = format!(
            "property={}\nfamily={}\nitem={}\nkey={}\n{}\n\nreplay: bash /verif/run.sh {} replay {}\n",
            self.prop, fam, idx, key, text, self.prop, path.display()
        );
        let _ = std::fs::write(&path, body);
        let out = std::io::stdout();
        let mut out = out.lock();
        let _ = writeln!(out, "VIOLATION property={} replay={}", self.prop, path.display());
        let _ = writeln!(out, "  key={key} {}", text.replace('\n', "\n  "));
        let _ = out.flush();
        if n + 1 >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
        }
    }

    pub fn merge(&self, l: Local) {
        self.states.fetch_add(l.states, Relaxed);
        self.transitions.fetch_add(l.transitions, Relaxed);
        self.traces.fetch_add(l.traces, Relaxed);
        self.matched.fetch_add(l.matched, Relaxed);
        self.failed.fetch_add(l.failed, Relaxed);
        if !l.outcomes.is_empty() {
            let mut o = self.outcomes.lock().unwrap();
            if o.len() < 200_000 {
                o.extend(l.outcomes);
            }
        }
    }

    /// Explore every item of a finite family. `mk` is called once per worker.
    pub fn explore<T: Sync, F>(&self, family: &str, items: &[T], f: F)
    where
        F: Fn(&Rep, &T, &mut Local) + Sync,
    {
        self.explore_n(family, items.len(), |r, i, l| f(r, &items[i], l))
    }

    pub fn explore_n<F>(&self, family: &str, n: usize, f: F)
    where
        F: Fn(&Rep, usize, &mut Local) + Sync,
    {
        if n == 0 {
            return;
        }
        let seq = self.fam_seq.fetch_add(1, Relaxed);
        if let Some((fam, _)) = &self.only
            && fam != family
        {
            return;
        }
        let before = (self.states.load(Relaxed), self.traces.load(Relaxed));
        let next = AtomicUsize::new(0);
        let running = AtomicUsize::new(WORKERS);
        let at: Vec<AtomicUsize> = (0..WORKERS).map(|_| AtomicUsize::new(usize::MAX)).collect();
        let this = self;
        let f = &f;
        std::thread::scope(|sc| {
            for w in 0..WORKERS {
                let next = &next;
                let running = &running;
                let at = &at;
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n || this.stopped() {
                                break;
                            }
                            if let Some((_, only)) = &this.only
                                && *only != i
                            {
                                continue;
                            }
                            at[w].store(i, Relaxed);
                            if let Some(s) = &this.slot {
                                let rec = format!("{family}\u{1}{i}\u{1}{seq}\u{1}");
                                let _ = s.write_at(rec.as_bytes(), (w * 256) as u64);
                            }
                            CUR.with(|c| *c.borrow_mut() = (family.to_string(), i, w));
                            let mut l = Local::default();
                            if this.only.is_some() && this.digests.is_some() {
                                l.trace = Some(vec![]);
                            }
                            take_steps();
                            let r = guarded(|| f(this, i, &mut l));
                            set_budget(u64::MAX);
                            if let Err(e) = r {
                                this.violation(
                                    &format!("{family}#{i}"),
                                    &format!("{e} while exploring {family} item {i}"),
                                );
                            }
                            l.transitions += take_steps();
                            if let Some(d) = &this.digests {
                                let mut o = 0u64;
                                for x in &l.outcomes {
                                    o ^= x;
                                }
                                let mut d = d.lock().unwrap();
                                d.push((
                                    family.to_string(),
                                    i,
                                    format!("{:x} {o:x} {} {} {} {}", l.digest, l.states, l.traces, l.matched, l.failed),
                                ));
                                for t in l.trace.take().unwrap_or_default() {
                                    d.push((family.to_string(), i, t));
                                }
                            }
                            this.merge(l);
                        }
                        at[w].store(usize::MAX, Relaxed);
                        running.fetch_sub(1, Relaxed);
                    })
                    .expect("spawn worker");
            }
            // watchdog: the same item on the same worker for too long
            let at = &at;
            let running = &running;
            sc.spawn(move || {
                let mut seen = vec![(usize::MAX, Instant::now(), 0); WORKERS];
                while running.load(Relaxed) > 0 {
                    std::thread::sleep(Duration::from_millis(5));
                    for w in 0..WORKERS {
                        let i = at[w].load(Relaxed);
                        let b = BEATS[w].load(Relaxed);
                        if i != seen[w].0 || b != seen[w].2 {
                            seen[w] = (i, Instant::now(), b);
                        } else if i != usize::MAX && seen[w].1.elapsed().as_secs() > STUCK_SECS {
                            CUR.with(|c| *c.borrow_mut() = (family.to_string(), i, w));
                            this.violation(
                                &format!("{family}#{i}"),
                                &format!(
                                    "stuck: {family} item {i} did not finish in {STUCK_SECS} s"
                                ),
                            );
                            this.evidence();
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        let after = (self.states.load(Relaxed), self.traces.load(Relaxed));
        self.families.lock().unwrap().push((
            format!("{family} ({n} items)"),
            after.0 - before.0,
            after.1 - before.1,
        ));
    }

    /// A long item says that it is still going on.
    pub fn beat(&self) {
        let w = CUR.with(|c| c.borrow().2);
        if let Some(b) = BEATS.get(w) {
            b.fetch_add(1, Relaxed);
        }
    }

    /// Give up at once: threads that will never end are left behind.
    pub fn abort(&self) -> ! {
        self.evidence();
        std::process::exit(if self.violations.load(Relaxed) > 0 { 1 } else { 2 });
    }

    fn evidence(&self) {
        let mut s = String::new();
        let samples = self.samples.lock().unwrap();
        let fams = self.families.lock().unwrap();
        let notes = self.notes.lock().unwrap();
        let seed: i64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or(1);
        s.push_str("{\n");
        s.push_str(&format!(" \"property\": {},\n", js(&self.prop)));
        s.push_str(&format!(
            " \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n",
            if self.quick() { "quick" } else { "thorough" }
        ));
        s.push_str(&format!(
            " \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n",
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed)
        ));
        s.push_str(&format!(
            "  \"executions_succeeding\": {},\n  \"executions_failing\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n",
            self.matched.load(Relaxed),
            self.failed.load(Relaxed),
            self.outcomes.lock().unwrap().len(),
            !self.stopped() && self.only.is_none()
        ));
        s.push_str("  \"rule\": \"states: distinct configurations (pattern or object, input, start position, history or schedule) enumerated; transitions: steps of the implementation observed while executing them (leaf attempts or operations); traces: executions whose whole observable outcome was compared with the reference model\",\n");
        s.push_str("  \"families\": [");
        for (i, (f, st, tr)) in fams.iter().enumerate() {
            if i > 0 {
                s.push_str(", ");
            }
            s.push_str(&format!(
                "{{\"family\": {}, \"states\": {st}, \"traces\": {tr}}}",
                js(f)
            ));
        }
        s.push_str("],\n  \"samples\": [");
        for (i, x) in samples.iter().enumerate() {
            if i > 0 {
                s.push_str(", ");
            }
            s.push_str(&js(x));
        }
        s.push_str("]\n },\n \"assumptions\": [");
        for (i, x) in notes.iter().enumerate() {
            if i > 0 {
                s.push_str(", ");
            }
            s.push_str(&js(x));
        }
        s.push_str(&format!(
            "],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
            self.violations.load(Relaxed),
            self.start.elapsed().as_secs_f64()
        ));
        let dir = verif().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.prop)), s);
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hash64<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn replay_target(file: &str) -> Option<(String, usize)> {
    let s = std::fs::read_to_string(file).ok()?;
    let get = |k: &str| {
        s.lines()
            .find_map(|l| l.strip_prefix(k))
            .map(|v| v.to_string())
    };
    Some((get("family=")?, get("item=")?.parse().ok()?))
}

/// Entry point of every check binary: `<bin> <ID> quick|thorough|replay [file]`.
pub fn main(checks: &[(&str, fn(&Rep))]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} <ID> quick|thorough|replay [file]", args[0]);
        std::process::exit(2);
    }
    let id = args[1].clone();
    let Some((_, run)) = checks.iter().find(|(k, _)| *k == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let (tier, only) = match args[2].as_str() {
        "thorough" => (Tier::Thorough, None),
        "replay" => {
            let t = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
                Tier::Thorough
            } else {
                Tier::Quick
            };
            (t, replay_target(args.get(3).map(|s| s.as_str()).unwrap_or("")))
        }
        _ => (Tier::Quick, None),
    };
    let slot_path = std::env::temp_dir().join(format!("mc-slot-{}-{}", id, std::process::id()));
    if std::env::var("MC_CHILD").is_err() {
        std::process::exit(supervise(&id, &args, &slot_path));
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
    let slot = std::env::var("MC_SLOT").ok().and_then(|p| {
        std::fs::OpenOptions::new()
            .create(true)
            .truncate(true)
            .write(true)
            .open(p)
            .ok()
    });
    let rep = Rep {
        prop: id.clone(),
        tier,
        states: 0.into(),
        transitions: 0.into(),
        traces: 0.into(),
        matched: 0.into(),
        failed: 0.into(),
        violations: 0.into(),
        outcomes: Mutex::new(HashSet::new()),
        samples: Mutex::new(vec![]),
        families: Mutex::new(vec![]),
        notes: Mutex::new(vec![]),
        known: Known::load(&id),
        known_hit: Mutex::new(HashSet::new()),
        stop: AtomicBool::new(false),
        digests: std::env::var_os("MC_DIGEST").map(|_| Mutex::new(vec![])),
        slot,
        only,
        fam_seq: AtomicUsize::new(0),
        start: Instant::now(),
    };
    if std::env::var("MC_LOG").as_deref() != Ok("off") {
        sink::install();
    }
    let r = guarded(|| run(&rep));
    if let Err(e) = r {
        rep.violation("driver", &format!("{e} outside of a work item"));
    }
    // vacuity guard: an exploration that explored nothing is no verdict
    if rep.only.is_none() && rep.violations.load(Relaxed) == 0 {
        if rep.traces.load(Relaxed) == 0 || rep.matched.load(Relaxed) == 0 {
            eprintln!("nothing explored: the check is vacuous");
            std::process::exit(2);
        }
    }
    rep.evidence();
    if let Some(p) = std::env::var_os("MC_DIGEST") {
        let mut d = rep.digests.as_ref().unwrap().lock().unwrap();
        // stable: what was seen on one item keeps its order
        d.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
        let mut s = String::new();
        for (f, i, t) in d.iter() {
            s.push_str(&format!("{f}\t{i}\t{t}\n"));
        }
        std::fs::write(p, s).expect("digests written");
    }
    let v = rep.violations.load(Relaxed);
    println!(
        "{} {:?}: states={} transitions={} traces={} succeeding={} failing={} distinct_outcomes={} violations={} in {:.1} s",
        id,
        tier,
        rep.states.load(Relaxed),
        rep.transitions.load(Relaxed),
        rep.traces.load(Relaxed),
        rep.matched.load(Relaxed),
        rep.failed.load(Relaxed),
        rep.outcomes.lock().unwrap().len(),
        v,
        rep.start.elapsed().as_secs_f64()
    );
    for (f, s, t) in rep.families.lock().unwrap().iter() {
        println!("  {f}: states={s} traces={t}");
    }
    let n = sink::RECORDS.load(Relaxed);
    if n > 0 {
        println!("  {n} log records of {} bytes", sink::BYTES.load(Relaxed));
    }
    std::process::exit(if v > 0 { 1 } else { 0 });
}

fn supervise(id: &str, args: &[String], slot: &Path) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let status = std::process::Command::new(exe)
        .args(&args[1..])
        .env("MC_CHILD", "1")
        .env("MC_SLOT", slot)
        .status();
    let recs = std::fs::read(slot).unwrap_or_default();
    let _ = std::fs::remove_file(slot);
    match status {
        Ok(s) if s.code().is_some() => s.code().unwrap(),
        Ok(s) => {
            // killed by a signal: stack overflow, abort or out of memory in the code under test
            let dir = verif().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{id}-crash.txt"));
            let mut body = format!("property={id}\nprocess ended with {s}\n");
            let mut first = true;
            for w in 0..WORKERS {
                if let Some(r) = recs.get(w * 256..) {
                    let r = String::from_utf8_lossy(&r[..r.len().min(256)]).to_string();
                    let mut it = r.split('\u{1}');
                    if let (Some(f), Some(i)) = (it.next(), it.next()) {
                        let f = f.trim_matches('\0');
                        if f.is_empty() {
                            continue;
                        }
                        if first {
                            body.push_str(&format!("family={f}\nitem={i}\n"));
                            first = false;
                        } else {
                            body.push_str(&format!("also running: family {f} item {i}\n"));
                        }
                    }
                }
            }
            let _ = std::fs::write(&path, &body);
            println!("VIOLATION property={id} replay={}", path.display());
            println!("  process ended with {s}");
            1
        }
        Err(e) => {
            eprintln!("cannot start the check: {e}");
            2
        }
    }
}
