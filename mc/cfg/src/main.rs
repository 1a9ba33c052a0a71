//! P24: the same exploration in every build configuration of the library, and the
//! same observations on every item of it.

use mc_core::{Local, Rep, hash64, verif};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::Duration;

/// A way to build and run one exploration.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Config {
    name: &'static str,
    features: &'static str,
    /// with debug assertions and overflow checks
    checked: bool,
    /// with a receiver that formats every record
    listen: bool,
}

const fn cfg(name: &'static str, features: &'static str) -> Config {
    Config { name, features, checked: true, listen: true }
}

const BASE: Config = cfg("default", "std");
const ALL: &[Config] = &[
    cfg("no features", ""),
    cfg("alloc", "alloc"),
    cfg("std and log", "std,log"),
    cfg("std and tracing", "std,tracing"),
    cfg("log alone", "log"),
    Config { listen: false, ..cfg("std and log, nobody listening", "std,log") },
    Config { checked: false, ..cfg("default without debug assertions", "std") },
    cfg("tracing alone", "tracing"),
    cfg("alloc and log", "alloc,log"),
    cfg("alloc and tracing", "alloc,tracing"),
    Config { listen: false, ..cfg("std and tracing, nobody listening", "std,tracing") },
    Config { checked: false, ..cfg("no features, without debug assertions", "") },
    Config { checked: false, ..cfg("std and log, without debug assertions", "std,log") },
];
/// Those of every run; the rest is for thorough ones.
const QUICK: usize = 11;

/// An exploration of this harness: package, check, tier.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Job(&'static str, &'static str, &'static str);

/// Runs a command to its end, showing that the item is still going on.
fn wait(rep: &Rep, c: &mut Command, out: &Path) -> Result<i32, String> {
    let f = std::fs::File::create(out).map_err(|e| e.to_string())?;
    let g = f.try_clone().map_err(|e| e.to_string())?;
    let mut ch = c.stdin(Stdio::null()).stdout(f).stderr(g).spawn().map_err(|e| e.to_string())?;
    loop {
        rep.beat();
        match ch.try_wait() {
            Ok(Some(s)) => return Ok(s.code().unwrap_or(-1)),
            Ok(None) => std::thread::sleep(Duration::from_millis(20)),
            Err(e) => return Err(e.to_string()),
        }
    }
}

fn dir(c: &Config) -> PathBuf {
    let mut n = if c.features.is_empty() { "none".to_string() } else { c.features.replace(',', "-") };
    if !c.checked {
        n.push_str("-plain");
    }
    verif().join("target/cfg").join(n)
}

fn build(rep: &Rep, c: &Config, pkg: &str) -> Result<PathBuf, String> {
    let d = dir(c);
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let mut cmd = Command::new("cargo");
    cmd.args(["build", "--offline", "--locked", "-q", "-p"])
        .arg(format!("mc-{pkg}"))
        .args(["--no-default-features", "--features", c.features, "--target-dir"])
        .arg(&d)
        .current_dir(verif().join("mc"));
    if !c.checked {
        cmd.args(["--profile", "plain"]);
    }
    let log = d.join(format!("build-{pkg}.log"));
    if wait(rep, &mut cmd, &log)? != 0 {
        let t = std::fs::read_to_string(&log).unwrap_or_default();
        return Err(format!("{pkg} does not build with features [{}]: {t}", c.features));
    }
    Ok(d.join(if c.checked { "debug" } else { "plain" }).join(format!("mc-{pkg}")))
}

type Seen = BTreeMap<(String, usize), Vec<String>>;

struct Ran {
    seen: Seen,
    /// it judged what it saw to be wrong
    alarm: Option<String>,
    counts: [u64; 4],
}

fn run(rep: &Rep, c: &Config, exe: &Path, job: Job, only: Option<(&str, usize)>) -> Result<Ran, String> {
    // what an exploration leaves behind stays in a directory of its own
    let d = dir(c).join(format!("{}-{}-{}", job.1, c.listen, only.is_some()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let _ = std::fs::copy(verif().join("known-findings.txt"), d.join("known-findings.txt"));
    let digest = d.join("digest");
    let out = d.join("out");
    let mut cmd = Command::new(exe);
    cmd.env("VERIF_DIR", &d).env("MC_DIGEST", &digest).env_remove("MC_CHILD").env_remove("MC_SLOT");
    cmd.env("MC_LOG", if c.listen { "on" } else { "off" });
    match only {
        None => cmd.args([job.1, job.2]),
        Some((f, i)) => {
            let r = d.join("only.txt");
            std::fs::write(&r, format!("family={f}\nitem={i}\n")).map_err(|e| e.to_string())?;
            cmd.env("VERIF_TIER", job.2).args([job.1, "replay"]).arg(r)
        }
    };
    let code = wait(rep, &mut cmd, &out)?;
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    if code != 0 && code != 1 {
        return Err(format!("{} in configuration {:?} ended with {code}: {text}", job.1, c.name));
    }
    let mut seen = Seen::new();
    for l in std::fs::read_to_string(&digest).unwrap_or_default().lines() {
        let mut p = l.splitn(3, '\t');
        if let (Some(f), Some(i), Some(t)) = (p.next(), p.next().and_then(|i| i.parse().ok()), p.next()) {
            seen.entry((f.to_string(), i)).or_default().push(t.to_string());
        }
    }
    let num = |k: &str| {
        text.split_whitespace().find_map(|w| w.strip_prefix(k)).and_then(|v| v.parse().ok()).unwrap_or(0)
    };
    let counts = [num("states="), num("traces="), num("succeeding="), num("failing=")];
    let alarm = (code == 1).then(|| text.lines().filter(|l| l.contains("key=")).map(|l| l.trim().to_string()).next().unwrap_or(text.clone()));
    let _ = std::fs::remove_dir_all(&d);
    Ok(Ran { seen, alarm, counts })
}

fn no_answer(e: String) -> ! {
    eprintln!("{e}");
    std::process::exit(2);
}

fn compare(rep: &Rep, c: &Config, job: Job, base: &(PathBuf, Ran), exe: &Path, l: &mut Local) {
    let ran = run(rep, c, exe, job, None).unwrap_or_else(|e| no_answer(e));
    l.states += ran.counts[0];
    l.traces += ran.counts[1];
    l.transitions += ran.counts[1];
    l.matched += ran.counts[2];
    l.failed += ran.counts[3];
    l.outcomes.insert(hash64(&(c.name, job)));
    if let Some(a) = &ran.alarm {
        // wrong in the same way everywhere is for the check of that property
        if base.1.alarm.is_none() {
            rep.violation(
                &format!("{} {}", c.name, job.1),
                &format!("configuration {:?}: the exploration of {} finds a violation that the default configuration does not have: {a}", c.name, job.1),
            );
        }
        return;
    }
    if base.1.alarm.is_some() {
        rep.violation(
            &format!("{} {}", c.name, job.1),
            &format!("the exploration of {} finds a violation in the default configuration and none in {:?}: {:?}", job.1, c.name, base.1.alarm),
        );
        return;
    }
    let mut compared = 0;
    for ((f, i), d) in &ran.seen {
        let Some(b) = base.1.seen.get(&(f.clone(), *i)) else { continue };
        compared += 1;
        if d == b {
            continue;
        }
        // once more, with everything that is seen
        let mine = run(rep, c, exe, job, Some((f, *i)));
        let other = run(rep, &BASE, &base.0, job, Some((f, *i)));
        let mut what = String::from("the digests differ");
        if let (Ok(m), Ok(o)) = (mine, other)
            && let (Some(m), Some(o)) = (m.seen.get(&(f.clone(), *i)), o.seen.get(&(f.clone(), *i)))
        {
            if m.len() != o.len() {
                what = format!("{} observations instead of {}", m.len() - 1, o.len() - 1);
            }
            for (k, (x, y)) in m.iter().zip(o).enumerate().skip(1) {
                if x != y {
                    what = format!("observation {k} is {x} instead of {y}");
                    break;
                }
            }
        }
        rep.violation(
            &format!("{} {} {f} {i}", c.name, job.1),
            &format!("configuration {:?}, exploration of {}, {f} item {i}: {what}", c.name, job.1),
        );
        return;
    }
    if compared == 0 {
        no_answer(format!("{} has nothing in common between {:?} and the default configuration", job.1, c.name));
    }
    rep.sample(|| format!("{:?}: {} explores {} states, {compared} items compared with the default configuration", c.name, job.1, ran.counts[0]));
}

fn p24(rep: &Rep) {
    rep.note("an exploration is the one of this harness, run in each configuration; where a configuration lacks a pattern, its family is left out");
    rep.note("results are compared with those in the default configuration, including the kind of error; where both are wrong alike, another property's check reports it");
    let quick = rep.quick();
    // the deepest runs where nothing formats records, and in one where something does
    let mini = |c: &Config| {
        let slow = c.listen && (c.features.contains("log") || c.features.contains("tracing"));
        let deep = !quick && (!slow || *c == ALL[2]);
        Job("mini", "P24", if deep { "thorough" } else { "quick" })
    };
    let mut work: Vec<(Config, Job)> = ALL[..if quick { QUICK } else { ALL.len() }].iter().map(|c| (*c, mini(c))).collect();
    if !quick {
        for c in [ALL[2], ALL[3]] {
            for p in ["P11", "P27", "P28"] {
                work.push((c, Job("neu", p, "quick")));
            }
            for p in ["P15", "P22"] {
                work.push((c, Job("ctx", p, "quick")));
            }
            work.push((c, Job("val", "P16", "quick")));
            work.push((c, Job("ast", "P08", "quick")));
        }
        for p in ["P10", "P11", "P27", "P28"] {
            work.push((ALL[6], Job("neu", p, "quick")));
        }
        for p in ["P14", "P15", "P21", "P22"] {
            work.push((ALL[6], Job("ctx", p, "quick")));
        }
        work.push((ALL[6], Job("val", "P16", "quick")));
        for p in ["P01", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P12", "P13", "P17", "P18", "P19", "P25", "P26", "P29", "P30"] {
            work.push((ALL[6], Job("ast", p, "quick")));
        }
    }
    // builds first, a few at a time; they are their own family so that a replay finds them
    let exes: Mutex<BTreeMap<(PathBuf, &str), PathBuf>> = Mutex::new(BTreeMap::new());
    let mut todo: Vec<(Config, &str)> = vec![];
    for (c, pkg) in work.iter().map(|(c, j)| (*c, j.0)).chain(work.iter().map(|(_, j)| (BASE, j.0))) {
        if !todo.iter().any(|(d, p)| dir(d) == dir(&c) && *p == pkg) {
            todo.push((c, pkg));
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        let (next, todo, exes) = (&next, &todo, &exes);
        for _ in 0..3 {
            s.spawn(move || {
                while let Some((c, p)) = todo.get(next.fetch_add(1, std::sync::atomic::Ordering::Relaxed)) {
                    let e = build(rep, c, p).unwrap_or_else(|e| no_answer(e));
                    exes.lock().unwrap().insert((dir(c), p), e);
                }
            });
        }
    });
    let exes = exes.into_inner().unwrap();
    let base: Mutex<BTreeMap<Job, &'static (PathBuf, Ran)>> = Mutex::new(BTreeMap::new());
    // one at a time: each uses all cores
    let turn = Mutex::new(());
    rep.explore("configurations", &work, |rep, (c, job), l| {
        let _turn = loop {
            rep.beat();
            match turn.try_lock() {
                Ok(t) => break t,
                Err(std::sync::TryLockError::Poisoned(t)) => break t.into_inner(),
                Err(_) => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        if rep.stopped() {
            return;
        }
        let known = base.lock().unwrap().get(job).copied();
        let b = known.unwrap_or_else(|| {
            let exe = exes[&(dir(&BASE), job.0)].clone();
            let r = run(rep, &BASE, &exe, *job, None).unwrap_or_else(|e| no_answer(e));
            l.states += r.counts[0];
            l.traces += r.counts[1];
            l.matched += r.counts[2];
            l.failed += r.counts[3];
            let b: &'static _ = Box::leak(Box::new((exe, r)));
            base.lock().unwrap().insert(*job, b);
            b
        });
        compare(rep, c, *job, b, &exes[&(dir(c), job.0)], l);
    });
}

fn main() {
    mc_core::main(&[("P24", p24)])
}
