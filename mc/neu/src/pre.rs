//! P28: a prefixed unit requires its prefix run, then the unit.

use crate::quant::{Kind, byte_inputs, char_inputs, strings, subset_units, want};
use crate::units::Unit;
use mc_core::{Rep, guarded, hash64};
use neure::neu::*;
use neure::ctx::*;
use std::rc::Rc;

/// A fresh prefixed unit of the chosen form.
fn make<T: neure::MayDebug + 'static>(sync: bool, via: usize, p: &Unit<T>, n: usize, k: &Unit<T>) -> Rc<dyn Neu<T>> {
    let (p, k) = (p.unit.clone(), k.unit.clone());
    match (sync, via) {
        (false, 0) if n == 1 => Rc::new(prefix::<T, _, _>(p, k)),
        (true, 0) if n == 1 => Rc::new(prefix_sync::<T, _, _>(p, k)),
        (false, 0) => Rc::new(prefix_cnt::<T, _, _>(p, n, k)),
        (true, 0) => Rc::new(prefix_sync_cnt::<T, _, _>(p, n, k)),
        (false, 1) => Rc::new(Prefix::<_, _, T>::new(p, n, k)),
        (true, 1) => Rc::new(PrefixSync::<_, _, T>::new(p, n, k)),
        (false, _) => Rc::new(Prefix::<_, _, T>::new(p, n, k).clone()),
        (true, _) => Rc::new(PrefixSync::<_, _, T>::new(p, n, k).clone()),
    }
}

fn us_named(alpha: &[char], only: &str) -> Unit<char> {
    let c = only.chars().next().unwrap();
    subset_units(alpha)
        .into_iter()
        .find(|u| alpha.iter().all(|a| (u.want)(a) == (*a == c)))
        .expect("a unit of one character")
}

pub fn p28(rep: &Rep) {
    let quick = rep.quick();
    rep.note("prefixed units carry state: each use builds a fresh one, as the documentation requires; what a unit answers after an item of the unit phase was rejected is not compared");
    let alpha = ['p', 'u', 'é'];
    let us = 8usize;
    // direct histories of items
    let hist = strings(&alpha, if quick { 5 } else { 7 });
    rep.explore_n("item histories", us * us, |rep, i, l| {
        let subs = subset_units(&alpha);
        let (p, k) = (&subs[i / us], &subs[i % us]);
        for n in 0..4usize {
            for sync in [false, true] {
                for via in 0..3 {
                    for h in &hist {
                        if rep.stopped() {
                            return;
                        }
                        let x = make(sync, via, p, n, k);
                        let got = guarded(|| h.iter().map(|c| x.is_match(c)).collect::<Vec<bool>>());
                        l.states += 1;
                        l.traces += 1;
                        l.transitions += h.len() as u64;
                        let mut broken = false;
                        let mut exp = vec![];
                        for (j, c) in h.iter().enumerate() {
                            if broken {
                                exp.push(false);
                                continue;
                            }
                            let a = if j < n { (p.want)(c) } else { (k.want)(c) };
                            exp.push(a);
                            if !a {
                                if j < n {
                                    broken = true;
                                } else {
                                    break;
                                }
                            }
                        }
                        if exp.last() == Some(&true) { l.matched += 1 } else { l.failed += 1 }
                        l.outcomes.insert(hash64(&exp));
                        let same = got.as_ref().is_ok_and(|g| g[..exp.len()] == exp[..]);
                        if !same {
                            rep.violation(
                                &format!("prefix {} x{n} {} sync={sync} via{via}:{h:?}", p.name, k.name),
                                &format!("prefix {} count {n} unit {} sync={sync} on {h:?}: expected {exp:?}, got {got:?}", p.name, k.name),
                            );
                        }
                    }
                }
            }
        }
    });
    // large counts: one foreign item around the end of the prefix phase
    let ns = [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 65535, 65536, 65537];
    rep.explore("large counts", &ns, |rep, &n, l| {
        let (p, k) = (&us_named(&alpha, "p"), &us_named(&alpha, "u"));
        for sync in [false, true] {
            for via in 0..3 {
                for bad in [0, 1, n / 2, n - 2, n - 1, n, n + 1] {
                    let x = make(sync, via, p, n, k);
                    // prefix items up to the count, then units; at `bad` the other kind
                    let h: Vec<char> = (0..n + 3).map(|i| if (i < n) == (i != bad) { 'p' } else { 'u' }).collect();
                    let got = guarded(|| h.iter().take_while(|c| x.is_match(c)).count());
                    let after = guarded(|| (x.is_match(&'p'), x.is_match(&'u')));
                    l.states += 1;
                    l.traces += 1;
                    l.transitions += n as u64;
                    l.outcomes.insert(hash64(&(bad < n, got.clone())));
                    if bad < n { l.failed += 1 } else { l.matched += 1 }
                    if got != Ok(bad) || bad < n && after != Ok((false, false)) {
                        rep.violation(
                            &format!("prefix count {n} sync={sync} via{via} foreign at {bad}"),
                            &format!("prefix p count {n} unit u sync={sync}, foreign item at {bad}: accepted {got:?} items, then {after:?}"),
                        );
                    }
                }
            }
        }
    });
    // a copy made in the middle of a history goes on like the original
    rep.explore_n("copies in the middle of a history", us * us, |rep, i, l| {
        let subs = subset_units(&alpha);
        let (p, k) = (&subs[i / us], &subs[i % us]);
        let hist = strings(&alpha, if quick { 4 } else { 5 });
        for n in 0..4usize {
            for h in &hist {
                for cut in 0..=h.len() {
                    if rep.stopped() {
                        return;
                    }
                    let r = guarded(|| {
                        let a = Prefix::<_, _, char>::new(p.unit.clone(), n, k.unit.clone());
                        let s = PrefixSync::<_, _, char>::new(p.unit.clone(), n, k.unit.clone());
                        let run = |f: &dyn Fn(&char) -> bool, h: &[char]| h.iter().map(f).collect::<Vec<_>>();
                        run(&|c| a.is_match(c), &h[..cut]);
                        run(&|c| s.is_match(c), &h[..cut]);
                        let (a2, s2) = (a.clone(), s.clone());
                        let o = run(&|c| a.is_match(c), &h[cut..]);
                        let o2 = run(&|c| a2.is_match(c), &h[cut..]);
                        let q = run(&|c| s.is_match(c), &h[cut..]);
                        let q2 = run(&|c| s2.is_match(c), &h[cut..]);
                        (o == o2 && q == q2 && o == q, o.iter().all(|x| *x))
                    });
                    l.states += 1;
                    l.traces += 1;
                    l.transitions += 4 * h.len() as u64;
                    if matches!(r, Ok((_, true))) { l.matched += 1 } else { l.failed += 1 }
                    if !matches!(r, Ok((true, _))) {
                        rep.violation(
                            &format!("copy {} x{n} {}:{h:?}/{cut}", p.name, k.name),
                            &format!("prefix {} count {n} unit {}: original, copy, single-threaded and thread-safe form differ on {h:?} copied after {cut}: {r:?}", p.name, k.name),
                        );
                    }
                }
            }
        }
    });
    // through every quantifier, a fresh unit for each match
    rep.explore_n("through quantifiers, characters", us * us, |rep, i, l| {
        let subs = subset_units(&alpha);
        let (p, k) = (&subs[i / us], &subs[i % us]);
        let inputs = char_inputs(&alpha, if quick { 3 } else { 5 });
        for n in 0..3usize {
            for sync in [false, true] {
                for inp in &inputs {
                    for (off, items) in &inp.starts {
                        for qi in Q_PICK {
                            if rep.stopped() {
                                return;
                            }
                            let x = make(sync, 0, p, n, k);
                            let (name, kind, min, max, got, end) = one_chars(*qi, x, inp.ctx.with_offset(*off));
                            let w = want((kind, min, max), items, |j, c| if j < n { (p.want)(c) } else { (k.want)(c) }, |_, _| false);
                            let exp = w.map(|m| (*off, items[..m].iter().map(|x| x.2).sum::<usize>()));
                            let e = exp.map(|(b, n)| b + n).unwrap_or(*off);
                            l.states += 1;
                            l.traces += 1;
                            l.transitions += 1;
                            if exp.is_some() { l.matched += 1 } else { l.failed += 1 }
                            if got != Ok(exp) || end != e {
                                rep.violation(
                                    &format!("prefix {} x{n} {} sync={sync} {name}:{}@{off}", p.name, k.name, inp.text),
                                    &format!(
                                        "prefix {} count {n} unit {} sync={sync} through {name} on {:?} at {off}: expected {exp:?} and offset {e}, got {got:?} and offset {end}",
                                        p.name, k.name, inp.text
                                    ),
                                );
                            }
                        }
                    }
                }
            }
        }
    });
    rep.explore_n("through quantifiers, bytes", 4 * 4, |rep, i, l| {
        let ba = [b'p', 0xffu8];
        let subs = subset_units(&ba);
        let (p, k) = (&subs[i / 4], &subs[i % 4]);
        let inputs = byte_inputs(&ba, if quick { 5 } else { 7 });
        for n in 0..4usize {
            for sync in [false, true] {
                for inp in &inputs {
                    for (off, items) in &inp.starts {
                        for qi in Q_PICK {
                            if rep.stopped() {
                                return;
                            }
                            let x = make(sync, 0, p, n, k);
                            let (name, kind, min, max, got, end) = one_bytes(*qi, x, inp.ctx.with_offset(*off));
                            let w = want((kind, min, max), items, |j, c| if j < n { (p.want)(c) } else { (k.want)(c) }, |_, _| false);
                            let exp = w.map(|m| (*off, m));
                            let e = exp.map(|(b, n)| b + n).unwrap_or(*off);
                            l.states += 1;
                            l.traces += 1;
                            l.transitions += 1;
                            if exp.is_some() { l.matched += 1 } else { l.failed += 1 }
                            if got != Ok(exp) || end != e {
                                rep.violation(
                                    &format!("prefix {} x{n} {} sync={sync} {name}:{}@{off}", p.name, k.name, inp.text),
                                    &format!(
                                        "prefix {} count {n} unit {} sync={sync} through {name} on {:?} at {off}: expected {exp:?} and offset {e}, got {got:?} and offset {end}",
                                        p.name, k.name, inp.text
                                    ),
                                );
                            }
                        }
                    }
                }
            }
        }
    });
}

/// Quantifiers used for prefixed units.
const Q_PICK: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];

type Seen = (&'static str, Kind, usize, usize, Result<Option<(usize, usize)>, String>, usize);

macro_rules! one {
    ($f:ident, $c:ty, $t:ty) => {
        fn $f(q: usize, x: Rc<dyn Neu<$t>>, mut ctx: $c) -> Seen {
            macro_rules! go {
                ($n:literal, $min:expr, $max:expr, $p:expr) => {{
                    let p = $p;
                    let r = guarded(|| ctx.try_mat(&p).ok().map(|s| (s.beg, s.len)));
                    ($n, Kind::Run, $min, $max, r, ctx.offset())
                }};
            }
            const INF: usize = usize::MAX;
            match q {
                0 => go!("once", 1, 1, NeuIntoRegexOps::<$c>::once(x)),
                1 => go!("opt", 0, 1, NeuIntoRegexOps::<$c>::opt(x)),
                2 => go!("many0", 0, INF, NeuIntoRegexOps::<$c>::many0(x)),
                3 => go!("many1", 1, INF, NeuIntoRegexOps::<$c>::many1(x)),
                4 => go!("count<2>", 2, 2, NeuIntoRegexOps::<$c>::count::<2>(x)),
                5 => go!("count<3>", 3, 3, NeuIntoRegexOps::<$c>::count::<3>(x)),
                6 => go!("at_least<2>", 2, INF, NeuIntoRegexOps::<$c>::at_least::<2>(x)),
                7 => go!("at_most<2>", 0, 2, NeuIntoRegexOps::<$c>::at_most::<2>(x)),
                8 => go!("between<1,3>", 1, 3, NeuIntoRegexOps::<$c>::between::<1, 3>(x)),
                9 => go!("times(2..)", 2, INF, NeuIntoRegexOps::<$c>::times(x, 2..)),
                10 => go!("times(..=2)", 0, 2, NeuIntoRegexOps::<$c>::times(x, ..=2)),
                _ => go!("times(2)", 2, 2, NeuIntoRegexOps::<$c>::times(x, 2)),
            }
        }
    };
}

one!(one_chars, CharsCtx<'static>, char);
one!(one_bytes, BytesCtx<'static>, u8);
