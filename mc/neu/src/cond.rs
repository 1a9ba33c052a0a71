//! P27: conditions filter each item with its true position.

use crate::quant::{Input, Kind, byte_inputs, char_inputs, quants, subset_units, want};
use crate::units::Unit;
use mc_core::{Local, Rep, guarded, hash64};
use neure::neu::*;
use neure::ctor::{Extract, Handler};
use neure::ctx::*;
use neure::err::Error;
use neure::prelude::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
    Yes,
    No,
    Err,
}

/// What the condition does with the item at each item position of the input.
type Script = Rc<RefCell<(Vec<(usize, A)>, Vec<(usize, usize, String)>)>>;

/// Outcomes allowed by the reference: the number of items taken, or failure.
fn allowed<T>(q: (Kind, usize, usize), items: &[(usize, T, usize)], unit: impl Fn(usize, &T) -> bool, ans: impl Fn(usize) -> A) -> Vec<Option<usize>> {
    let all = items.iter().map(|x| (x.0, (), x.2)).collect::<Vec<_>>();
    let u = |i: usize| unit(i, &items[i].1);
    // a condition that reports an error ends the run there, or fails the match
    let w = want(q, &all, |i, _| u(i) && ans(i) == A::Yes, |i, _| u(i) && ans(i) == A::Yes);
    let mut v = vec![w];
    let end = match q.0 {
        Kind::Pair => (0..items.len().min(2)).find(|i| ans(*i) != A::Yes || !u(*i)),
        Kind::Run => (0..items.len().min(q.2)).find(|i| ans(*i) != A::Yes || !u(*i)),
    };
    if let Some(e) = end
        && ans(e) == A::Err
        && w.is_some()
    {
        v.push(None);
    }
    v
}

fn sweep<C, T>(
    rep: &Rep,
    k: &Unit<T>,
    other: &Unit<T>,
    inputs: &[Input<C, T>],
    scripts: &[Vec<A>],
    mk: impl Fn(&C, usize) -> C,
    l: &mut Local,
) where
    C: Match<'static, Item = T> + Clone + 'static,
    T: 'static + Copy + PartialEq + std::fmt::Debug,
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    let script: Script = Default::default();
    let s2 = script.clone();
    let cond = move |ctx: &C, item: &(usize, T)| {
        let mut s = s2.borrow_mut();
        let at = ctx.offset() + item.0;
        s.1.push((ctx.offset(), item.0, format!("{:?}", item.1)));
        match s.0.iter().find(|x| x.0 == at).map(|x| x.1) {
            Some(A::Yes) => Ok(true),
            Some(A::No) => Ok(false),
            Some(A::Err) => Err(Error::Uid(7)),
            None => Ok(false),
        }
    };
    let qs = quants::<C, T, _, _>(k.unit.clone(), &[other.unit.clone(), k.unit.clone()], Some(cond));
    for inp in inputs {
        for (off, items) in &inp.starts {
            for sc in scripts.iter().filter(|s| s.len() == items.len()) {
                for q in &qs {
                    for mode in 0..2 {
                        if rep.stopped() {
                            return;
                        }
                        let o = if q.name == "then#0" { other } else { k };
                        let allow = allowed(
                            (q.kind, q.min, q.max),
                            items,
                            |i, x| if q.kind == Kind::Pair && i == 1 { (o.want)(x) } else { (k.want)(x) },
                            |i| sc[i],
                        );
                        {
                            let mut s = script.borrow_mut();
                            s.0 = items.iter().zip(sc).map(|(x, a)| (off + x.0, *a)).collect();
                            s.1.clear();
                        }
                        let mut ctx = mk(&inp.ctx, *off);
                        let got = guarded(|| (q.run)(&mut ctx, mode).ok().map(|s| (s.beg, s.len)));
                        l.states += 1;
                        l.traces += 1;
                        let log = script.borrow().1.clone();
                        l.transitions += 1 + log.len() as u64;
                        let mut why = None;
                        match &got {
                            Err(e) => why = Some(e.clone()),
                            Ok(g) => {
                                let ok = allow.iter().any(|w| {
                                    let exp = w.map(|n| (*off, items[..n].iter().map(|x| x.2).sum::<usize>()));
                                    *g == exp && ctx.offset() == exp.map(|(b, n)| b + n).unwrap_or(*off)
                                });
                                if !ok {
                                    why = Some(format!("allowed numbers of items {allow:?}, got span {g:?} and offset {}", ctx.offset()));
                                }
                                if g.is_some() { l.matched += 1 } else { l.failed += 1 }
                                // every item taken was put to the condition, at its true position
                                for e in &log {
                                    if e.0 != *off || !items.iter().any(|x| x.0 == e.1 && format!("{:?}", x.1) == e.2) {
                                        why = Some(format!("condition consulted at offset {} with item ({}, {})", e.0, e.1, e.2));
                                    }
                                }
                                if let Some((_, len)) = g {
                                    for x in items.iter().filter(|x| x.0 < *len) {
                                        if !log.iter().any(|e| e.1 == x.0) {
                                            why = Some(format!("item at {} taken without asking the condition", x.0));
                                        }
                                    }
                                }
                            }
                        }
                        l.outcomes.insert(hash64(&(&q.name, &log)));
                        if let Some(why) = why {
                            rep.violation(
                                &format!("{}.{}:{}@{off}:{sc:?}/{mode}", k.name, q.name, inp.text),
                                &format!(
                                    "unit {} quantifier {} mode {mode} with answers {sc:?} on {:?} at {off}: {why}",
                                    k.name, q.name, inp.text
                                ),
                            );
                        }
                    }
                }
            }
        }
    }
}

fn scripts(n: usize, answers: &[A]) -> Vec<Vec<A>> {
    crate::quant::strings(answers, n)
}

type Pol = PolicyCtx<CharsCtx<'static>, Many0<CharsCtx<'static>, WhiteSpace, char>>;

/// Patterns used as conditions, with the texts they match at the front of.
fn cond_patterns<C>(lit: Rc<dyn Regex<C>>) -> Vec<(&'static str, Rc<dyn Regex<C>>, fn(&str) -> bool)>
where
    C: Match<'static, Item = char> + 'static,
{
    let mut v: Vec<(&'static str, Rc<dyn Regex<C>>, fn(&str) -> bool)> = vec![];
    v.push(("one a", Rc::new(NeuIntoRegexOps::<C>::once('a')), |s| s.starts_with('a')));
    v.push(("é", Rc::new(NeuIntoRegexOps::<C>::count::<1>('é')), |s| s.starts_with('é')));
    v.push(("aa", Rc::new(NeuIntoRegexOps::<C>::then('a', 'a')), |s| s.starts_with("aa")));
    v.push(("aé", Rc::new(NeuIntoRegexOps::<C>::then('a', 'é')), |s| s.starts_with("aé")));
    v.push(("not é", Rc::new(neure::regex::not(NeuIntoRegexOps::<C>::once('é'))), |s| !s.starts_with('é')));
    v.push(("not aé", Rc::new(neure::regex::not(NeuIntoRegexOps::<C>::then('a', 'é'))), |s| !s.starts_with("aé")));
    v.push(("two of anything", Rc::new(NeuIntoRegexOps::<C>::at_least::<2>(always::<char>())), |s| s.chars().count() >= 2));
    v.push(("a*", Rc::new(NeuIntoRegexOps::<C>::many0('a')), |_| true));
    v.push(("empty", Rc::new(neure::regex::empty()), |_| true));
    v.push(("fail", Rc::new(neure::regex::fail()), |_| false));
    v.push(("literal ba", lit, |s| s.starts_with("ba")));
    v
}

fn pattern_conditions<C>(rep: &Rep, pi: usize, lit: Rc<dyn Regex<C>>, n: usize, mk: impl Fn(CharsCtx<'static>, usize) -> C, skip: bool, l: &mut Local)
where
    C: Match<'static, Item = char> + Clone + 'static,
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    let (name, pat, holds) = cond_patterns::<C>(lit).into_iter().nth(pi).unwrap();
    let us = subset_units(&['a', 'é', 'b']);
    let alpha: &[char] = if skip { &['a', 'é', ' '] } else { &['a', 'é', 'b'] };
    let inputs = char_inputs(alpha, n);
    for k in [&us[1], &us[3], &us[7], &us[5]] {
        let o = &us[2];
        let qs = quants::<C, char, _, _>(k.unit.clone(), &[o.unit.clone(), k.unit.clone()], Some(RegexCondOwned(pat.clone())));
        for inp in &inputs {
            for (pos, (off, items)) in inp.starts.iter().enumerate() {
                let sk = if skip { items.iter().take_while(|x| x.1 == ' ').count() } else { 0 };
                let (beg, rest) = &inp.starts[pos + sk];
                let text = &inp.text[*beg..];
                let trim = |s: &str| -> bool { holds(if skip { s.trim_start_matches(' ') } else { s }) };
                for q in &qs {
                    if rep.stopped() {
                        return;
                    }
                    let oth = if q.name == "then#0" { o } else { k };
                    let w = want(
                        (q.kind, q.min, q.max),
                        rest,
                        |i, x| (k.want)(x) && trim(&text[rest[i].0..]),
                        |i, x| (oth.want)(x) && trim(&text[rest[i].0..]),
                    );
                    let mut ctx = mk(inp.ctx, *off);
                    let got = guarded(|| (q.run)(&mut ctx, 0).ok().map(|s| (s.beg, s.len)));
                    l.states += 1;
                    l.traces += 1;
                    l.transitions += 1;
                    let exp = w.map(|n| (*beg, rest[..n].iter().map(|x| x.2).sum::<usize>()));
                    let end = exp.map(|(b, n)| b + n).unwrap_or(*off);
                    if exp.is_some() { l.matched += 1 } else { l.failed += 1 }
                    l.outcomes.insert(hash64(&(&q.name, exp)));
                    if got != Ok(exp) || ctx.offset() != end {
                        rep.violation(
                            &format!("cond {name} {}.{}:{}@{off}", k.name, q.name, inp.text),
                            &format!(
                                "unit {} quantifier {} with condition pattern {name} on {:?} at {off}: expected span {exp:?} and offset {end}, got {got:?} and offset {}",
                                k.name, q.name, inp.text, ctx.offset()
                            ),
                        );
                    }
                }
            }
        }
    }
}

/// A clonable condition made of the library's own pattern condition.
#[derive(Clone)]
struct RegexCondOwned<C>(Rc<dyn Regex<C>>);

impl<C> NeuCond<'static, C> for RegexCondOwned<C>
where
    C: Match<'static> + 'static,
{
    fn check(&self, ctx: &C, item: &(usize, C::Item)) -> Result<bool, Error> {
        regex_cond::<C, _>(self.0.clone()).check(ctx, item)
    }
}

pub fn p27(rep: &Rep) {
    let quick = rep.quick();
    rep.note("an item rejected by the unit may or may not be put to the condition");
    rep.note("condition patterns are position independent (no start anchor): a sub-context starts at the item");
    let n = if quick { 4 } else { 5 };
    let yn = scripts(n, &[A::Yes, A::No]);
    let yne = scripts(if quick { 3 } else { 4 }, &[A::Yes, A::No, A::Err]);
    let ca = ['a', 'é', 'b'];
    rep.explore_n("scripted answers, characters", 16, |rep, i, l| {
        let us = subset_units(&ca);
        let inputs = char_inputs(&ca[..2], n);
        let o = &us[(i * 5 + 2) % 8];
        sweep(rep, &us[i % 8], o, &inputs, if i < 8 { &yn } else { &yne }, |c, o| c.with_offset(o), l);
        rep.sample(|| format!("unit {} with every answer script on {} strings", us[i % 8].name, inputs.len()));
    });
    rep.explore_n("scripted answers, bytes", 16, |rep, i, l| {
        let ba = [b'a', 0xc3u8, b'b'];
        let us = subset_units(&ba);
        let inputs = byte_inputs(&ba[..2], n);
        let o = &us[(i * 5 + 2) % 8];
        sweep(rep, &us[i % 8], o, &inputs, if i < 8 { &yn } else { &yne }, |c, o| c.with_offset(o), l);
    });
    // one different answer far into a long run
    let lens = [16usize, 17, 33, 64, 129, 257];
    rep.explore("scripted answers, long runs", &lens, |rep, &n, l| {
        let mut sc = vec![vec![A::Yes; n]];
        for k in [0, 1, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n - 1] {
            for a in [A::No, A::Err] {
                if k < n {
                    let mut s = vec![A::Yes; n];
                    s[k] = a;
                    sc.push(s);
                }
            }
        }
        for c in ['a', 'é'] {
            let s = vec![c; n];
            let ctx = crate::units::leak_str(&s).0;
            let inp = Input { ctx, starts: vec![(0, crate::quant::char_items(&s, 0))], text: format!("{c}*{n}") };
            let us = subset_units(&['a', 'é', 'b']);
            sweep(rep, &us[3], &us[1], &[inp], &sc, |c, o| c.with_offset(o), l);
        }
    });
    let np = cond_patterns::<CharsCtx<'static>>(Rc::new(neure::regex::literal("ba"))).len();
    rep.explore_n("pattern conditions", np, |rep, i, l| {
        pattern_conditions::<CharsCtx<'static>>(rep, i, Rc::new(neure::regex::literal("ba")), if quick { 4 } else { 6 }, |c, o| c.with_offset(o), false, l);
    });
    rep.explore_n("pattern conditions behind a skip policy", np, |rep, i, l| {
        pattern_conditions::<Pol>(rep, i, Rc::new(neure::regex::literal("ba")), if quick { 4 } else { 6 }, |c, o| c.with_offset(o).skip_whitespace(), true, l);
    });
}
