//! P11: unit quantifiers take the greedy run inside their bounds.
//! Also the list of quantifiers and the reference used by P27 and P28.

use crate::units::{Unit, leak_bytes, leak_str, negate, nest1, u};
use mc_core::{Local, Rep, guarded, hash64};
use neure::neu::*;
use neure::ctor::{Ctor, Extract, Handler};
use neure::ctx::*;
use neure::err::Error;
use neure::prelude::*;
use std::ops::Bound;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// a run of min..=max
    Run,
    /// exactly two units
    Pair,
}

type Run<C> = Box<dyn Fn(&mut C, u8) -> Result<Span, Error>>;

pub struct Q<C> {
    pub name: String,
    pub kind: Kind,
    pub min: usize,
    pub max: usize,
    /// mode 0: try_mat, 1: ctor_span, 2: map_span, 3: boxed dyn
    pub run: Run<C>,
}

pub const MODES: u8 = 4;

fn run<'a, C, P>(p: P) -> Run<C>
where
    C: Match<'a> + 'a,
    P: Regex<C> + Ctor<C, Span, Extract<Span>> + 'static,
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    Box::new(move |c, mode| match mode {
        0 => c.try_mat(&p),
        1 => c.ctor_span(&p),
        2 => c.map_span(&p, Ok),
        _ => {
            let d: &dyn Regex<C> = &p;
            c.try_mat(d)
        }
    })
}

/// Every quantifier over `unit`, with the condition `cond` attached if there is one.
pub fn quants<C, T, U, D>(unit: U, other: &[U], cond: Option<D>) -> Vec<Q<C>>
where
    C: Match<'static, Item = T> + 'static,
    T: 'static,
    U: Neu<T> + Clone + 'static,
    D: NeuCond<'static, C> + Clone + 'static,
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    let mut v: Vec<Q<C>> = vec![];
    macro_rules! add {
        ($n:expr, $k:expr, $min:expr, $max:expr, $p:expr) => {{
            let r = match &cond {
                None => run($p),
                Some(c) => run(Condition::<C>::set_cond($p, c.clone())),
            };
            v.push(Q { name: $n.into(), kind: $k, min: $min, max: $max, run: r });
        }};
    }
    macro_rules! uu {
        () => {
            unit.clone()
        };
    }
    add!("once", Kind::Run, 1, 1, NeuIntoRegexOps::<C>::once(uu!()));
    add!("opt", Kind::Run, 0, 1, NeuIntoRegexOps::<C>::opt(uu!()));
    add!("many0", Kind::Run, 0, usize::MAX, NeuIntoRegexOps::<C>::many0(uu!()));
    add!("many1", Kind::Run, 1, usize::MAX, NeuIntoRegexOps::<C>::many1(uu!()));
    macro_rules! betw { ($(($m:literal,$n:literal)),*) => { $(
        add!(format!("between<{},{}>", $m, $n), Kind::Run, $m, $n, NeuIntoRegexOps::<C>::between::<$m, $n>(uu!()));
    )* } }
    betw!((0, 0), (0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4), (4, 4), (2, 1), (1, 0));
    macro_rules! cnt { ($($m:literal),*) => { $(
        add!(format!("count<{}>", $m), Kind::Run, $m, $m, NeuIntoRegexOps::<C>::count::<$m>(uu!()));
        add!(format!("at_least<{}>", $m), Kind::Run, $m, usize::MAX, NeuIntoRegexOps::<C>::at_least::<$m>(uu!()));
        add!(format!("at_most<{}>", $m), Kind::Run, 0, $m, NeuIntoRegexOps::<C>::at_most::<$m>(uu!()));
    )* } }
    cnt!(0, 1, 2, 3, 4);
    for m in 0..4usize {
        add!(format!("times({m})"), Kind::Run, m, m, NeuIntoRegexOps::<C>::times(uu!(), m));
        add!(format!("times({m}..)"), Kind::Run, m, usize::MAX, NeuIntoRegexOps::<C>::times(uu!(), m..));
        add!(format!("times(..={m})"), Kind::Run, 0, m, NeuIntoRegexOps::<C>::times(uu!(), ..=m));
        if m > 0 {
            add!(format!("times(..{m})"), Kind::Run, 0, m - 1, NeuIntoRegexOps::<C>::times(uu!(), ..m));
        }
        add!(format!("times(({m},))"), Kind::Run, m + 1, usize::MAX,
            NeuIntoRegexOps::<C>::times(uu!(), (Bound::Excluded(m), Bound::Unbounded)));
        for n in m..4usize {
            add!(format!("times({m}..={n})"), Kind::Run, m, n, NeuIntoRegexOps::<C>::times(uu!(), m..=n));
            if n > m {
                add!(format!("times({m}..{n})"), Kind::Run, m, n - 1, NeuIntoRegexOps::<C>::times(uu!(), m..n));
                add!(format!("times(({m},{n}])"), Kind::Run, m + 1, n,
                    NeuIntoRegexOps::<C>::times(uu!(), (Bound::Excluded(m), Bound::Included(n))));
            }
            if n > m + 1 {
                add!(format!("times(({m},{n}))"), Kind::Run, m + 1, n - 1,
                    NeuIntoRegexOps::<C>::times(uu!(), (Bound::Excluded(m), Bound::Excluded(n))));
            }
        }
    }
    // bounds no input can reach
    const BIG: usize = usize::MAX;
    const HALF: usize = usize::MAX / 2 + 1;
    add!("between<MAX,MAX>", Kind::Run, BIG, BIG, NeuIntoRegexOps::<C>::between::<BIG, BIG>(uu!()));
    add!("between<1,MAX>", Kind::Run, 1, BIG, NeuIntoRegexOps::<C>::between::<1, BIG>(uu!()));
    add!("at_least<MAX/2+1>", Kind::Run, HALF, BIG, NeuIntoRegexOps::<C>::at_least::<HALF>(uu!()));
    add!("times(MAX)", Kind::Run, BIG, BIG, NeuIntoRegexOps::<C>::times(uu!(), BIG));
    add!("times(MAX/2+1..)", Kind::Run, HALF, BIG, NeuIntoRegexOps::<C>::times(uu!(), HALF..));
    add!("times(..=MAX)", Kind::Run, 0, BIG, NeuIntoRegexOps::<C>::times(uu!(), ..=BIG));
    add!("times((MAX/2+1,))", Kind::Run, HALF + 1, BIG,
        NeuIntoRegexOps::<C>::times(uu!(), (Bound::Excluded(HALF), Bound::Unbounded)));
    add!("times(..)", Kind::Run, 0, usize::MAX, NeuIntoRegexOps::<C>::times(uu!(), ..));
    add!("times(2u8)", Kind::Run, 2, 2, NeuIntoRegexOps::<C>::times(uu!(), 2u8));
    add!("times(&2i64)", Kind::Run, 2, 2, NeuIntoRegexOps::<C>::times(uu!(), &2i64));
    add!("times(2i32)", Kind::Run, 2, 2, NeuIntoRegexOps::<C>::times(uu!(), 2i32));
    for (i, o) in other.iter().enumerate() {
        add!(format!("then#{i}"), Kind::Pair, 2, 2, NeuIntoRegexOps::<C>::then(uu!(), o.clone()));
    }
    v
}

/// Sizes around which a counter or a buffer might change.
pub const BIGS: [usize; 18] = [6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257];

/// Quantifiers with large bounds.
pub fn big_quants<C, T, U>(unit: U) -> Vec<Q<C>>
where
    C: Match<'static, Item = T> + 'static,
    T: 'static,
    U: Neu<T> + Clone + 'static,
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    const INF: usize = usize::MAX;
    let mut v: Vec<Q<C>> = vec![];
    let mut add = |name: String, min: usize, max: usize, run: Run<C>| v.push(Q { name, kind: Kind::Run, min, max, run });
    macro_rules! cnt { ($($m:literal),*) => { $(
        add(format!("count<{}>", $m), $m, $m, run(NeuIntoRegexOps::<C>::count::<$m>(unit.clone())));
        add(format!("at_least<{}>", $m), $m, INF, run(NeuIntoRegexOps::<C>::at_least::<$m>(unit.clone())));
        add(format!("at_most<{}>", $m), 0, $m, run(NeuIntoRegexOps::<C>::at_most::<$m>(unit.clone())));
        add(format!("between<{},{}>", $m - 1, $m + 1), $m - 1, $m + 1,
            run(NeuIntoRegexOps::<C>::between::<{ $m - 1 }, { $m + 1 }>(unit.clone())));
        add(format!("between<1,{}>", $m), 1, $m, run(NeuIntoRegexOps::<C>::between::<1, $m>(unit.clone())));
    )* } }
    cnt!(7, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 255, 256, 257);
    for m in BIGS {
        add(format!("times({m})"), m, m, run(NeuIntoRegexOps::<C>::times(unit.clone(), m)));
        add(format!("times({m}..)"), m, INF, run(NeuIntoRegexOps::<C>::times(unit.clone(), m..)));
        add(format!("times(..{m})"), 0, m - 1, run(NeuIntoRegexOps::<C>::times(unit.clone(), ..m)));
        for n in BIGS.into_iter().filter(|n| *n >= m) {
            add(format!("times({m}..={n})"), m, n, run(NeuIntoRegexOps::<C>::times(unit.clone(), m..=n)));
        }
    }
    v
}

/// Runs of one item of every length around `BIGS`, alone and before or after another item.
fn big_runs<C, T>(rep: &Rep, k: &Unit<T>, a: T, b: T, mk: impl Fn(&[T]) -> Input<C, T>, at: impl Fn(&C, usize) -> C, l: &mut Local)
where
    C: Match<'static, Item = T> + 'static,
    T: Copy + std::fmt::Debug + 'static,
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    let lens: std::collections::BTreeSet<usize> = BIGS.iter().flat_map(|n| [n - 1, *n, n + 1]).chain([300, 1000, 65536]).collect();
    let qs = big_quants::<C, T, _>(k.unit.clone());
    for n in lens {
        let run = vec![a; n];
        for s in [run.clone(), [&run[..], &[b]].concat(), [&run[..], &[b, a]].concat(), [&[b], &run[..]].concat()] {
            let inp = mk(&s);
            for (off, items) in inp.starts.iter().take(2) {
                for q in &qs {
                    for mode in 0..2 {
                        if rep.stopped() {
                            return;
                        }
                        let w = want((q.kind, q.min, q.max), items, |_, x| (k.want)(x), |_, _| false);
                        let exp = w.map(|n| (*off, items[..n].iter().map(|x| x.2).sum::<usize>()));
                        let end = exp.map(|(b, n)| b + n).unwrap_or(*off);
                        let mut ctx = at(&inp.ctx, *off);
                        let got = guarded(|| (q.run)(&mut ctx, mode).ok().map(|s| (s.beg, s.len)));
                        l.states += 1;
                        l.traces += 1;
                        l.transitions += items.len() as u64;
                        if exp.is_some() { l.matched += 1 } else { l.failed += 1 }
                        l.outcomes.insert(hash64(&(&q.name, exp)));
                        if got != Ok(exp) || ctx.offset() != end {
                            rep.violation(
                                &format!("{}.{}:{n}+{}@{off}/{mode}", k.name, q.name, s.len() - n),
                                &format!("unit {} quantifier {} on a run of {n} {a:?}, {} items, at {off}: expected {exp:?}, got {got:?} and offset {}", k.name, q.name, s.len(), ctx.offset()),
                            );
                        }
                    }
                }
            }
        }
    }
}

/// Items of the input from a byte position, with their relative position and length.
pub type Items<T> = Vec<(usize, T, usize)>;

/// The reference: how many items are taken, or None.
pub fn want<T>(q: (Kind, usize, usize), items: &Items<T>, take: impl Fn(usize, &T) -> bool, pair: impl Fn(usize, &T) -> bool) -> Option<usize> {
    if q.0 == Kind::Pair {
        if items.len() >= 2 && take(0, &items[0].1) && pair(1, &items[1].1) {
            return Some(2);
        }
        return None;
    }
    let mut n = 0;
    while n < q.2 && n < items.len() && take(n, &items[n].1) {
        n += 1;
    }
    (n >= q.1).then_some(n)
}

pub fn char_items(s: &[char], from: usize) -> Items<char> {
    let mut v = vec![];
    let mut p = 0;
    for c in &s[from..] {
        v.push((p, *c, c.len_utf8()));
        p += c.len_utf8();
    }
    v
}

pub fn byte_items(s: &[u8], from: usize) -> Items<u8> {
    s[from..].iter().enumerate().map(|(i, b)| (i, *b, 1)).collect()
}

pub fn strings<T: Copy>(alpha: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for a in alpha {
                let mut t: Vec<T> = s.clone();
                t.push(*a);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

pub struct Input<C, T> {
    pub ctx: C,
    /// per start item: byte offset and the items from there
    pub starts: Vec<(usize, Items<T>)>,
    pub text: String,
}

pub fn char_inputs(alpha: &[char], max: usize) -> Vec<Input<CharsCtx<'static>, char>> {
    strings(alpha, max)
        .iter()
        .map(|s| {
            let mut starts = vec![];
            let mut p = 0;
            for i in 0..=s.len() {
                starts.push((p, char_items(s, i)));
                if i < s.len() {
                    p += s[i].len_utf8();
                }
            }
            Input { ctx: leak_str(s).0, starts, text: s.iter().collect() }
        })
        .collect()
}

pub fn byte_inputs(alpha: &[u8], max: usize) -> Vec<Input<BytesCtx<'static>, u8>> {
    strings(alpha, max)
        .iter()
        .map(|s| Input {
            ctx: leak_bytes(s).0,
            starts: (0..=s.len()).map(|i| (i, byte_items(s, i))).collect(),
            text: format!("{s:?}"),
        })
        .collect()
}

fn sweep<C, T>(rep: &Rep, k: &Unit<T>, others: &[Unit<T>], inputs: &[Input<C, T>], modes: u8, l: &mut Local)
where
    C: Match<'static, Item = T> + Clone + 'static,
    T: 'static + Copy + std::fmt::Debug,
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    let os: Vec<Rc<dyn Neu<T>>> = others.iter().map(|o| o.unit.clone()).collect();
    let none: Option<EmptyCond> = None;
    let qs = quants::<C, T, _, _>(k.unit.clone(), &os, none);
    for inp in inputs {
        for (off, items) in &inp.starts {
            for q in &qs {
                let other = q.name.strip_prefix("then#").map(|i| &others[i.parse::<usize>().unwrap()]);
                let w = want((q.kind, q.min, q.max), items, |_, x| (k.want)(x), |_, x| other.is_some_and(|o| (o.want)(x)));
                for mode in 0..modes {
                    if rep.stopped() {
                        return;
                    }
                    l.states += 1;
                    l.traces += 1;
                    l.transitions += 1;
                    let mut ctx = inp.ctx.clone();
                    ctx.set_offset(*off);
                    let got = guarded(|| (q.run)(&mut ctx, mode).ok().map(|s| (s.beg, s.len)));
                    let exp = w.map(|n| (*off, items[..n].iter().map(|x| x.2).sum::<usize>()));
                    let end = exp.map(|(b, n)| b + n).unwrap_or(*off);
                    if exp.is_some() { l.matched += 1 } else { l.failed += 1 }
                    if got != Ok(exp) || ctx.offset() != end {
                        rep.violation(
                            &format!("{}.{}:{}@{off}/{mode}", k.name, q.name, inp.text),
                            &format!(
                                "unit {} quantifier {} mode {mode} on {:?} at {off}: expected span {exp:?} and offset {end}, got {got:?} and offset {}",
                                k.name, q.name, inp.text, ctx.offset()
                            ),
                        );
                    }
                }
                l.outcomes.insert(hash64(&(&q.name, w)));
            }
        }
    }
}

/// Predicates over an alphabet, as closures.
pub fn subset_units<T: Copy + PartialEq + std::fmt::Debug + 'static>(alpha: &[T]) -> Vec<Unit<T>>
where
    T: neure::MayDebug,
{
    (0..1u32 << alpha.len())
        .map(|m| {
            let set: Vec<T> = alpha.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, c)| *c).collect();
            let s2 = set.clone();
            u(format!("{set:?}"), set, move |x: &T| s2.contains(x))
        })
        .collect()
}

pub fn p11(rep: &Rep) {
    let quick = rep.quick();
    let ca = ['a', 'é', '中', '😀'];
    let ba = [b'a', b'b', 0x80u8, 0xff];
    let n = if quick { 4 } else { 6 };
    let modes = MODES;
    rep.explore_n("character sets x quantifiers", 16, |rep, i, l| {
        let us = subset_units(&ca);
        let inputs = char_inputs(&ca, n);
        sweep(rep, &us[i], &[us[1].clone(), us[i].clone(), us[6].clone()], &inputs, modes, l);
        rep.sample(|| format!("unit {} with every quantifier on {} strings", us[i].name, inputs.len()));
    });
    rep.explore_n("byte sets x quantifiers", 16, |rep, i, l| {
        let us = subset_units(&ba);
        let inputs = byte_inputs(&ba, n);
        sweep(rep, &us[i], &[us[1].clone(), us[i].clone(), us[6].clone()], &inputs, modes, l);
    });
    // literals and their combinations, whose length depends on the unit
    let base = nest1();
    let total = base.len();
    rep.explore_n("combined character units x quantifiers", total, |rep, i, l| {
        let base = nest1();
        let k = if i % 2 == 0 { base[i].clone() } else { negate(&base[i]) };
        let inputs = char_inputs(&['a', 'é', '😀'], if quick { 3 } else { 5 });
        sweep(rep, &k, &[base[0].clone(), base[3].clone(), base[(i * 7 + 1) % total].clone()], &inputs, if quick { 1 } else { modes }, l);
        if !quick {
            sweep(rep, &base[i], &[negate(&base[i])], &inputs, 1, l);
        }
    });
    // long runs, counts up to the length
    rep.explore_n("long runs", 3, |rep, i, l| {
        let lens: Vec<usize> = (0..if quick { 70 } else { 300 }).collect();
        let c = ['a', 'é', '😀'][i];
        let k = u(format!("{c:?}"), c, move |x: &char| *x == c);
        let inputs: Vec<Input<CharsCtx<'static>, char>> = lens
            .iter()
            .flat_map(|n| {
                let mut s = vec![c; *n];
                let a = Input { ctx: leak_str(&s).0, starts: vec![(0, char_items(&s, 0))], text: format!("{c}*{n}") };
                s.push('x');
                let b = Input { ctx: leak_str(&s).0, starts: vec![(0, char_items(&s, 0))], text: format!("{c}*{n}x") };
                [a, b]
            })
            .collect();
        sweep(rep, &k, &[k.clone()], &inputs, 1, l);
    });
    rep.explore_n("large bounds against long runs", 4, |rep, i, l| {
        if i < 3 {
            let c = ['a', 'é', '😀'][i];
            let k = u(format!("{c:?}"), c, move |x: &char| *x == c);
            let mk = |s: &[char]| {
                let starts = vec![(0, char_items(s, 0)), (s[0].len_utf8(), char_items(s, 1))];
                Input { ctx: leak_str(s).0, starts, text: String::new() }
            };
            big_runs(rep, &k, c, 'x', mk, |c, o| c.with_offset(o), l);
        } else {
            let k = u("0xff", 0xffu8, |x: &u8| *x == 0xff);
            let mk = |s: &[u8]| Input { ctx: leak_bytes(s).0, starts: vec![(0, byte_items(s, 0)), (1, byte_items(s, 1))], text: String::new() };
            big_runs(rep, &k, 0xffu8, b'x', mk, |c, o| c.with_offset(o), l);
        }
    });
    // the same through a context with a skip policy: the run starts after the skipped text
    rep.explore_n("quantifiers behind a skip policy", 8, |rep, i, l| {
        let us = subset_units(&['a', 'é', ' ']);
        let k = &us[i];
        let inputs = char_inputs(&['a', 'é', ' '], if quick { 4 } else { 6 });
        type P = PolicyCtx<CharsCtx<'static>, Many0<CharsCtx<'static>, WhiteSpace, char>>;
        let none: Option<EmptyCond> = None;
        let qs = quants::<P, char, _, _>(k.unit.clone(), &[us[1].unit.clone(), us[4].unit.clone()], none);
        for inp in &inputs {
            for (pos, (off, items)) in inp.starts.iter().enumerate() {
                let skip = items.iter().take_while(|x| x.1 == ' ').count();
                let (beg, rest) = &inp.starts[pos + skip];
                for q in &qs {
                    let o = match q.name.as_str() {
                        "then#0" => Some(&us[1]),
                        "then#1" => Some(&us[4]),
                        _ => None,
                    };
                    let w = want((q.kind, q.min, q.max), rest, |_, x| (k.want)(x), |_, x| o.is_some_and(|o| (o.want)(x)));
                    for mode in 0..2 {
                        if rep.stopped() {
                            return;
                        }
                        l.states += 1;
                        l.traces += 1;
                        l.transitions += 1;
                        let mut ctx = inp.ctx.skip_whitespace();
                        ctx.set_offset(*off);
                        let got = guarded(|| (q.run)(&mut ctx, mode).ok().map(|s| (s.beg, s.len)));
                        let exp = w.map(|n| (*beg, rest[..n].iter().map(|x| x.2).sum::<usize>()));
                        let end = exp.map(|(b, n)| b + n).unwrap_or(*off);
                        if exp.is_some() { l.matched += 1 } else { l.failed += 1 }
                        if got != Ok(exp) || ctx.offset() != end {
                            rep.violation(
                                &format!("skip {}.{}:{}@{off}/{mode}", k.name, q.name, inp.text),
                                &format!(
                                    "unit {} quantifier {} mode {mode} skipping white space on {:?} at {off}: expected span {exp:?} and offset {end}, got {got:?} and offset {}",
                                    k.name, q.name, inp.text, ctx.offset()
                                ),
                            );
                        }
                    }
                }
            }
        }
    });
}
