//! Longest match over alternatives built at run time, which report only the range of the
//! part that was built: what counts is where an alternative ends.

use mc_ast::build::*;
use mc_ast::enumerate::*;
use mc_ast::model::{Fault, Skip};
use mc_ast::run::Pat;
use mc_ast::*;
use mc_core::{Local, Rep, hash64};
use neure::ctor::CtorOps;
use neure::err::Error;
use neure::regex;
use neure::span::Span;

/// first part, second part, whether the second starts over
const ALTS: [(&str, &str, bool); 11] = [
    ("a", "", false),
    ("ab", "", false),
    ("aab", "", false),
    ("", "", false),
    ("a", "b", false),
    ("a", "ab", false),
    ("aa", "b", false),
    ("aab", "!", false),
    ("ab", "a", true),
    ("aa", "aa", true),
    ("b", "ab", false),
];

fn alt<C: Hc>(k: usize) -> Bx<C> {
    let (a, b, over) = ALTS[k];
    let first = C::text(a.as_bytes().to_vec());
    if b.is_empty() {
        return first;
    }
    let b: &'static str = if b == "!" { "" } else { b };
    Box::new(regex::into_regex_builder(first, move |c: &mut C, s: &Span| -> Result<Bx<C>, Error> {
        if over {
            c.set_offset(s.beg());
        }
        Ok(C::text(b.as_bytes().to_vec()))
    }))
}

const TABS: [Option<Tab>; 7] = [
    None,
    Some(Tab::ArrayLtm),
    Some(Tab::SliceLtm),
    Some(Tab::VectorLtm),
    Some(Tab::PairArrayLtm),
    Some(Tab::PairSliceLtm),
    Some(Tab::PairVectorLtm),
];

fn all<C: Hc>(t: Option<Tab>, v: &[usize]) -> Bx<C> {
    match t {
        Some(t) => table::<C>(t, v.iter().map(|k| alt::<C>(*k)).collect()),
        None => {
            let (l, r) = (alt::<C>(v[0]), alt::<C>(v[1]));
            let pair = CtorOps::<'static, C>::longest(l, r);
            if v.len() == 2 { Box::new(pair) } else { Box::new(CtorOps::<'static, C>::longest(pair, alt::<C>(v[2]))) }
        }
    }
}

fn one<C: Hc>(rep: &Rep, v: &[usize], ends: &[Vec<Option<(usize, V)>>], inputs: &[&'static str], l: &mut Local) {
    for t in TABS {
        let p = Pat::<C> { p: all::<C>(t, v) };
        for (i, s) in inputs.iter().enumerate() {
            // the first of those that end furthest
            let mut want: Option<(usize, V)> = None;
            for (n, k) in v.iter().enumerate() {
                if let Some((e, val)) = &ends[*k][i]
                    && want.as_ref().is_none_or(|w| *e > w.0)
                {
                    want = Some((*e, pair_value(t, n, val.clone())));
                }
            }
            let m = p.rx(s, 0, Skip::None).map(|r| r.span.map(|_| r.at));
            let c = p.ct(s, 0, Skip::None, Fault::default(), &mut vec![]).map(|c| c.val.map(|v| (c.at, v)));
            l.states += 1;
            l.transitions += v.len() as u64;
            l.traces += 2;
            if want.is_some() { l.matched += 1 } else { l.failed += 1 }
            l.outcomes.insert(hash64(&want));
            if m != Ok(want.as_ref().map(|w| w.0)) || c != Ok(want.clone()) {
                let alts: Vec<_> = v.iter().map(|k| ALTS[*k]).collect();
                rep.violation(
                    &format!("built {t:?} {alts:?} {s:?}"),
                    &format!("longest match {t:?} of {alts:?} ({}) on {s:?}: matching ends at {m:?}, constructing gives {c:?}, expected {want:?}", C::NAME),
                );
            }
        }
    }
}

fn pair_value(t: Option<Tab>, n: usize, v: V) -> V {
    match t {
        Some(Tab::PairArrayLtm | Tab::PairSliceLtm | Tab::PairVectorLtm) => keyed((v, 100 + n as u32)),
        _ => v,
    }
}

fn both<C: Hc>(rep: &Rep, n: usize) {
    let inputs = inputs(&['a', 'b'], n);
    let ends: Vec<Vec<Option<(usize, V)>>> = (0..ALTS.len())
        .map(|k| {
            let p = Pat::<C> { p: alt::<C>(k) };
            inputs
                .iter()
                .map(|s| {
                    let c = p.ct(s, 0, Skip::None, Fault::default(), &mut vec![]).ok()?;
                    c.val.map(|v| (c.at, v))
                })
                .collect()
        })
        .collect();
    let mut items: Vec<Vec<usize>> = vec![];
    for a in 0..ALTS.len() {
        for b in 0..ALTS.len() {
            items.push(vec![a, b]);
            items.extend((0..ALTS.len()).map(|c| vec![a, b, c]));
        }
    }
    rep.explore(&format!("alternatives built at run time / {}", C::NAME), &items, |rep, v, l| one::<C>(rep, v, &ends, &inputs, l));
}

pub fn longest(rep: &Rep) {
    let n = if rep.quick() { 4 } else { 6 };
    both::<Cs>(rep, n);
    both::<Bs>(rep, n);
}
