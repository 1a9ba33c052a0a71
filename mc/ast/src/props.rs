use crate::huge;
use mc_ast::build::*;
use mc_ast::enumerate::*;
use mc_ast::families::*;
use mc_ast::model::{Fault, Skip};
use mc_ast::run::{Pat, model};
use mc_ast::sweep::*;
use mc_ast::*;
use mc_core::{Local, Rep, guarded};
use neure::ctx::{Context, MatchExt, PolicyMatch};
use std::sync::Arc;

const NOSKIP: &[Skip] = &[Skip::None];
const SKIPS: &[Skip] = &[Skip::Space, Skip::Dash, Skip::Pairs];

pub fn fam<'f>(name: &'f str, terms: &'f [A], inputs: &'f [&'static str]) -> Fam<'f> {
    Fam {
        name,
        terms,
        inputs,
        skips: SKIPS,
        max_start: usize::MAX,
        min_start: at_zero,
    }
}

pub fn plain(rep: &Rep, f: &Fam, asp: Asp) {
    sweep::<Cs>(rep, f, asp);
    sweep::<Bs>(rep, f, asp);
}

/// Inputs that exercise the skip patterns.
pub fn skip_inputs(n: usize) -> Vec<&'static str> {
    let mut v = inputs(&['a', 'b', ' '], n);
    v.extend(inputs(&['a', '-'], n).into_iter().filter(|s| s.contains('-')));
    for s in [
        "<>", "<>a", "a<>b", "a<><>b", "ab<>", "<><>a<>b<>", "<a>", "a<", "a< >b", "<<>>a", "a<>a<>a<>a",
        "a - b", " a", "  a  b  ", "a b a b", "- a-b",
    ] {
        v.push(s);
    }
    v
}

/// Inputs far longer than the bounded families: many elements of one kind.
pub fn long_inputs() -> Vec<&'static str> {
    let mut v: Vec<String> = vec![];
    for n in [5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] {
        v.push("a".repeat(n));
        v.push("ab".repeat(n));
        v.push("ab".repeat(n) + "a");
        v.push("a".repeat(n) + "b");
        v.push("ba".repeat(n));
    }
    v.into_iter().map(|s| &*s.leak()).collect()
}

pub fn long_fam<'f>(name: &'f str, terms: &'f [A], inputs: &'f [&'static str]) -> Fam<'f> {
    Fam {
        name,
        terms,
        inputs,
        skips: SKIPS,
        max_start: 2,
        min_start: at_zero,
    }
}

/// Short texts far into an input.
pub fn far_inputs(alpha: &[char], n: usize) -> Vec<&'static str> {
    let mut v = vec![];
    for pad in [127, 255, 256, 32767, 65535, 65536, 70001] {
        for s in inputs(alpha, n) {
            v.push(&*String::leak("x".repeat(pad) + s));
        }
    }
    v
}

pub fn far_fam<'f>(name: &'f str, terms: &'f [A], inputs: &'f [&'static str]) -> Fam<'f> {
    Fam {
        name,
        terms,
        inputs,
        skips: SKIPS,
        max_start: usize::MAX,
        min_start: after_pad,
    }
}

pub fn everything(rep: &Rep, asp: Asp, policy: bool) {
    let q = rep.quick();
    // every leaf under every operator
    let t3 = flat(terms(&leaves_all(), &all_ops(), 3));
    let i3 = inputs(&['a', 'b'], 3);
    plain(rep, &fam("all operators, all leaves, size 3", &t3, &i3), asp);
    // nesting
    let t4 = flat(terms(&leaves_tiny(), &all_ops(), 4));
    let i4 = inputs(&['a', 'b'], if q { 4 } else { 6 });
    plain(rep, &fam("all operators, size 4", &t4, &i4), asp);
    let t5 = flat(terms(&leaves_tiny(), &core_ops(), if q { 5 } else { 6 }));
    let i5 = inputs(&['a', 'b'], if q { 3 } else { 4 });
    plain(rep, &fam("core operators, nested", &t5, &i5), asp);
    if !q {
        let t4 = flat(terms(&leaves_small(), &all_ops(), 4));
        plain(rep, &fam("all operators, more leaves, size 4", &t4, &inputs(&['a', 'b'], 5)), asp);
        let t3 = flat(terms(&leaves_all(), &all_ops(), 3));
        plain(rep, &fam("all operators, all leaves, longer inputs", &t3, &inputs(&['a', 'b'], 5)), asp);
    }
    // characters of every width
    let tw = flat(terms(&leaves_wide(), &all_ops(), 3));
    let iw = inputs(&['a', 'é', '好', '𝄞'], if q { 2 } else { 3 });
    sweep::<Cs>(rep, &fam("wide characters, size 3", &tw, &iw), asp);
    let tl = flat(terms(&leaves_tiny(), &all_ops(), 3));
    let il = long_inputs();
    plain(rep, &long_fam("long inputs, size 3", &tl, &il), asp);
    let tf = flat(terms(&leaves_all(), &all_ops(), 2)).into_iter().chain(flat(terms(&leaves_tiny(), &all_ops(), 3))).collect::<Vec<_>>();
    plain(rep, &far_fam("far positions", &tf, &far_inputs(&['a', 'b'], if q { 2 } else { 3 })), asp);
    sweep::<Cs>(rep, &far_fam("far positions, wide characters", &tw, &far_inputs(&['a', 'é', '𝄞'], 1)), asp);
    if policy {
        let tp = flat(terms(&leaves_tiny(), &all_ops(), 2));
        sweep::<Pc>(rep, &far_fam("far positions, skip policy", &tp, &far_inputs(&['a', ' ', 'b'], 3)), asp);
        sweep::<Pb>(rep, &far_fam("far positions, skip policy", &tp, &far_inputs(&['a', ' ', 'b'], 3)), asp);
        let tp = flat(terms(&leaves_all(), &all_ops(), if q { 2 } else { 3 }));
        let ip = skip_inputs(3);
        sweep::<Pc>(rep, &fam("skip policy, all leaves", &tp, &ip), asp);
        sweep::<Pb>(rep, &fam("skip policy, all leaves", &tp, &ip), asp);
        let tp = flat(terms(&leaves_tiny(), &all_ops(), 3));
        let ip = skip_inputs(if q { 3 } else { 4 });
        sweep::<Pc>(rep, &fam("skip policy, size 3", &tp, &ip), asp);
        sweep::<Pb>(rep, &fam("skip policy, size 3", &tp, &ip), asp);
        if !q {
            let tp = flat(terms(&leaves_tiny(), &core_ops(), 4));
            let ip = skip_inputs(3);
            sweep::<Pc>(rep, &fam("skip policy, nested", &tp, &ip), asp);
            sweep::<Pb>(rep, &fam("skip policy, nested", &tp, &ip), asp);
        }
    }
}

pub fn p01(rep: &Rep) {
    let asp = Asp {
        span: true,
        ..Default::default()
    };
    everything(rep, asp, true);
    let t = flat(terms(&leaves_all(), &all_ops(), 2)).into_iter().chain(flat(terms(&leaves_wide(), &core_ops(), 2))).collect::<Vec<_>>();
    let x = huge::texts(&["", "a", "ab", "aab", "aé", "éa好", "𝄞b"]);
    huge::family::<Cs>(rep, &t, &x, NOSKIP, false);
    huge::family::<Bs>(rep, &t, &x, NOSKIP, false);
}

pub fn p02(rep: &Rep) {
    let asp = Asp {
        restore_rx: true,
        ..Default::default()
    };
    everything(rep, asp, true);
    built(rep, asp);
    policies(rep);
}

pub fn p03(rep: &Rep) {
    let q = rep.quick();
    faults::<Cs>(rep, "rejections, all leaves", &flat(terms(&leaves_all(), &all_ops(), 2)), &inputs(&['a', 'b'], 3));
    faults::<Bs>(rep, "rejections, all leaves", &flat(terms(&leaves_all(), &all_ops(), 2)), &inputs(&['a', 'b'], 3));
    let t = flat(terms(&leaves_tiny(), &all_ops().plus(&dyn_ops()), 3));
    let i = inputs(&['a', 'b'], if q { 4 } else { 5 });
    faults::<Cs>(rep, "rejections, size 3", &t, &i);
    faults::<Bs>(rep, "rejections, size 3", &t, &i);
    let mapped = mapped_terms(if q { 3 } else { 4 });
    faults::<Cs>(rep, "mapper rejections inside operators", &mapped, &i);
    let t = flat(terms(&leaves_tiny(), &core_ops(), 4));
    let i = inputs(&['a', 'b'], if q { 3 } else { 4 });
    faults::<Cs>(rep, "rejections, nested", &t, &i);
    if !q {
        faults::<Bs>(rep, "rejections, nested", &t, &i);
    }
    let t: Vec<A> = flat(terms(&leaves_tiny(), &all_ops().plus(&rxdyn_ops()), 3)).into_iter().filter(|t| has_rxdyn(t)).collect();
    faults::<Cs>(rep, "rejections, matching parts built at run time", &t, &inputs(&['a', 'b'], 4));
    // no rejection at all, with everything else that can fail
    let asp = Asp {
        restore_ct: true,
        ..Default::default()
    };
    everything(rep, asp, true);
    built(rep, asp);
}

/// Terms over leaves that carry a mapper.
fn mapped_terms(n: usize) -> Vec<A> {
    let leaves: Vec<A> = leaves_tiny().into_iter().map(|a| Arc::new(Ast::Map(a))).collect();
    flat(terms(&leaves, &all_ops().plus(&dyn_ops()), n))
}

/// Every single range the handler (or a mapper) sees is rejected in turn.
pub fn faults<C: Hc>(rep: &Rep, name: &str, terms: &[A], inputs: &[&'static str]) {
    let name = format!("{name} / {}", C::NAME);
    rep.explore(&name, terms, |rep, t, loc| {
        let pat = Pat::<C>::new(t);
        let mapped = t.any(&mut |x| matches!(x, Ast::Map(_)));
        for &s in inputs {
            for at in starts(s, usize::MAX) {
                let mut log = vec![];
                if pat.ct(s, at, Skip::None, Fault::default(), &mut log).is_err() {
                    continue;
                }
                log.sort();
                log.dedup();
                let mut points: Vec<Fault> = vec![];
                for r in &log {
                    points.push(Fault {
                        handler: Some(*r),
                        mapper: None,
                    });
                    if mapped {
                        points.push(Fault {
                            handler: None,
                            mapper: Some(*r),
                        });
                    }
                }
                for f in points {
                    one_fault::<C>(rep, &pat, t, s, at, f, loc);
                }
            }
        }
    });
}

fn one_fault<C: Hc>(rep: &Rep, pat: &Pat<C>, t: &A, s: &'static str, at: usize, f: Fault, loc: &mut Local) {
    loc.states += 1;
    loc.traces += 1;
    let bad = |text: String| {
        rep.violation(
            &format!("reject:{t:?}:{s:?}@{at}:{f:?}:{}", C::NAME),
            &format!("pattern {t:?}, {} input {s:?}, start {at}, rejected {f:?}: {text}", C::NAME),
        );
    };
    let mut log = vec![];
    let got = match pat.ct(s, at, Skip::None, f, &mut log) {
        Ok(v) => v,
        Err(e) => return bad(e),
    };
    match pat.called(s, at, f) {
        Ok([_, (ok, p)]) => {
            // a pattern that is a single leaf leaves it to its caller
            let leaf = matches!(**t, Ast::L(_) | Ast::Pat(_) | Ast::Map(_) | Ast::Not(_) | Ast::Peek(_) | Ast::RxDyn(..));
            if ok != got.val.is_some() || p != got.at && !leaf {
                bad(format!("called directly gave {ok} at {p}, through the context {} at {}", got.val.is_some(), got.at));
            }
        }
        Err(e) => bad(e),
    }
    let m = model::<C>(s, Skip::None, f);
    let want = m.ct(t, at, &mut vec![]);
    match &want {
        Some((v, e)) => {
            loc.matched += 1;
            if got.val.as_ref() != Some(v) || got.at != *e {
                bad(format!("gave {:?} ending at {}, expected {v:?} ending at {e}", got.val, got.at));
            }
        }
        None => {
            loc.failed += 1;
            if got.val.is_some() {
                bad(format!("gave {:?}, expected a failure", got.val));
            } else if got.at != at {
                bad(format!("failed and left position {}", got.at));
            }
        }
    }
}

pub fn p04(rep: &Rep) {
    let asp = Asp {
        agree: true,
        ..Default::default()
    };
    everything(rep, asp, false);
    // with a skip policy: up to further skippable text
    let q = rep.quick();
    let t = keep(flat(terms(&leaves_all(), &all_ops(), 3)));
    let i = skip_inputs(if q { 2 } else { 3 });
    sweep::<Pc>(rep, &fam("skip policy, all leaves, size 3", &t, &i), asp);
    sweep::<Pb>(rep, &fam("skip policy, all leaves, size 3", &t, &i), asp);
    let t = keep(flat(terms(&leaves_tiny(), &core_ops(), 4)));
    let i = skip_inputs(if q { 3 } else { 4 });
    sweep::<Pc>(rep, &fam("skip policy, nested", &t, &i), asp);
    built(rep, asp);
}

/// Matching parts built at run time inside every operator.
pub fn built(rep: &Rep, asp: Asp) {
    let q = rep.quick();
    let only = |v: Vec<A>| -> Vec<A> { v.into_iter().filter(|t| has_rxdyn(t)).collect() };
    let t = only(flat(terms(&leaves_small(), &all_ops().plus(&rxdyn_ops()), 3)));
    plain(rep, &fam("matching parts built at run time, size 3", &t, &inputs(&['a', 'b'], if q { 4 } else { 6 })), asp);
    let t = only(flat(terms(&leaves_tiny(), &core_ops().plus(&rxdyn_ops()), 4)));
    plain(rep, &fam("matching parts built at run time, nested", &t, &inputs(&['a', 'b'], if q { 4 } else { 6 })), asp);
    let t = only(flat(terms(&leaves_wide(), &core_ops().plus(&rxdyn_ops()), if q { 2 } else { 3 })));
    sweep::<Cs>(rep, &fam("matching parts built at run time, wide characters", &t, &inputs(&['a', 'é', '𝄞'], 3)), asp);
    let t = keep(only(flat(terms(&leaves_tiny(), &core_ops().plus(&rxdyn_ops()), 3))));
    let i = skip_inputs(if q { 3 } else { 4 });
    sweep::<Pc>(rep, &fam("matching parts built at run time, skip policy", &t, &i), asp);
    sweep::<Pb>(rep, &fam("matching parts built at run time, skip policy", &t, &i), asp);
}

pub fn modelled() -> Asp {
    Asp {
        rx: true,
        ct: true,
        ..Default::default()
    }
}

/// The common plan of P05..P09: own operators in depth, own operators below
/// and above every other kind, long inputs, wide characters.
fn own(rep: &Rep, ops: Ops, deep: Ops, size_q: usize, size_t: usize, deep_q: usize) {
    let q = rep.quick();
    let asp = modelled();
    let t = flat(terms(&leaves_all(), &ops, 3));
    let i = inputs(&['a', 'b'], 4);
    plain(rep, &fam("all leaves, size 3", &t, &i), asp);
    let t = flat(terms(&leaves_small(), &ops, if q { size_q } else { size_t }));
    let i = inputs(&['a', 'b'], if q { 4 } else { 5 });
    plain(rep, &fam("own operators", &t, &i), asp);
    let t = flat(terms(&leaves_tiny(), &deep, if q { deep_q } else { deep_q + 1 }));
    let i = inputs(&['a', 'b'], 4);
    plain(rep, &fam("own operators, deep", &t, &i), asp);
    let t = flat(terms(&leaves_wide(), &ops, 3));
    let i = inputs(&['a', 'é', '𝄞'], if q { 3 } else { 4 });
    sweep::<Cs>(rep, &fam("wide characters", &t, &i), asp);
    let t = flat(terms(&leaves_tiny(), &ops, 3));
    let i = long_inputs();
    plain(rep, &long_fam("long inputs", &t, &i), asp);
    let t = flat(terms(&leaves_tiny(), &ops, 3));
    let i = far_inputs(&['a', 'b'], if q { 2 } else { 3 });
    plain(rep, &far_fam("far positions", &t, &i), asp);
    // mixed with every other operator, keeping only terms with an own one
    let all = flat(terms(&leaves_tiny(), &core_ops().plus(&deep), if q { 4 } else { 5 }));
    let i = inputs(&['a', 'b'], if q { 3 } else { 4 });
    plain(rep, &fam("mixed operators", &all, &i), asp);
}

pub fn p05(rep: &Rep) {
    let deep = Ops::default()
        .one(Ast::Opt)
        .two(Ast::Then)
        .two(Ast::Or)
        .two(Ast::Prefix)
        .two(|a, b| Ast::IfElse(Test::NextA, a, b))
        .three(Ast::Enclose)
        .three(Ast::SepOnce)
        .three(Ast::IfThen);
    own(rep, seq_ops(), deep, 5, 6, 6);
    let t = flat(terms(&leaves_tiny(), &ws_ops().plus(&Ops::default().two(Ast::Then).one(Ast::Opt)), 4));
    let i = inputs(&['a', 'b', ' '], 4);
    plain(rep, &fam("whitespace affixes", &t, &i), modelled());
    let i = inputs(&['a', '\u{a0}', '\t', '\u{3000}'], 3);
    ws_unicode(rep, &i);
}

/// `skip_ws` skips any Unicode whitespace, `skip_ascii_ws` only ASCII's.
fn ws_unicode(rep: &Rep, inputs: &[&'static str]) {
    use neure::ctor::CtorOps;
    use neure::ctx::CharsCtx;
    rep.explore("whitespace classes of the affixes", inputs, |rep, s, loc| {
        type C = CharsCtx<'static>;
        let uni = |c: char| c.is_whitespace();
        let asc = |c: char| c.is_ascii_whitespace();
        let trim = |p: usize, f: &dyn Fn(char) -> bool| s.len() - s[p..].trim_start_matches(f).len();
        for at in starts(s, usize::MAX) {
            for k in 0..4 {
                loc.states += 1;
                loc.traces += 1;
                let mut c = CharsCtx::new(*s);
                c.set_offset(at);
                let got = guarded(|| {
                    let r = match k {
                        0 => c.ctor(&CtorOps::<'static, C>::skip_ws("a")),
                        1 => c.ctor(&CtorOps::<'static, C>::skip_ascii_ws("a")),
                        2 => c.ctor(&CtorOps::<'static, C>::skip_ws_leading("a")),
                        _ => c.ctor(&CtorOps::<'static, C>::skip_ascii_ws_leading("a")),
                    };
                    r.ok().map(|t: &str| (t.to_string(), c.offset()))
                });
                let f: &dyn Fn(char) -> bool = if k % 2 == 0 { &uni } else { &asc };
                let beg = if k >= 2 { trim(at, f) } else { at };
                let want = s[beg..].starts_with('a').then(|| {
                    let e = beg + 1;
                    ("a".to_string(), if k < 2 { trim(e, f) } else { e })
                });
                if want.is_some() {
                    loc.matched += 1;
                } else {
                    loc.failed += 1;
                }
                if got != Ok(want.clone()) {
                    rep.violation(
                        &format!("ws{k}:{s:?}@{at}"),
                        &format!("whitespace affix {k} on {s:?} at {at}: {got:?}, expected {want:?}"),
                    );
                }
            }
        }
    });
}

pub fn p06(rep: &Rep) {
    let deep = Ops::default()
        .one(|a| Ast::Repeat(Rng::From(1), a))
        .one(|a| Ast::Repeat(Rng::Excl(0, 2), a))
        .one(|a| Ast::Repeat(Rng::Exact(2), a))
        .one(|a| Ast::Repeat2(2, a))
        .one(|a| Ast::Repeat2(4, a))
        .one(|a| Ast::Collect(1, a))
        .one(|a| Ast::Collect(2, a))
        .two(Ast::Then)
        .two(Ast::Or);
    let ops = rep_ops(RNGS, SIZES.len(), 4).plus(&Ops::default().two(Ast::Then));
    own(rep, ops, deep, 4, 5, 6);
    counts(rep);
    let mut t: Vec<A> = vec![];
    for n in EXTREME {
        for a in [lit("a"), lit("ab"), Arc::new(Ast::Then(lit("a"), Arc::new(Ast::Opt(lit("b")))))] {
            for r in [Rng::From(n), Rng::Incl(0, n), Rng::Incl(1, n), Rng::Excl(0, n), Rng::Excl(2, n), Rng::Exact(n), Rng::To(n), Rng::ToIncl(n), Rng::After(n - 1), Rng::AfterTo(0, n), Rng::Incl(n, 2)] {
                t.push(Arc::new(Ast::Repeat(r, a.clone())));
            }
            t.push(Arc::new(Ast::Collect(n, a.clone())));
        }
    }
    plain(rep, &fam("extreme bounds", &t, &inputs(&['a', 'b'], 4)), modelled());
    crate::coll::collect(rep);
    crate::edge::many_elements(rep);
    crate::edge::wide_arrays(rep);
}

/// Every pair of bounds around every length, for inputs of many elements.
fn counts(rep: &Rep) {
    let q = rep.quick();
    let mut t: Vec<A> = vec![];
    let ns: Vec<usize> = if q {
        vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 257]
    } else {
        (0..=66).chain([127, 128, 129, 255, 256, 257]).collect()
    };
    for &lo in &ns {
        let a = lit("a");
        t.push(Arc::new(Ast::Repeat(Rng::From(lo), a.clone())));
        t.push(Arc::new(Ast::Repeat(Rng::Exact(lo), a.clone())));
        t.push(Arc::new(Ast::Repeat(Rng::After(lo), a.clone())));
        t.push(Arc::new(Ast::Collect(lo, a.clone())));
        t.push(Arc::new(Ast::L(Leaf::Times(U::Ch('a'), lo, lo))));
        for &hi in &ns {
            t.push(Arc::new(Ast::Repeat(Rng::Incl(lo, hi), a.clone())));
            t.push(Arc::new(Ast::Repeat(Rng::Excl(lo, hi), a.clone())));
            if lo <= hi {
                t.push(Arc::new(Ast::L(Leaf::Times(U::Ch('a'), lo, hi))));
            }
        }
    }
    let mut i: Vec<&'static str> = vec![];
    for n in ns.iter().flat_map(|n| [n.saturating_sub(1), *n, n + 1]).collect::<std::collections::BTreeSet<_>>() {
        i.push(String::leak("a".repeat(n)));
    }
    i.push(String::leak("a".repeat(40) + "b" + &"a".repeat(40)));
    let f = Fam {
        name: "bounds against lengths",
        terms: &t,
        inputs: &i,
        skips: NOSKIP,
        max_start: 0,
        min_start: at_zero,
    };
    sweep::<Cs>(rep, &f, modelled());
}

/// No input is that long, but a bound may be.
const EXTREME: [usize; 6] = [usize::MAX, usize::MAX - 1, isize::MAX as usize + 1, isize::MAX as usize, 1 << 45, (1 << 32) + 1];

pub fn p07(rep: &Rep) {
    let deep = Ops::default()
        .two(|a, b| Ast::Sep(true, 1, a, b))
        .two(|a, b| Ast::Sep(false, 2, a, b))
        .two(|a, b| Ast::Sep2(true, 2, a, b))
        .two(|a, b| Ast::Sep2(false, 5, a, b))
        .two(|a, b| Ast::SepCollect(true, 2, a, b))
        .two(Ast::Then);
    own(rep, sep_ops(SIZES.len(), 4), deep, 5, 5, 7);
    crate::coll::separated(rep);
    crate::edge::many_separated(rep);
    crate::edge::wide_arrays(rep);
    // elements and separators of several characters, long lists
    let q = rep.quick();
    let e = [lit("a"), lit("ab"), lit(""), Arc::new(Ast::Opt(lit("a"))), Arc::new(Ast::Then(lit("a"), lit("b")))];
    let p = [lit("b"), lit("ba"), lit("bb"), Arc::new(Ast::Then(lit("b"), lit("a"))), Arc::new(Ast::Peek(lit("a")))];
    let mut t: Vec<A> = vec![];
    for x in &e {
        for y in &p {
            for skip in [true, false] {
                for m in 0..5 {
                    t.push(Arc::new(Ast::Sep(skip, m, x.clone(), y.clone())));
                    t.push(Arc::new(Ast::SepCollect(skip, m, x.clone(), y.clone())));
                }
                for k in 0..SIZES.len() {
                    t.push(Arc::new(Ast::Sep2(skip, k, x.clone(), y.clone())));
                }
            }
        }
    }
    t.retain(|a| a.well_formed());
    let i = inputs(&['a', 'b'], if q { 8 } else { 11 });
    let ns = [0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257];
    let mut many: Vec<A> = vec![];
    for skip in [true, false] {
        for m in ns {
            many.push(Arc::new(Ast::Sep(skip, m, lit("a"), lit("b"))));
            many.push(Arc::new(Ast::SepCollect(skip, m, lit("a"), lit("b"))));
        }
    }
    let long: Vec<&'static str> = ns
        .iter()
        .flat_map(|n| ["ab".repeat(*n), "ab".repeat(*n) + "a", "ab".repeat(*n) + "b", "ab".repeat(*n) + "aab"])
        .map(|s| &*s.leak())
        .collect();
    plain(rep, &long_fam("list minimums against lengths", &many, &long), modelled());
    let mut most: Vec<A> = vec![];
    for n in EXTREME {
        for skip in [true, false] {
            for (x, y) in [(lit("a"), lit("b")), (Arc::new(Ast::Opt(lit("a"))), lit("b"))] {
                most.push(Arc::new(Ast::Sep(skip, n, x.clone(), y.clone())));
                most.push(Arc::new(Ast::SepCollect(skip, n, x, y)));
            }
        }
    }
    // none is long enough; so that something matches
    most.push(Arc::new(Ast::Sep(true, 1, lit("a"), lit("b"))));
    plain(rep, &fam("extreme minimums", &most, &inputs(&['a', 'b'], 4)), modelled());
    let f = Fam {
        name: "lists over long inputs",
        terms: &t,
        inputs: &i,
        skips: NOSKIP,
        max_start: 1,
        min_start: at_zero,
    };
    plain(rep, &f, modelled());
}

pub fn p08(rep: &Rep) {
    let ops = ltm_ops().plus(&tab_ops(
        &[Tab::ArrayLtm, Tab::SliceLtm, Tab::VectorLtm, Tab::PairArrayLtm, Tab::PairSliceLtm, Tab::PairVectorLtm],
        true,
    ));
    let deep = ltm_ops()
        .two(Ast::Then)
        .one(Ast::Opt)
        .one(Ast::Map)
        .two(|a, b| Ast::Table(Tab::VectorLtm, vec![a, b]))
        .two(|a, b| Ast::Table(Tab::PairSliceLtm, vec![a, b]));
    own(rep, ops, deep, 4, 5, 6);
    tables(rep, true);
    crate::edge::huge_tables(rep, true);
    ltm_skipping(rep);
    crate::odd::longest(rep);
}

/// Every table of up to four entries over distinguishable alternatives.
fn tables(rep: &Rep, ltm: bool) {
    let q = rep.quick();
    let e = [
        lit("a"),
        lit("ab"),
        lit("b"),
        Arc::new(Ast::Map(lit("a"))),
        Arc::new(Ast::Then(lit("a"), lit("b"))),
        l(Leaf::Many0(U::Ch('a'))),
        l(Leaf::Fail),
    ];
    let mut t: Vec<A> = vec![];
    for k in Tab::ALL {
        if k.ltm() != ltm {
            continue;
        }
        t.push(Arc::new(Ast::Table(k, vec![])));
        let mut rows: Vec<Vec<A>> = vec![vec![]];
        for n in 1..=4 {
            rows = rows
                .iter()
                .flat_map(|r| {
                    e.iter().map(move |x| {
                        let mut r = r.clone();
                        r.push(x.clone());
                        r
                    })
                })
                .collect();
            for r in &rows {
                t.push(Arc::new(Ast::Table(k, r.clone())));
            }
            if q && n == 3 {
                break;
            }
        }
    }
    let i = inputs(&['a', 'b'], 3);
    plain(rep, &fam("tables of up to four entries", &t, &i), modelled());
    // many entries: the one or two that match, in every place
    let fail = || l(Leaf::Fail);
    let (one, two) = (lit("a"), lit("ab"));
    let mut t: Vec<A> = vec![];
    for k in Tab::ALL {
        if k.ltm() != ltm {
            continue;
        }
        let array = matches!(k, Tab::Array | Tab::ArrayLtm | Tab::PairArray | Tab::PairArrayLtm);
        let sizes: &[usize] = match (array, q) {
            (true, _) => &[9, 40],
            (false, true) => &[9, 17, 40, 70],
            (false, false) => &[5, 6, 7, 8, 9, 16, 17, 33, 40, 64, 70, 129, 257],
        };
        for &n in sizes {
            let places: Vec<usize> = if n <= 70 { (0..n).collect() } else { vec![0, 1, n / 2, 127, 128, n - 2, n - 1] };
            for &x in &places {
                let mut row = vec![fail(); n];
                row[x] = one.clone();
                t.push(Arc::new(Ast::Table(k, row.clone())));
                for &y in &places {
                    if n > 17 && ![0, 1, x.wrapping_sub(1), x + 1, n / 2, n - 2, n - 1].contains(&y) {
                        continue;
                    }
                    for p in [&one, &two] {
                        let mut row = row.clone();
                        row[y] = p.clone();
                        t.push(Arc::new(Ast::Table(k, row)));
                    }
                }
            }
            // entries that grow and shrink
            let run = |n: usize| -> A { Arc::new(Ast::L(Leaf::Times(U::Ch('a'), n, n))) };
            t.push(Arc::new(Ast::Table(k, (1..=n).map(run).collect())));
            t.push(Arc::new(Ast::Table(k, (1..=n).rev().map(run).collect())));
            t.push(Arc::new(Ast::Table(k, (0..n).map(|i| run(1 + i * 3 % n)).collect())));
        }
    }
    let i: Vec<&'static str> = ["", "a", "b", "ab", "aab", "aaaaaaaaa"]
        .into_iter()
        .chain([16, 17, 40, 64, 70, 300].map(|n| &*"a".repeat(n).leak()))
        .collect();
    plain(rep, &long_fam("tables of many entries", &t, &i), modelled());
}

pub fn p09(rep: &Rep) {
    let ops = look_ops().two(Ast::Then).one(Ast::Opt);
    let deep = look_ops().two(Ast::Then).two(Ast::Or);
    own(rep, ops, deep, 7, 8, 6);
    // every literal on every input; every byte count
    let mut t: Vec<A> = vec![];
    for s in inputs(&['a', 'b'], 5) {
        t.push(lit(s));
    }
    for n in 0..9 {
        t.push(l(Leaf::Consume(n)));
    }
    t.extend(leaves_all());
    let looked: Vec<A> = t
        .iter()
        .flat_map(|a| [Arc::new(Ast::Not(a.clone())), Arc::new(Ast::Peek(a.clone()))])
        .collect();
    t.extend(looked);
    let i = inputs(&['a', 'b'], if rep.quick() { 6 } else { 9 });
    let all = Asp {
        rx: true,
        ct: true,
        span: true,
        restore_rx: true,
        restore_ct: true,
        ..Default::default()
    };
    plain(rep, &fam("literals, consumers and anchors", &t, &i), all);
    let mut t: Vec<A> = inputs(&['a', 'é', '好'], 3).into_iter().map(lit).collect();
    t.extend(leaves_wide());
    let looked: Vec<A> = t.iter().map(|a| Arc::new(Ast::Not(a.clone()))).collect();
    t.extend(looked);
    let i = inputs(&['a', 'é', '好', '𝄞'], if rep.quick() { 4 } else { 5 });
    sweep::<Cs>(rep, &fam("wide literals", &t, &i), all);
    bang::<Cs>(rep);
    bang::<Bs>(rep);
    consume_overflow(rep);
    crate::edge::beyond(rep);
    crate::edge::every_char(rep);
}

/// The `!` operator on every concrete pattern type is negative lookahead.
fn bang<C: Hc>(rep: &Rep) {
    use neure::ctor::CtorOps;
    let x = || leaves_tiny();
    let kids: Vec<(A, A, A)> = x()
        .into_iter()
        .flat_map(|a| x().into_iter().flat_map(move |b| {
            let a = a.clone();
            x().into_iter().map(move |c| (a.clone(), b.clone(), c))
        }))
        .collect();
    let inp = inputs(&['a', 'b'], 4);
    rep.explore(&format!("the ! operator / {}", C::NAME), &kids, |rep, (x, y, z), loc| {
        let one = |p: Bx<C>, t: Ast, loc: &mut Local| {
            let t = Ast::Not(Arc::new(t));
            for &s in &inp {
                let m = model::<C>(s, Skip::None, Fault::default());
                for at in starts(s, usize::MAX) {
                    loc.states += 1;
                    loc.traces += 1;
                    let want = m.rx(&t, at).is_some();
                    let got = guarded(|| {
                        let mut c = C::mk(s, Skip::None);
                        c.set_offset(at);
                        mc_core::set_budget(mc_ast::run::BUDGET);
                        let a = c.try_mat(&p).ok().map(|v| (v.beg(), v.len()));
                        let b = c.ctor_handler(&p, Hd::default()).ok();
                        (a, b, c.offset())
                    });
                    if want {
                        loc.matched += 1;
                    } else {
                        loc.failed += 1;
                    }
                    let v = V::S(at as u32, 0);
                    let want = (want.then_some((at, 0)), want.then_some(v), at);
                    if got != Ok(want.clone()) {
                        rep.violation(
                            &format!("bang:{t:?}:{s:?}@{at}:{}", C::NAME),
                            &format!("!pattern {t:?}, {} input {s:?} at {at}: {got:?}, expected {want:?}", C::NAME),
                        );
                    }
                }
            }
        };
        let (a, b, c) = (x.clone(), y.clone(), z.clone());
        macro_rules! k {
            ($e:expr) => {
                build::<C>(&$e)
            };
        }
        macro_rules! go {
            ($p:expr, $t:expr) => {
                one(Box::new(!$p), $t, loc)
            };
        }
        macro_rules! m {
            ($f:ident($p:expr $(, $q:expr)*)) => {
                CtorOps::<'static, C>::$f($p $(, $q)*)
            };
        }
        use neure::regex;
        go!(m!(then(k!(a), k!(b))), Ast::Then(a.clone(), b.clone()));
        go!(m!(or(k!(a), k!(b))), Ast::Or(a.clone(), b.clone()));
        go!(m!(longest(k!(a), k!(b))), Ast::Ltm(a.clone(), b.clone()));
        go!(m!(prefix(k!(a), k!(b))), Ast::Prefix(a.clone(), b.clone()));
        go!(m!(suffix(k!(a), k!(b))), Ast::Suffix(a.clone(), b.clone()));
        go!(m!(enclose(k!(a), k!(b), k!(c))), Ast::Enclose(a.clone(), b.clone(), c.clone()));
        go!(m!(sep_once(k!(a), k!(b), k!(c))), Ast::SepOnce(a.clone(), b.clone(), c.clone()));
        go!(m!(if_then(k!(a), k!(b), k!(c))), Ast::IfThen(a.clone(), b.clone(), c.clone()));
        go!(
            m!(if_else(k!(a), |c: &C| Ok(c.offset() % 2 == 0), k!(b))),
            Ast::IfElse(Test::Even, a.clone(), b.clone())
        );
        go!(m!(opt(k!(a))), Ast::Opt(a.clone()));
        go!(m!(pat(k!(a))), Ast::Pat(a.clone()));
        go!(CtorOps::<'static, C>::map::<_, V>(k!(a), |v: V| v), Ast::Map(a.clone()));
        go!(m!(repeat(k!(a), 1..3)), Ast::Repeat(Rng::Excl(1, 3), a.clone()));
        go!(CtorOps::<'static, C>::repeat2::<2, 3>(k!(a)), Ast::Repeat2(5, a.clone()));
        if !a.nullable() {
            go!(
                CtorOps::<'static, C>::collect::<V, Vec<V>>(k!(a)).at_least(2),
                Ast::Collect(2, a.clone())
            );
            go!(m!(sep(k!(a), k!(b))).at_least(2), Ast::Sep(true, 2, a.clone(), b.clone()));
            go!(
                CtorOps::<'static, C>::sep_collect::<_, V, Vec<V>>(k!(a), k!(b)),
                Ast::SepCollect(true, 1, a.clone(), b.clone())
            );
        }
        go!(
            CtorOps::<'static, C>::sep2::<_, 1, 2>(k!(a), k!(b)),
            Ast::Sep2(true, 2, a.clone(), b.clone())
        );
        go!(regex::array([k!(a), k!(b)]), Ast::Table(Tab::Array, vec![a.clone(), b.clone()]));
        go!(regex::vector([k!(a), k!(b)]), Ast::Table(Tab::Vector, vec![a.clone(), b.clone()]));
        go!(regex::vector_ltm([k!(a), k!(b)]), Ast::Table(Tab::VectorLtm, vec![a.clone(), b.clone()]));
        go!(regex::pair_array([(k!(a), 1)]), Ast::Table(Tab::Array, vec![a.clone()]));
        go!(regex::pair_vector([(k!(a), 1), (k!(b), 2)]), Ast::Table(Tab::Vector, vec![a.clone(), b.clone()]));
        let v: &'static Vec<Bx<C>> = Box::leak(Box::new(vec![k!(a), k!(b)]));
        go!(regex::slice(v), Ast::Table(Tab::Slice, vec![a.clone(), b.clone()]));
        let v: &'static Vec<(Bx<C>, u32)> = Box::leak(Box::new(vec![(k!(a), 1), (k!(b), 2)]));
        go!(regex::pair_slice(v), Ast::Table(Tab::Slice, vec![a.clone(), b.clone()]));
        go!(regex::not(k!(a)), Ast::Not(a.clone()));
        go!(regex::peek(k!(a)), Ast::Peek(a.clone()));
        go!(regex::start(), Ast::L(Leaf::Start));
        go!(regex::end(), Ast::L(Leaf::End));
        go!(regex::empty(), Ast::L(Leaf::Empty));
        go!(regex::fail(), Ast::L(Leaf::Fail));
        go!(regex::consume(2), Ast::L(Leaf::Consume(2)));
        go!(regex::consume_all(), Ast::L(Leaf::ConsumeAll));
        for (p, t) in C::unit_bangs() {
            one(p, t, loc);
        }
    });
}

fn consume_overflow(rep: &Rep) {
    use neure::ctx::{BytesCtx, CharsCtx, Match};
    use neure::regex;
    let ns = [0usize, 1, 2, 3, 4, 5, 255, 256, usize::MAX / 2, usize::MAX - 1, usize::MAX];
    rep.explore("byte counts up to the largest", &ns, |rep, n, loc| {
        for s in ["", "a", "abc"] {
            for at in 0..=s.len() {
                loc.states += 1;
                loc.traces += 1;
                let want = (*n <= s.len() - at).then(|| (at, *n));
                let got = guarded(|| {
                    let mut c = CharsCtx::new(s);
                    c.set_offset(at);
                    let a = c.try_mat(&regex::consume(*n)).ok().map(|x| (x.beg(), x.len()));
                    let mut d = BytesCtx::new(s.as_bytes());
                    d.set_offset(at);
                    let b = d.try_mat(&regex::consume(*n)).ok().map(|x| (x.beg(), x.len()));
                    (a, c.offset(), b, d.offset())
                });
                let e = at + want.map_or(0, |w| w.1);
                if want.is_some() {
                    loc.matched += 1;
                }
                if got != Ok((want, e, want, e)) {
                    rep.violation(
                        &format!("consume({n}):{s:?}@{at}"),
                        &format!("consume({n}) on {s:?} at {at}: {got:?}, expected {want:?}"),
                    );
                }
            }
        }
    });
}

pub fn p25(rep: &Rep) {
    let ops = tab_ops(&Tab::ALL, true);
    let deep = Ops::default()
        .two(Ast::Then)
        .one(Ast::Opt)
        .one(|a| Ast::Table(Tab::Vector, vec![a]))
        .two(|a, b| Ast::Table(Tab::PairSlice, vec![a, b]))
        .two(|a, b| Ast::Table(Tab::PairVectorLtm, vec![a, b]))
        .two(|a, b| Ast::Table(Tab::Array, vec![a, b]));
    own(rep, ops, deep, 4, 5, 6);
    tables(rep, true);
    tables(rep, false);
    crate::edge::huge_tables(rep, true);
    crate::edge::huge_tables(rep, false);
}

pub fn p26(rep: &Rep) {
    let asp = Asp {
        log: true,
        ..Default::default()
    };
    everything(rep, asp, false);
    crate::extr::entry_points(rep);
}

pub fn inputs_ab(n: usize) -> Vec<&'static str> {
    inputs(&['a', 'b'], n)
}

// ---- skip policies -------------------------------------------------------

/// Longest-match and position tests see positions before the final skip.
fn keep(v: Vec<A>) -> Vec<A> {
    v.into_iter()
        .filter(|a| {
            !a.any(&mut |x| match x {
                Ast::Ltm(..) => true,
                Ast::Table(t, _) => t.ltm(),
                Ast::IfElse(t, ..) => matches!(t, Test::NextA | Test::Even),
                _ => false,
            })
        })
        .collect()
}

pub fn p12(rep: &Rep) {
    let q = rep.quick();
    let asp = modelled();
    let t = keep(flat(terms(&leaves_all(), &all_ops(), 2)));
    let i = skip_inputs(if q { 4 } else { 5 });
    sweep::<Pc>(rep, &fam("all leaves", &t, &i), asp);
    sweep::<Pb>(rep, &fam("all leaves", &t, &i), asp);
    let t = keep(flat(terms(&leaves_all(), &all_ops(), 3)));
    let i = skip_inputs(if q { 2 } else { 3 });
    sweep::<Pc>(rep, &fam("all leaves, size 3", &t, &i), asp);
    sweep::<Pb>(rep, &fam("all leaves, size 3", &t, &i), asp);
    let t = keep(flat(terms(&leaves_tiny(), &core_ops(), if q { 4 } else { 5 })));
    let i = skip_inputs(if q { 3 } else { 3 });
    sweep::<Pc>(rep, &fam("nested", &t, &i), asp);
    if !q {
        sweep::<Pb>(rep, &fam("nested", &t, &i), asp);
    }
    // long runs of skipped text, positions far into the input
    let t = keep(flat(terms(&leaves_tiny(), &all_ops(), 3)));
    let i = far_inputs(&['a', ' ', 'b'], 2);
    sweep::<Pc>(rep, &far_fam("far positions", &t, &i), asp);
    sweep::<Pb>(rep, &far_fam("far positions", &t, &i), asp);
    let mut i = vec![];
    for n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] {
        for (c, d) in [(" ", ""), ("-", ""), ("<>", ""), ("<>", "<"), (" ", "-")] {
            let p = c.repeat(n) + d;
            i.push(&*String::leak(p.clone() + "a"));
            i.push(&*String::leak(p.clone()));
            i.push(&*String::leak("a".to_string() + &p + "b" + &p + "a"));
        }
    }
    sweep::<Pc>(rep, &long_fam("long skipped runs", &t, &i), asp);
    let t = flat(terms(&leaves_all(), &all_ops(), 2));
    let x = huge::texts(&["a b", "  a", "-a-b", "<>a<", "a<>b ", "   "]);
    huge::family::<Pc>(rep, &t, &x, SKIPS, false);
    huge::family::<Pb>(rep, &t, &x, SKIPS, false);
    sweep::<Pb>(rep, &long_fam("long skipped runs", &t, &i), asp);
    ltm_skipping(rep);
    crate::edge::ready_made(rep);
    policies(rep);
}

/// Longest match behind a skip policy, of alternatives that end where their
/// last literal ends.
fn ltm_skipping(rep: &Rep) {
    let q = rep.quick();
    let leaves = [lit("a"), lit("b"), lit("ab"), lit("aa"), l(Leaf::Fail)];
    let ops = Ops::default()
        .two(Ast::Then)
        .two(Ast::Or)
        .two(Ast::Ltm)
        .two(|a, b| Ast::Table(Tab::ArrayLtm, vec![a, b]))
        .two(|a, b| Ast::Table(Tab::SliceLtm, vec![a, b]))
        .two(|a, b| Ast::Table(Tab::VectorLtm, vec![a, b]))
        .two(|a, b| Ast::Table(Tab::PairArrayLtm, vec![a, b]))
        .two(|a, b| Ast::Table(Tab::PairSliceLtm, vec![a, b]))
        .two(|a, b| Ast::Table(Tab::PairVectorLtm, vec![a, b]));
    let t = flat(terms(&leaves, &ops, 3));
    let i = skip_inputs(if q { 4 } else { 5 });
    sweep::<Pc>(rep, &fam("longest match of literals", &t, &i), modelled());
    sweep::<Pb>(rep, &fam("longest match of literals", &t, &i), modelled());
    let few = Ops::default()
        .two(Ast::Then)
        .two(Ast::Ltm)
        .two(|a, b| Ast::Table(Tab::VectorLtm, vec![a, b]))
        .two(|a, b| Ast::Table(Tab::PairArrayLtm, vec![a, b]));
    let t = flat(terms(&leaves[..3], &few, 5));
    let i = skip_inputs(3);
    sweep::<Pc>(rep, &fam("nested longest match of literals", &t, &i), modelled());
    if !q {
        sweep::<Pb>(rep, &fam("nested longest match of literals", &t, &i), modelled());
    }
}

/// One-off before and after patterns around a single match.
fn policies(rep: &Rep) {
    let small = flat(terms(&leaves_tiny(), &core_ops(), 2));
    let mut aff: Vec<A> = leaves_small();
    aff.push(l(Leaf::Empty));
    aff.push(l(Leaf::Fail));
    aff.push(Arc::new(Ast::Then(lit("a"), lit("b"))));
    aff.push(Arc::new(Ast::Peek(lit("b"))));
    let i = inputs(&['a', 'b'], if rep.quick() { 4 } else { 5 });
    one_off::<Pc>(rep, &small, &aff, &i);
    one_off::<Pb>(rep, &small, &aff, &i);
}

fn one_off<C: Hc + PolicyMatch<'static>>(rep: &Rep, pats: &[A], aff: &[A], inputs: &[&'static str]) {
    let name = format!("before and after patterns / {}", C::NAME);
    rep.explore(&name, pats, |rep, t, loc| {
        let p = Pat::<C>::new(t);
        for x in aff {
            for y in aff {
                let (b, a) = (Pat::<C>::new(x), Pat::<C>::new(y));
                for &s in inputs {
                    let m = model::<C>(s, Skip::None, Fault::default());
                    for at in starts(s, usize::MAX) {
                        for kind in 0..3 {
                            loc.states += 1;
                            loc.traces += 1;
                            let got = guarded(|| {
                                let mut c = C::mk(s, Skip::None);
                                c.set_offset(at);
                                mc_core::set_budget(mc_ast::run::BUDGET);
                                let r = match kind {
                                    0 => c.try_mat_policy(&p.p, &b.p, &a.p),
                                    1 => c.try_mat_before(&p.p, &b.p),
                                    _ => c.try_mat_after(&p.p, &a.p),
                                };
                                (r.ok().map(|v| (v.beg(), v.len())), c.offset())
                            });
                            let want = (|| {
                                let q = if kind < 2 { m.rx(x, at)? } else { at };
                                let e = m.rx(t, q)?;
                                let z = if kind != 1 { m.rx(y, e)? } else { e };
                                Some(((q, e - q), z))
                            })();
                            let want = match want {
                                Some((v, e)) => {
                                    loc.matched += 1;
                                    (Some(v), e)
                                }
                                None => {
                                    loc.failed += 1;
                                    (None, at)
                                }
                            };
                            if got != Ok(want) {
                                rep.violation(
                                    &format!("policy{kind}:{t:?}:{x:?}:{y:?}:{s:?}@{at}:{}", C::NAME),
                                    &format!(
                                        "pattern {t:?} before {x:?} after {y:?} (form {kind}), {} input {s:?} at {at}: {got:?}, expected {want:?}",
                                        C::NAME
                                    ),
                                );
                            }
                        }
                    }
                }
            }
        }
    });
}
