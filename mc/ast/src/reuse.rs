//! P29: patterns, units and contexts carry nothing over from one use to the next.

use crate::conf::{Copies, kinds};
use crate::props::skip_inputs;
use crate::wrap::{KINDS, wrap};
use mc_ast::build::*;
use mc_ast::enumerate::*;
use mc_ast::families::*;
use mc_ast::model::{Fault, Skip};
use mc_ast::run::Pat;
use mc_ast::*;
use mc_core::{Local, Rep, guarded, hash64, set_budget, step};
use neure::ctx::{BytesCtx, CharsCtx, Context, Match, MatchExt, PolicyCtx};
use neure::neu::{self, Neu, NeuOp};
use neure::regex;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// A cyclic sequence over `k` letters that contains every word of length `n`
/// once (from Lyndon words).
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    let mut a = vec![0; k * n + 1];
    let mut out = vec![];
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut [usize], out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, out);
            }
        }
    }
    db(1, 1, k, n, &mut a, &mut out);
    // close the cycle
    for i in 0..n - 1 {
        out.push(out[i]);
    }
    out
}

/// One use of a pattern.
#[derive(Clone, Copy, Debug)]
enum Use {
    Match,
    Assert,
    Build,
    /// the handler rejects the first range it is given on this input
    Reject,
    /// the mapper rejects
    RejectMap,
}

type Seen = Result<(Option<V>, usize, Vec<(u32, u32)>), String>;

fn use_once<C: Hc>(p: &Pat<C>, u: Use, s: &'static str, at: usize, skip: Skip, fault: Fault) -> Seen {
    let span = |b: usize, l: usize| V::S(b as u32, l as u32);
    match u {
        Use::Match => p.rx(s, at, skip).map(|r| (r.span.map(|(b, l)| span(b, l)), r.at, vec![])),
        Use::Assert => p.assert(s, at, skip).map(|(ok, q)| (ok.then_some(span(0, 0)), q, vec![])),
        Use::Build | Use::Reject | Use::RejectMap => {
            let mut log = vec![];
            p.ct(s, at, skip, fault, &mut log).map(|r| (r.val, r.at, log))
        }
    }
}

struct Fam<'f> {
    name: &'f str,
    terms: &'f [A],
    uses: Vec<(Use, &'static str, usize, Skip)>,
    order: usize,
    /// how often the whole sequence of uses is gone through
    cycles: usize,
    /// wrappers around the pattern
    wraps: &'f [usize],
    /// all inputs are written into one buffer, one after another
    in_place: bool,
}

/// One buffer that holds one input after another.
struct Buffer(*mut [u8]);

impl Buffer {
    fn new(size: usize) -> Self {
        Buffer(Box::into_raw(vec![b'!'; size].into_boxed_slice()))
    }

    /// The text is gone with the next call, and with the buffer.
    fn fill(&self, s: &str) -> &'static str {
        // no use of an earlier text is left when the next one is written
        unsafe {
            let to = self.0 as *mut u8;
            assert!(s.len() <= self.0.len());
            to.write_bytes(b'!', self.0.len());
            to.copy_from_nonoverlapping(s.as_ptr(), s.len());
            std::str::from_utf8(std::slice::from_raw_parts(to, s.len())).expect("text")
        }
    }
}

impl Drop for Buffer {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.0) });
    }
}

fn uses(inputs: &[&'static str], starts_upto: usize, skips: &[Skip], kinds: &[Use]) -> Vec<(Use, &'static str, usize, Skip)> {
    let mut v = vec![];
    for u in kinds {
        for s in inputs {
            for at in starts(s, starts_upto) {
                for k in skips {
                    v.push((*u, *s, at, *k));
                }
            }
        }
    }
    v
}

const FULL: [Use; 5] = [Use::Match, Use::Assert, Use::Build, Use::Reject, Use::RejectMap];
const SOME: [Use; 3] = [Use::Match, Use::Build, Use::Reject];

fn reuse<C: Hc>(rep: &Rep, f: &Fam) {
    let seq = de_bruijn(f.uses.len(), f.order);
    let name = format!(
        "{}, every {} consecutive of {} uses / {}",
        f.name,
        f.order,
        f.uses.len(),
        C::NAME
    );
    rep.explore(&name, f.terms, |rep, t, loc| {
        let make = || -> Pat<C> {
            let mut p = build::<C>(t);
            for k in f.wraps {
                p = wrap::<C>(*k, p);
            }
            Pat { p }
        };
        // what a fresh pattern gives for each use
        let want: Vec<(Fault, Seen)> = f
            .uses
            .iter()
            .map(|&(u, s, at, skip)| {
                let first = || {
                    let mut log = vec![];
                    let _ = make().ct(s, at, skip, Fault::default(), &mut log);
                    log.first().copied()
                };
                let fault = match u {
                    Use::Reject => Fault { handler: first(), mapper: None },
                    Use::RejectMap => Fault { handler: None, mapper: first() },
                    _ => Fault::default(),
                };
                (fault, use_once(&make(), u, s, at, skip, fault))
            })
            .collect();
        let p = make();
        let buffer = Buffer::new(f.uses.iter().map(|u| u.1.len()).max().unwrap_or(0));
        let mut prev: Option<usize> = None;
        for &i in std::iter::repeat_n(&seq, f.cycles).flatten() {
            let (u, s, at, skip) = f.uses[i];
            let (fault, w) = &want[i];
            let here = if f.in_place { buffer.fill(s) } else { s };
            let r = use_once(&p, u, here, at, skip, *fault);
            loc.states += 1;
            loc.traces += 1;
            if matches!(w, Ok((Some(_), ..))) {
                loc.matched += 1;
            } else {
                loc.failed += 1;
            }
            if r != *w || w.is_err() {
                let names: Vec<_> = f.wraps.iter().map(|k| KINDS[*k].0).collect();
                rep.violation(
                    &format!("reuse:{t:?}:{names:?}:{u:?}:{s:?}@{at}:{skip:?}:{}", C::NAME),
                    &format!(
                        "{t:?} {names:?}, {} {u:?} on {s:?} at {at}, skip {skip:?}, after {:?}: {r:?}, a fresh pattern gives {w:?}",
                        C::NAME,
                        prev.map(|j| f.uses[j])
                    ),
                );
                return;
            }
            prev = Some(i);
        }
        loc.outcomes.insert(hash64(&format!("{want:?}")));
    });
}

pub fn p29(rep: &Rep) {
    let q = rep.quick();
    let none = [Skip::None];
    let i2 = inputs(&['a', 'b'], 2);
    let i3 = inputs(&['a', 'b'], 3);
    let ops = all_ops().plus(&dyn_ops());
    let t = flat(terms(&leaves_tiny(), &ops, if q { 3 } else { 4 }));
    reuse::<Cs>(rep, &Fam { name: "all operators", terms: &t, uses: uses(&i2, 1, &none, &FULL), order: 2, cycles: 1, wraps: &[], in_place: false });
    let tb = flat(terms(&leaves_tiny(), &ops, 3));
    reuse::<Bs>(rep, &Fam { name: "all operators", terms: &tb, uses: uses(&i2, 1, &none, &FULL), order: 2, cycles: 1, wraps: &[], in_place: false });
    let t1 = flat(terms(&leaves_all(), &ops, 2));
    reuse::<Cs>(
        rep,
        &Fam { name: "all leaves", terms: &t1, uses: uses(&i3, usize::MAX, &none, &SOME), order: 2, cycles: 1, wraps: &[], in_place: false },
    );
    let tc = flat(terms(&leaves_tiny(), &core_ops(), if q { 3 } else { 4 }));
    let few: Vec<&'static str> = vec!["a", "b", "ab", "aab"];
    let (o, n) = if q { (3, 3) } else { (4, 4) };
    reuse::<Cs>(
        rep,
        &Fam { name: "longer runs", terms: &tc, uses: uses(&few[..n], 0, &none, &SOME), order: o, cycles: 1, wraps: &[], in_place: false },
    );
    // more uses than a small counter can count
    let mut many = uses(&["a", "b"], 0, &none, &[Use::Match]);
    many.extend(uses(&["ab"], 0, &none, &[Use::Build]));
    reuse::<Cs>(rep, &Fam { name: "70000 uses", terms: &t1, uses: many.clone(), order: 1, cycles: 23_334, wraps: &[], in_place: false });
    reuse::<Bs>(rep, &Fam { name: "70000 uses", terms: &t1, uses: many, order: 1, cycles: 23_334, wraps: &[], in_place: false });
    // every input in the same place
    let tp = flat(terms(&leaves_all(), &core_ops(), 2));
    let ip = inputs(&['a', 'b'], 2);
    reuse::<Cs>(rep, &Fam { name: "one buffer", terms: &tp, uses: uses(&ip, 1, &none, &SOME), order: 2, cycles: 1, wraps: &[], in_place: true });
    reuse::<Bs>(rep, &Fam { name: "one buffer", terms: &tp, uses: uses(&ip, 1, &none, &SOME), order: 2, cycles: 1, wraps: &[], in_place: true });
    // recursive patterns
    let mut lv = leaves_tiny();
    lv.push(Arc::new(Ast::Rec));
    let mut rec: Vec<A> = vec![];
    for b in flat(terms(&lv, &core_ops(), 4)) {
        if b.any(&mut |x| matches!(x, Ast::Rec)) {
            for k in [Fx::Fun, Fx::FunSync] {
                let f = Ast::Fix(k, b.clone());
                if f.well_formed() {
                    rec.push(Arc::new(f));
                }
            }
        }
    }
    reuse::<Cs>(rep, &Fam { name: "recursive", terms: &rec, uses: uses(&i3, 0, &none, &SOME), order: 2, cycles: 1, wraps: &[], in_place: false });
    if let Some(k) = rec.len().checked_sub(1) {
        let few = &rec[..k.min(200)];
        reuse::<Cs>(rep, &Fam { name: "recursive, one buffer", terms: few, uses: uses(&ip, 0, &none, &SOME), order: 2, cycles: 1, wraps: &[], in_place: true });
    }
    // wrapped patterns
    let tw = flat(terms(&leaves_tiny(), &core_ops(), if q { 2 } else { 3 }));
    for k in 0..KINDS.len() {
        reuse::<Cs>(
            rep,
            &Fam {
                name: &format!("inside {}", KINDS[k].0),
                terms: &tw,
                uses: uses(&i2, 0, &none, &SOME),
                order: 2,
                cycles: 1,
                wraps: &[k],
                in_place: false,
            },
        );
    }
    // one pattern used under a skip policy and other policies
    let si = skip_inputs(2);
    let ts = flat(terms(&leaves_tiny(), &core_ops(), if q { 2 } else { 3 }));
    let sk = [Skip::None, Skip::Space, Skip::Dash];
    reuse::<Pc>(rep, &Fam { name: "skip policies", terms: &ts, uses: uses(&si, 0, &sk, &SOME), order: 2, cycles: 1, wraps: &[], in_place: false });
    reuse::<Pb>(rep, &Fam { name: "skip policies", terms: &ts, uses: uses(&si, 0, &sk, &SOME), order: 2, cycles: 1, wraps: &[], in_place: false });

    kinds(&Copies {
        rep,
        cap: if q { 20_000 } else { 1_500_000 },
        inputs: inputs(&['a', 'b'], 3),
    });
    units(rep);
    plain_contexts(rep);
    policy_contexts(rep);
}

type Mk = fn() -> Box<dyn Neu<char>>;

fn unit_kinds() -> Vec<(String, Mk)> {
    let mut v: Vec<(String, Mk)> = vec![];
    macro_rules! w {
        ($($e:expr),* $(,)?) => { $(
            let n = stringify!($e);
            v.push((n.into(), || Box::new($e)));
            v.push((format!("Rc({n})"), || Box::new(Rc::new($e))));
            v.push((format!("Arc({n})"), || Box::new(Arc::new($e))));
            v.push((format!("RefCell({n})"), || Box::new(RefCell::new($e))));
            v.push((format!("Cell({n})"), || Box::new(Cell::new($e))));
            v.push((format!("Mutex({n})"), || Box::new(Mutex::new($e))));
            v.push((format!("Box<dyn>({n})"), || { let b: Box<dyn Neu<char>> = Box::new($e); Box::new(b) }));
            v.push((format!("Rc<dyn>({n})"), || { let b: Rc<dyn Neu<char>> = Rc::new($e); Box::new(b) }));
            v.push((format!("Arc<dyn>({n})"), || { let b: Arc<dyn Neu<char>> = Arc::new($e); Box::new(b) }));
            v.push((format!("not({n})"), || Box::new(neu::not::<char, _>($e))));
            v.push((format!("{n}.clone()"), || { #[allow(clippy::clone_on_copy)] let c = $e.clone(); Box::new(c) }));
            v.push((format!("once({n}) and"), || Box::new(neu::and::<char, _, _>($e, neu::always()))));
        )* };
    }
    w!(
        'a', neu::equal('a'), neu::always::<char>(), neu::never::<char>(), ['a', 'é'],
        neu::range('a'..='b'), neu::range('a'..'b'), neu::digit(2), neu::digit(16), neu::alphabetic(),
        neu::alphanumeric(), neu::ascii::<char>(), neu::ascii_alphabetic::<char>(), neu::ascii_digit::<char>(),
        neu::ascii_hexdigit::<char>(), neu::ascii_lowercase::<char>(), neu::ascii_uppercase::<char>(),
        neu::ascii_punctuation::<char>(), neu::ascii_whitespace::<char>(), neu::whitespace(), neu::wild(),
        neu::word::<char>(), neu::numeric(), neu::lowercase(), neu::uppercase(), neu::control(),
        neu::ascii_control::<char>(), neu::ascii_graphic::<char>(), neu::ascii_alphanumeric::<char>(),
        neu::or::<char, _, _>('a', '1'), neu::and::<char, _, _>(neu::word::<char>(), neu::ascii_lowercase::<char>()),
        neu::not::<char, _>('a'), 'a'.or('1').or(' '), neu::word::<char>().and('a'.not()),
        |c: &char| *c == 'a',
    );
    v
}

fn units(rep: &Rep) {
    let kinds = unit_kinds();
    let items = ['a', 'b', '1', ' ', 'é', 'A', '\u{7f}'];
    let seq = de_bruijn(items.len(), if rep.quick() { 3 } else { 4 });
    rep.explore("units, every consecutive items", &kinds, |rep, (name, mk), loc| {
        let want: Vec<bool> = items.iter().map(|c| mk().is_match(c)).collect();
        let min = mk().min_length();
        let u = mk();
        for &i in &seq {
            step();
            loc.states += 1;
            loc.traces += 1;
            let r = guarded(|| (u.is_match(&items[i]), u.min_length()));
            if want[i] {
                loc.matched += 1;
            } else {
                loc.failed += 1;
            }
            if r != Ok((want[i], min)) {
                rep.violation(
                    &format!("unit:{name}:{:?}", items[i]),
                    &format!("unit {name} on {:?}: {r:?} after other items, fresh: {}", items[i], want[i]),
                );
                return;
            }
        }
        // patterns of the unit
        let texts = inputs(&['a', '1'], 3);
        let p = (
            regex::once::<Cs, _>(mk()),
            regex::opt::<Cs, _>(mk()),
            regex::many0::<Cs, _>(mk()),
            regex::many1::<Cs, _>(mk()),
            regex::count::<1, 2, Cs, _>(mk()),
        );
        let mat = |k: usize, s: &'static str, p: &(_, _, _, _, _)| {
            let mut c = Cs::new(s);
            let r = match k {
                0 => c.try_mat(&p.0),
                1 => c.try_mat(&p.1),
                2 => c.try_mat(&p.2),
                3 => c.try_mat(&p.3),
                _ => c.try_mat(&p.4),
            };
            (r.ok().map(|s| s.len()), c.offset())
        };
        let fresh = || {
            (
                regex::once::<Cs, _>(mk()),
                regex::opt::<Cs, _>(mk()),
                regex::many0::<Cs, _>(mk()),
                regex::many1::<Cs, _>(mk()),
                regex::count::<1, 2, Cs, _>(mk()),
            )
        };
        for &i in &de_bruijn(texts.len(), 2) {
            for k in 0..5 {
                loc.states += 1;
                loc.traces += 1;
                let (g, w) = (mat(k, texts[i], &p), mat(k, texts[i], &fresh()));
                if g != w {
                    rep.violation(
                        &format!("unit pattern:{name}:{k}:{}", texts[i]),
                        &format!("pattern {k} of unit {name} on {:?}: {g:?}, fresh {w:?}", texts[i]),
                    );
                    return;
                }
            }
        }
    });
}

const TEXTS: [&str; 3] = ["aab", "b a", ""];

/// What can be seen of a context.
fn look<C: Hc>(c: &C) -> (usize, usize, Vec<Option<usize>>, Vec<Option<(V, usize)>>) {
    let pats: Vec<Bx<C>> = vec![
        C::leaf(&Leaf::Lit("a")),
        C::leaf(&Leaf::Many0(U::AOrB)),
        C::leaf(&Leaf::End),
        C::leaf(&Leaf::Start),
    ];
    let m = pats
        .iter()
        .map(|p| {
            let mut c = c.clone();
            c.try_mat(p).ok().map(|s| s.beg() + s.len())
        })
        .collect();
    let b = pats
        .iter()
        .map(|p| {
            let mut c = c.clone();
            c.ctor_handler(p, Hd::default()).ok().map(|v| (v, c.offset()))
        })
        .collect();
    (c.len(), c.offset(), m, b)
}

/// Histories of one context.
fn plain_contexts(rep: &Rep) {
    macro_rules! go {
        ($ty:ident, $t:ty, $conv:expr) => {{
            let conv: fn(&'static str) -> _ = $conv;
            // (name, step on the context, step on the model)
            type Step = (String, Box<dyn Fn($t) -> $t + Sync>, Box<dyn Fn((&'static str, usize)) -> (&'static str, usize) + Sync>);
            let mut steps: Vec<Step> = vec![];
            for p in ["a", "ab"] {
                steps.push((
                    format!("try_mat({p:?})"),
                    Box::new(move |mut c: $t| {
                        let l = <$t as Hc>::leaf(&Leaf::Lit(p));
                        let _ = c.try_mat(&l);
                        c
                    }),
                    Box::new(move |(s, o)| if s.get(o..).is_some_and(|r| r.starts_with(p)) { (s, o + p.len()) } else { (s, o) }),
                ));
            }
            steps.push((
                "ctor".into(),
                Box::new(|mut c: $t| {
                    let p = build::<$t>(&Ast::Then(lit("a"), lit("b")));
                    let _ = c.ctor_handler(&p, Hd::default());
                    c
                }),
                Box::new(|(s, o)| if s.get(o..).is_some_and(|r| r.starts_with("ab")) { (s, o + 2) } else { (s, o) }),
            ));
            for n in [0, 1, 3] {
                steps.push((format!("set_offset({n})"), Box::new(move |mut c: $t| { c.set_offset(n); c }), Box::new(move |(s, _)| (s, n))));
                steps.push((format!("with_offset({n})"), Box::new(move |c: $t| c.with_offset(n)), Box::new(move |(s, _)| (s, n))));
            }
            steps.push(("inc(1)".into(), Box::new(|mut c: $t| { c.inc(1); c }), Box::new(|(s, o)| (s, o + 1))));
            steps.push((
                "dec(1)".into(),
                Box::new(|mut c: $t| { if Context::offset(&c) > 0 { c.dec(1); } c }),
                Box::new(|(s, o)| (s, o.saturating_sub(1))),
            ));
            steps.push(("reset()".into(), Box::new(|mut c: $t| { c.reset(); c }), Box::new(|(s, _)| (s, 0))));
            steps.push(("clone()".into(), Box::new(|c: $t| { #[allow(clippy::clone_on_copy)] let d = c.clone(); d }), Box::new(|m| m)));
            steps.push((
                "clone_at(1)".into(),
                Box::new(|c: $t| c.clone_at(1).unwrap_or(c)),
                Box::new(|(s, o)| s.get(1..).map_or((s, o), |r| (r, 0))),
            ));
            for d in TEXTS {
                steps.push((format!("reset_with({d:?})"), Box::new(move |mut c: $t| { c.reset_with(conv(d)); c }), Box::new(move |_| (d, 0))));
                steps.push((format!("with_dat({d:?})"), Box::new(move |c: $t| c.with_dat(conv(d))), Box::new(move |(_, o)| (d, o))));
                steps.push((format!("with({d:?})"), Box::new(move |_| $ty::with(conv(d), |c| c)), Box::new(move |_| (d, 0))));
            }
            let k = steps.len();
            let depth: u32 = if rep.quick() { 3 } else { 4 };
            let n: usize = (0..=depth).map(|d| k.pow(d)).sum();
            let name = format!("histories of a context, up to {depth} of {k} steps / {}", <$t as Hc>::NAME);
            rep.explore_n(&name, n, |rep, mut i, loc| {
                let mut d = 0;
                while i >= k.pow(d) {
                    i -= k.pow(d);
                    d += 1;
                }
                let mut c = $ty::new(conv(TEXTS[0]));
                let mut m = (TEXTS[0], 0usize);
                let mut names = vec![];
                let r = guarded(|| {
                    set_budget(u64::MAX);
                    for _ in 0..d {
                        let st = &steps[i % k];
                        i /= k;
                        names.push(st.0.clone());
                        c = (st.1)(c);
                        m = (st.2)(m);
                        step();
                    }
                    let mut f = $ty::new(conv(m.0));
                    f.set_offset(m.1);
                    (look::<$t>(&c), c.dat() == f.dat(), look::<$t>(&f))
                });
                report(rep, loc, format!("context {}: {names:?}", <$t as Hc>::NAME), r);
            });
        }};
    }
    go!(CharsCtx, Cs, |s| s);
    go!(BytesCtx, Bs, |s: &'static str| s.as_bytes());
}

type View = (usize, usize, Vec<Option<usize>>, Vec<Option<(V, usize)>>);

fn report(rep: &Rep, loc: &mut Local, key: String, r: Result<(View, bool, View), String>) {
    loc.states += 1;
    loc.traces += 1;
    match r {
        Ok((a, true, b)) if a == b => {
            if a.2[0].is_some() {
                loc.matched += 1;
            } else {
                loc.failed += 1;
            }
            loc.outcomes.insert(hash64(&a));
        }
        r => rep.violation(&key, &format!("{key}: against a fresh one: {r:?}")),
    }
}

fn policy_contexts(rep: &Rep) {
    type M = (&'static str, usize, Skip);
    type Step = (String, Box<dyn Fn(Pc) -> Pc + Sync>, Box<dyn Fn(M) -> M + Sync>);
    fn at(s: &'static str, o: usize) -> Cs {
        Cs::new(s).with_offset(o)
    }
    let skip = |s: &str, mut o: usize, k: Skip| {
        let b = s.as_bytes();
        while k == Skip::Space && b.get(o) == Some(&b' ') {
            o += 1;
        }
        o
    };
    let mut steps: Vec<Step> = vec![];
    for p in ["a", "ab"] {
        steps.push((
            format!("try_mat({p:?})"),
            Box::new(move |mut c: Pc| {
                let l = Pc::leaf(&Leaf::Lit(p));
                let _ = c.try_mat(&l);
                c
            }),
            Box::new(move |(s, o, k)| {
                let q = skip(s, o, k);
                if s.get(q..).is_some_and(|r| r.starts_with(p)) { (s, q + p.len(), k) } else { (s, o, k) }
            }),
        ));
    }
    for n in [0, 1] {
        steps.push((format!("set_offset({n})"), Box::new(move |mut c: Pc| { c.set_offset(n); c }), Box::new(move |(s, _, k)| (s, n, k))));
        steps.push((
            format!("inner_mut().set_offset({n})"),
            Box::new(move |mut c: Pc| { c.inner_mut().set_offset(n); c }),
            Box::new(move |(s, _, k)| (s, n, k)),
        ));
    }
    steps.push(("inner_mut().reset()".into(), Box::new(|mut c: Pc| { c.inner_mut().reset(); c }), Box::new(|(s, _, k)| (s, 0, k))));
    steps.push(("clone()".into(), Box::new(|c: Pc| c.clone()), Box::new(|m| m)));
    steps.push((
        "clone_at(1)".into(),
        Box::new(|c: Pc| c.clone_at(1).unwrap_or(c)),
        Box::new(|(s, o, k)| s.get(1..).map_or((s, o, k), |r| (r, 0, k))),
    ));
    for k in [Skip::None, Skip::Space] {
        steps.push((format!("with_regex({k:?})"), Box::new(move |c: Pc| c.with_regex(Pol(k))), Box::new(move |(s, o, _)| (s, o, k))));
    }
    for (d, o) in [("aab", 0), (" a ab", 0), (" a ab", 2), ("", 0)] {
        steps.push((format!("reset_with({d:?}@{o})"), Box::new(move |mut c: Pc| { c.reset_with(at(d, o)); c }), Box::new(move |(_, _, k)| (d, o, k))));
        steps.push((format!("set_inner({d:?}@{o})"), Box::new(move |mut c: Pc| { c.set_inner(at(d, o)); c }), Box::new(move |(_, _, k)| (d, o, k))));
        steps.push((format!("with_inner({d:?}@{o})"), Box::new(move |c: Pc| c.with_inner(at(d, o))), Box::new(move |(_, _, k)| (d, o, k))));
        steps.push((
            format!("inner_mut().reset_with({d:?})"),
            Box::new(move |mut c: Pc| { c.inner_mut().reset_with(d); c }),
            Box::new(move |(_, _, k)| (d, 0, k)),
        ));
    }
    let k = steps.len();
    let depth: u32 = if rep.quick() { 3 } else { 4 };
    let n: usize = (0..=depth).map(|d| k.pow(d)).sum();
    let name = format!("histories of a policy context, up to {depth} of {k} steps");
    rep.explore_n(&name, n, |rep, mut i, loc| {
        let mut d = 0;
        while i >= k.pow(d) {
            i -= k.pow(d);
            d += 1;
        }
        let mut c: Pc = PolicyCtx::new(at(" a ab", 0), Pol(Skip::Space));
        let mut m: M = (" a ab", 0, Skip::Space);
        let mut names = vec![];
        let r = guarded(|| {
            set_budget(u64::MAX);
            for _ in 0..d {
                let st = &steps[i % k];
                i /= k;
                names.push(st.0.clone());
                c = (st.1)(c);
                m = (st.2)(m);
                step();
            }
            let f: Pc = PolicyCtx::new(at(m.0, m.1), Pol(m.2));
            (look::<Pc>(&c), c.inner().dat() == m.0, look::<Pc>(&f))
        });
        report(rep, loc, format!("policy context: {names:?}"), r);
    });
}
