//! P18: recursive patterns.

use crate::props::{fam, faults, plain, skip_inputs};
use mc_ast::build::*;
use mc_ast::enumerate::*;
use mc_ast::families::*;
use mc_ast::sweep::*;
use mc_ast::*;
use mc_core::{Rep, guarded, hash64, set_budget};
use neure::ctor::{Ctor, CtorOps};
use neure::ctx::{Match, MatchExt};
use neure::err::Error;
use neure::regex::{Regex, rec_parser, rec_parser_sync};
use neure::span::Span;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

fn rec() -> A {
    Arc::new(Ast::Rec)
}

fn has_rec(a: &Ast) -> bool {
    a.any(&mut |x| matches!(x, Ast::Rec))
}

/// Every recursive pattern over these bodies, by each of the helpers.
fn fixed(bodies: &[A], kinds: &[Fx]) -> Vec<A> {
    let mut v = vec![];
    for t in bodies {
        if has_rec(t) {
            for k in kinds {
                let f = Ast::Fix(*k, t.clone());
                if f.well_formed() {
                    v.push(Arc::new(f));
                }
            }
        }
    }
    v
}

/// The comparisons that hold with a skip policy (see P12).
fn skippable(v: Vec<A>) -> Vec<A> {
    v.into_iter()
        .filter(|t| {
            !t.any(&mut |x| match x {
                Ast::Ltm(..) => true,
                Ast::Table(t, _) => t.ltm(),
                Ast::IfElse(t, ..) => matches!(t, Test::NextA | Test::Even),
                _ => false,
            })
        })
        .collect()
}

pub fn p18(rep: &Rep) {
    let q = rep.quick();
    let asp = Asp {
        span: true,
        restore_rx: true,
        restore_ct: true,
        rx: true,
        ct: true,
        agree: true,
        log: false,
    };
    let mut leaves = leaves_tiny();
    leaves.push(rec());
    // bodies with every operator
    let t = fixed(&flat(terms(&leaves, &all_ops(), 4)), &[Fx::Fun, Fx::FunSync]);
    plain(rep, &fam("recursive bodies, all operators", &t, &inputs(&['a', 'b'], if q { 4 } else { 6 })), asp);
    let t = fixed(&flat(terms(&leaves, &core_ops(), 4)), &Fx::ALL);
    plain(rep, &fam("recursive bodies, every helper", &t, &inputs(&['a', 'b'], if q { 4 } else { 6 })), asp);
    let small = vec![lit("a"), lit("b"), rec()];
    let core = Ops::default()
        .one(Ast::Opt)
        .one(Ast::Peek)
        .one(|a| Ast::Repeat(Rng::From(1), a))
        .two(Ast::Then)
        .two(Ast::Or)
        .two(Ast::Ltm)
        .two(|a, b| Ast::Sep(true, 1, a, b))
        .three(Ast::Enclose);
    let t = fixed(&flat(terms(&small, &core, 6)), if q { &[Fx::Fun] } else { &[Fx::Fun, Fx::FunSync] });
    plain(rep, &fam("recursive bodies, nested", &t, &inputs(&['a', 'b'], if q { 4 } else { 6 })), asp);
    // recursive patterns inside everything else, and inside each other
    let bodies = [
        Ast::Or(Arc::new(Ast::Then(lit("a"), rec())), lit("b")),
        Ast::Then(lit("a"), Arc::new(Ast::Opt(rec()))),
        Ast::Enclose(Arc::new(Ast::Opt(rec())), lit("a"), lit("b")),
    ];
    let mut inner: Vec<A> = vec![lit("a"), lit("b"), rec()];
    for b in bodies {
        for k in [Fx::Fun, Fx::BuildSync] {
            inner.push(Arc::new(Ast::Fix(k, Arc::new(b.clone()))));
        }
    }
    let all = flat(terms(&inner, &all_ops(), 3));
    let has_fix = |t: &A| t.any(&mut |x| matches!(x, Ast::Fix(..)));
    let open: Vec<A> = all.iter().filter(|t| has_fix(t) && outer_free(t)).cloned().collect();
    plain(rep, &fam("recursive patterns inside others", &open, &inputs(&['a', 'b'], if q { 4 } else { 6 })), asp);
    let nested: Vec<A> = all.into_iter().filter(|t| has_fix(t) && !outer_free(t)).collect();
    let nested = fixed(&nested, &[Fx::Build, Fx::FunSync]);
    plain(rep, &fam("recursive patterns inside recursive ones", &nested, &inputs(&['a', 'b'], if q { 4 } else { 6 })), asp);
    // skip policies
    let t = skippable(fixed(&flat(terms(&leaves, &core_ops(), if q { 3 } else { 4 })), &[Fx::Fun, Fx::FunSync]));
    let i = skip_inputs(if q { 3 } else { 4 });
    let pol = Asp {
        rx: true,
        ct: true,
        restore_rx: true,
        restore_ct: true,
        ..Default::default()
    };
    sweep::<Pc>(rep, &fam("recursive bodies, skip policy", &t, &i), pol);
    sweep::<Pb>(rep, &fam("recursive bodies, skip policy", &t, &i), pol);
    // rejections at every level
    let t = fixed(&flat(terms(&leaves, &core_ops(), if q { 3 } else { 4 })), &[Fx::Fun, Fx::FunSync]);
    faults::<Cs>(rep, "recursive bodies, rejections", &t, &inputs(&['a', 'b'], 4));
    depth(rep);
    mutual(rep);
    reentrant(rep);
}

/// No reference to a recursion outside the term itself.
fn outer_free(t: &A) -> bool {
    match &**t {
        Ast::Rec => false,
        Ast::Fix(..) => true,
        _ => t.kids().iter().all(|k| outer_free(k)),
    }
}

/// Nesting far beyond the bounded inputs.
fn depth(rep: &Rep) {
    let depths: Vec<usize> = (0..=64)
        .chain([100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 3000])
        .collect();
    rep.explore("nesting depth", &depths, |rep, &n, loc| {
        for kind in Fx::ALL {
            for (form, open, close, mid) in [("enclose", "a", "b", ""), ("enclose", "(", ")", "x"), ("then", "a", "b", "")] {
                let opt: A = Arc::new(Ast::Opt(rec()));
                let (open, close) = (lit(open), lit(close));
                let body = match (form, mid) {
                    ("then", _) => Ast::Then(open.clone(), Arc::new(Ast::Then(opt, close.clone()))),
                    (_, "") => Ast::Enclose(opt, open.clone(), close.clone()),
                    _ => Ast::Or(
                        Arc::new(Ast::Enclose(rec(), open.clone(), close.clone())),
                        lit("x"),
                    ),
                };
                let pat = build::<Cs>(&Ast::Fix(kind, Arc::new(body)));
                let (o, c) = match (&*open, &*close) {
                    (Ast::L(Leaf::Lit(o)), Ast::L(Leaf::Lit(c))) => (*o, *c),
                    _ => unreachable!(),
                };
                for closing in [n, n.saturating_sub(1), n + 1] {
                    let s: &'static str = (o.repeat(n) + mid + &c.repeat(closing)).leak();
                    // "x" alone matches the second form at depth 0
                    let nonempty = n > 0 || !mid.is_empty();
                    let want = if nonempty && closing >= n { Some(2 * n + mid.len()) } else { None };
                    // with a closing mark missing the inner pattern still matches from a later start
                    loc.states += 1;
                    loc.traces += 2;
                    let rx = guarded(|| {
                        let mut c = Cs::new(s);
                        set_budget(u64::MAX);
                        let r = c.try_mat(&pat).ok().map(|s| (s.beg(), s.len()));
                        (r, c.offset())
                    });
                    let w = (want.map(|e| (0, e)), want.unwrap_or(0));
                    let ct = guarded(|| {
                        let mut c = Cs::new(s);
                        let r = c.ctor_handler(&pat, Hd::default());
                        (r.ok().map(level), c.offset())
                    });
                    if want.is_some() {
                        loc.matched += 1
                    } else {
                        loc.failed += 1
                    }
                    let lv = want.map(|_| if form == "then" || mid.is_empty() { n } else { 0 });
                    let wc = (lv, want.unwrap_or(0));
                    if rx != Ok(w) || ct != Ok(wc) {
                        rep.violation(
                            &format!("depth:{kind:?}:{form}:{mid}:{n}:{closing}"),
                            &format!(
                                "{kind:?} {form} {o:?} {mid:?} {c:?} at depth {n}, {closing} closed: match {rx:?} expected {w:?}, value depth {ct:?} expected {wc:?}"
                            ),
                        );
                    }
                }
            }
        }
    });
}

/// Nesting depth of the constructed value: one option per level.
fn level(v: V) -> usize {
    let mut n = 0;
    let mut cur = v;
    loop {
        cur = match cur {
            V::O(o) => {
                n += 1;
                match o {
                    Some(v) => *v,
                    None => return n,
                }
            }
            V::P(_, b) => match *b {
                V::P(o, _) => *o,
                x => x,
            },
            _ => return n,
        };
    }
}

/// list := '[' (value (',' value)*)? ']'; map := '{' (atom ':' value (',' ...)*)? '}'
/// with the two rules built by two helpers referring to each other.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
enum J {
    Atom(u32, u32),
    List(Vec<J>),
    Map(Vec<(J, J)>),
}

fn jref(s: &[u8], p: usize) -> Option<(J, usize)> {
    match s.get(p)? {
        b'a' => Some((J::Atom(p as u32, 1), p + 1)),
        b'[' => {
            let mut q = p + 1;
            let mut v = vec![];
            while let Some((x, e)) = jref(s, q) {
                v.push(x);
                q = e;
                if s.get(q) == Some(&b',') {
                    q += 1;
                } else {
                    break;
                }
            }
            (s.get(q) == Some(&b']')).then_some((J::List(v), q + 1))
        }
        b'{' => {
            let mut q = p + 1;
            let mut v = vec![];
            loop {
                if s.get(q) != Some(&b'a') || s.get(q + 1) != Some(&b':') {
                    break;
                }
                let Some((x, e)) = jref(s, q + 2) else { break };
                v.push((J::Atom(q as u32, 1), x));
                q = e;
                if s.get(q) == Some(&b',') {
                    q += 1;
                } else {
                    break;
                }
            }
            (s.get(q) == Some(&b'}')).then_some((J::Map(v), q + 1))
        }
        _ => None,
    }
}

/// Turns the leaf values of the common handler into `J`.
type Jc<C> = Box<dyn Ctor<C, J, Jh>>;

#[derive(Clone, Default)]
struct Jh;
impl<C> neure::ctor::Handler<C> for Jh {
    type Out = J;
    type Error = Error;
    fn invoke(&mut self, _: &C, s: &Span) -> Result<J, Error> {
        Ok(J::Atom(s.beg() as u32, s.len() as u32))
    }
}

fn json_rules<V: Ctor<Cs, J, Jh> + Clone + 'static>(value: V, map: impl Ctor<Cs, J, Jh> + 'static) -> Jc<Cs> {
    let atom = || CtorOps::<'static, Cs>::pat('a'.once());
    use neure::neu::NeuIntoRegexOps;
    let list = value.sep(",").at_least(0).enclose("[", "]").map(J::List);
    Box::new(atom().or(list.or(map)))
}

fn map_rule<V: Ctor<Cs, J, Jh> + 'static>(value: V) -> Jc<Cs> {
    use neure::neu::NeuIntoRegexOps;
    let pair = 'a'.once().sep_once(":", value);
    Box::new(pair.sep(",").at_least(0).enclose("{", "}").map(J::Map))
}

fn json(sync: bool) -> Jc<Cs> {
    if sync {
        Box::new(rec_parser_sync::<'static, '_, Cs, J, _, Jh>(|value| {
            let map = rec_parser_sync::<'static, '_, Cs, J, _, Jh>(|_| Ss(map_rule(value.clone())));
            Ss(json_rules(value, map))
        }))
    } else {
        Box::new(rec_parser::<'static, '_, Cs, J, Jh, _>(|value| {
            let map = rec_parser::<'static, '_, Cs, J, Jh, _>(|_| map_rule(value.clone()));
            json_rules(value, map)
        }))
    }
}

fn mutual(rep: &Rep) {
    let n = if rep.quick() { 6 } else { 8 };
    let mut i = inputs(&['[', ']', 'a', ','], n);
    i.extend(inputs(&['{', '}', 'a', ':', ',', '['], if rep.quick() { 5 } else { 7 }));
    i.extend([
        "[a,[a,a],{a:[a],a:{}}]",
        "{a:[[],{}],a:a,}",
        "[[[[[[[[a]]]]]]]]",
        "[[[[[[[[a]]]]]]]",
        "{a:{a:{a:{a:{a:[a,a,[a]]}}}}}",
        "{a:{a:{a:{a:{a:[a,a,[a]]}}}}",
    ]);
    rep.explore("two rules referring to each other", &i, |rep, s, loc| {
        thread_local! {
            static P: [Jc<Cs>; 2] = [json(false), json(true)];
        }
        P.with(|p| {
            for (k, p) in p.iter().enumerate() {
                let want = jref(s.as_bytes(), 0);
                loc.states += 1;
                loc.traces += 2;
                let rx = guarded(|| {
                    let mut c = Cs::new(s);
                    let r = c.try_mat(p).ok().map(|v| (v.beg(), v.len()));
                    (r, c.offset())
                });
                let ct = guarded(|| {
                    let mut c = Cs::new(s);
                    (c.ctor_handler(p, Jh).ok(), c.offset())
                });
                let e = want.as_ref().map_or(0, |w| w.1);
                let wr = (want.as_ref().map(|_| (0, e)), e);
                let wc = (want.clone().map(|w| w.0), e);
                if want.is_some() {
                    loc.matched += 1;
                    loc.outcomes.insert(hash64(&want));
                } else {
                    loc.failed += 1;
                }
                if rx != Ok(wr) || ct != Ok(wc.clone()) {
                    rep.violation(
                        &format!("mutual:{k}:{s}"),
                        &format!("input {s:?} (thread-safe: {k}): match {rx:?} expected {wr:?}, construct {ct:?} expected {wc:?}"),
                    );
                }
            }
        })
    });
}

/// A recursive pattern used again, on another context, while it is in use:
/// from a leaf in its own body, from a mapper, and from the handler.
fn reentrant(rep: &Rep) {
    struct Leafy<P>(P, &'static str, Rc<RefCell<Vec<Option<usize>>>>);
    impl<P: Regex<Cs>> Leafy<P> {
        fn again(&self) {
            let mut c = Cs::new(self.1);
            let r = c.try_mat(&self.0).ok().map(|v| v.len());
            self.2.borrow_mut().push(r);
        }
    }
    thread_local! {
        static DEEP: RefCell<bool> = const { RefCell::new(false) };
    }
    impl<P: Regex<Cs>> Regex<Cs> for Leafy<P> {
        fn try_parse(&self, c: &mut Cs) -> Result<Span, Error> {
            // one level only: the inner use sees a plain leaf
            if !DEEP.with(|d| d.replace(true)) {
                self.again();
                DEEP.with(|d| *d.borrow_mut() = false);
            }
            c.try_mat(&"a")
        }
    }
    impl<P: Regex<Cs>> Ctor<Cs, V, Hd> for Leafy<P> {
        fn construct(&self, c: &mut Cs, h: &mut Hd) -> Result<V, Error> {
            let s = c.try_mat(self)?;
            neure::ctor::Handler::<Cs>::invoke(h, c, &s)
        }
    }
    // a^n b^n, n >= 1
    let anbn = |s: &str| -> Option<usize> {
        let n = s.bytes().take_while(|c| *c == b'a').count();
        let m = s[n..].bytes().take_while(|c| *c == b'b').count();
        (n > 0 && m >= n).then_some(2 * n)
    };
    let i = inputs(&['a', 'b'], 6);
    let others = inputs(&['a', 'b'], 3);
    rep.explore("used inside itself", &i, |rep, s, loc| {
        for o in &others {
            for sync in [false, true] {
                let seen = Rc::new(RefCell::new(vec![]));
                let mapped = Rc::new(RefCell::new(vec![]));
                macro_rules! body {
                    ($h:expr) => {{
                        let (h1, h2) = ($h.clone(), $h.clone());
                        let mp = mapped.clone();
                        let o = *o;
                        let leaf = Leafy(h1, o, seen.clone());
                        let inner = CtorOps::<'static, Cs>::opt($h.clone());
                        let body = CtorOps::<'static, Cs>::then(
                            leaf,
                            CtorOps::<'static, Cs>::suffix(val(inner, |v: Option<V>| V::O(v.map(Box::new))), "b"),
                        );
                        let body = val(body, |(a, b): (V, V)| V::P(Box::new(a), Box::new(b)));
                        Ss(CtorOps::<'static, Cs>::map::<_, V>(body, move |v: V| {
                            if !DEEP.with(|d| d.replace(true)) {
                                let mut c = Cs::new(o);
                                let r = c.ctor_handler(&h2, Hd::default()).ok().map(|_| c.offset());
                                mp.borrow_mut().push(r);
                                DEEP.with(|d| *d.borrow_mut() = false);
                            }
                            v
                        }))
                    }};
                }
                let pat: Bx<Cs> = if sync {
                    Box::new(rec_parser_sync::<'static, '_, Cs, V, _, Hd>(|h| body!(h)))
                } else {
                    Box::new(rec_parser::<'static, '_, Cs, V, Hd, _>(|h| body!(h)))
                };
                loc.states += 1;
                loc.traces += 2;
                let want = anbn(s);
                let wo = anbn(o);
                DEEP.with(|d| *d.borrow_mut() = false);
                let rx = guarded(|| {
                    let mut c = Cs::new(s);
                    (c.try_mat(&pat).ok().map(|v| v.len()), c.offset())
                });
                DEEP.with(|d| *d.borrow_mut() = false);
                let ct = guarded(|| {
                    let mut c = Cs::new(s);
                    (c.ctor_handler(&pat, Hd::default()).is_ok(), c.offset())
                });
                if want.is_some() {
                    loc.matched += 1
                } else {
                    loc.failed += 1
                }
                let e = want.unwrap_or(0);
                let ok = rx == Ok((want, e))
                    && ct == Ok((want.is_some(), e))
                    && seen.borrow().iter().chain(mapped.borrow().iter()).all(|r| *r == wo)
                    && !seen.borrow().is_empty()
                    && (want.is_none() || !mapped.borrow().is_empty());
                if !ok {
                    rep.violation(
                        &format!("reentrant:{sync}:{s}:{o}"),
                        &format!(
                            "input {s:?} (expected {want:?}), used again on {o:?} (expected {wo:?}) meanwhile, thread-safe {sync}: match {rx:?}, construct {ct:?}, inner uses {:?} {:?}",
                            seen.borrow(),
                            mapped.borrow()
                        ),
                    );
                }
            }
        }
    });
}
