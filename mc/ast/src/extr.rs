//! P26, the entry points: every way to get a value out of a match, with every
//! extractor and with closures, mappers and handlers of the user.

use crate::props::inputs_ab;
use mc_ast::build::{Bs, Cs, Hc, Pc, val_as};
use mc_ast::enumerate::starts;
use mc_ast::families::*;
use mc_ast::model::{Fault, Skip};
use mc_ast::run::model;
use mc_ast::{A, Ast, Leaf, SIZES, Tab, V, Ws};
use mc_core::{Local, Rep, guarded, hash64};
use neure::ctor::{Ctor, CtorOps, Extract, Handler};
use neure::ctx::MatchExt;
use neure::err::Error;
use neure::regex::{self, Regex};
use neure::span::Span;
use std::cell::Cell;
use std::fmt::Debug;

type Bh<C, H> = Box<dyn Ctor<C, String, H>>;

/// Contexts whose leaves can be built for any handler.
pub trait Hx: Hc {
    fn raw<H>(l: &Leaf) -> Box<dyn Ctor<Self, H::Out, H>>
    where
        H: Handler<Self> + 'static,
        H::Out: 'static;
    fn ws_h<H>(k: Ws, p: Bh<Self, H>) -> Bh<Self, H>
    where
        H: Handler<Self> + 'static,
        H::Out: 'static;
    /// what the extractor of the original gives for a range
    fn part(s: &'static str, b: usize, n: usize) -> String;
    fn string(c: &mut Self, p: &Term<Self>) -> Option<Result<String, Error>>;
    fn ctor_orig(c: &mut Self, p: &Term<Self>) -> Result<String, Error>;
    fn map_orig(c: &mut Self, p: &dyn Regex<Self>, reject: bool) -> Result<String, Error>;
}

#[derive(Debug)]
pub struct Mine;
impl From<Mine> for Error {
    fn from(_: Mine) -> Self {
        Error::Uid(77)
    }
}

/// A handler of the user, with an error type of its own.
#[derive(Clone)]
pub struct Own {
    reject: Option<(usize, usize)>,
}
impl<C> Handler<C> for Own {
    type Out = (usize, usize);
    type Error = Mine;
    fn invoke(&mut self, _: &C, s: &Span) -> Result<(usize, usize), Mine> {
        let x = (s.beg(), s.len());
        if self.reject == Some(x) { Err(Mine) } else { Ok(x) }
    }
}

macro_rules! hx {
    ($t:ty, $orig:ty, $unit:ident, $lit:expr, $text:expr, $string:tt) => {
        impl Hx for $t {
            fn raw<H>(l: &Leaf) -> Box<dyn Ctor<Self, H::Out, H>>
            where
                H: Handler<Self> + 'static,
                H::Out: 'static,
            {
                use mc_ast::build::$unit as unit;
                match *l {
                    Leaf::Lit(s) => Box::new($lit(s)),
                    Leaf::Once(u) => Box::new(regex::once::<Self, _>(unit(u))),
                    Leaf::Opt(u) => Box::new(regex::opt::<Self, _>(unit(u))),
                    Leaf::Many0(u) => Box::new(regex::many0::<Self, _>(unit(u))),
                    Leaf::Many1(u) => Box::new(regex::many1::<Self, _>(unit(u))),
                    Leaf::Times(u, lo, hi) => Box::new(neure::neu::Times::new(
                        unit(u),
                        neure::neu::CRange::from(lo..=hi),
                        neure::neu::EmptyCond,
                    )),
                    Leaf::Start => Box::new(regex::start()),
                    Leaf::End => Box::new(regex::end()),
                    Leaf::Empty => Box::new(regex::empty()),
                    Leaf::Unit => Box::new(CtorOps::<'static, Self>::pat(())),
                    Leaf::Fail => Box::new(regex::fail()),
                    Leaf::ConsumeAll => Box::new(regex::consume_all()),
                    Leaf::Consume(n) => Box::new(regex::consume(n)),
                }
            }
            fn ws_h<H>(k: Ws, p: Bh<Self, H>) -> Bh<Self, H>
            where
                H: Handler<Self> + 'static,
                H::Out: 'static,
            {
                hx!(@ws $string, Self, k, p)
            }
            fn part(s: &'static str, b: usize, n: usize) -> String {
                let f: fn(&'static str, usize, usize) -> String = $text;
                f(s, b, n)
            }
            fn ctor_orig(c: &mut Self, p: &Term<Self>) -> Result<String, Error> {
                c.ctor(&build_h::<Self, Extract<$orig>>(&p.0))
            }
            fn string(c: &mut Self, p: &Term<Self>) -> Option<Result<String, Error>> {
                hx!(@str $string, Self, c, p)
            }
            fn map_orig(c: &mut Self, p: &dyn Regex<Self>, reject: bool) -> Result<String, Error> {
                MatchExt::map(c, &Dr(p), move |t: $orig| if reject { Err(Error::Uid(5)) } else { Ok(format!("{t:?}")) })
            }
        }
    };
    (@ws true, $c:ty, $k:ident, $p:ident) => {
        match $k {
            Ws::Skip => Box::new(CtorOps::<'static, $c>::skip_ws($p)),
            Ws::SkipAscii => Box::new(CtorOps::<'static, $c>::skip_ascii_ws($p)),
            Ws::SkipLeading => Box::new(CtorOps::<'static, $c>::skip_ws_leading($p)),
            Ws::SkipAsciiLeading => Box::new(CtorOps::<'static, $c>::skip_ascii_ws_leading($p)),
        }
    };
    (@ws false, $c:ty, $k:ident, $p:ident) => {
        match $k {
            Ws::Skip | Ws::SkipAscii => Box::new(CtorOps::<'static, $c>::skip_ascii_ws($p)),
            _ => Box::new(CtorOps::<'static, $c>::skip_ascii_ws_leading($p)),
        }
    };
    (@str true, $c:ty, $x:ident, $p:ident) => {
        Some($x.ctor_handler(&build_h::<$c, Extract<String>>(&$p.0), Extract::<String>::new()))
    };
    (@str false, $c:ty, $x:ident, $p:ident) => {{
        let _ = ($x, $p);
        None
    }};
}

fn blit(s: &'static str) -> &'static [u8] {
    s.as_bytes()
}
fn slit(s: &'static str) -> &'static str {
    s
}
hx!(Cs, &'static str, char_unit, slit, |s, b, n| format!("{:?}", &s[b..b + n]), true);
hx!(Bs, &'static [u8], byte_unit, blit, |s, b, n| format!("{:?}", &s.as_bytes()[b..b + n]), false);
hx!(Pc, &'static str, char_unit, slit, |s, b, n| format!("{:?}", &s[b..b + n]), true);

/// References to patterns are not patterns themselves.
struct Dr<'p, C>(&'p dyn Regex<C>);
impl<C> Regex<C> for Dr<'_, C> {
    fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
        self.0.try_parse(c)
    }
}

pub struct Term<C>(A, std::marker::PhantomData<C>);

/// The values of all handlers are shown as text, in the same way as `show`.
fn show(v: &V, leaf: &mut dyn FnMut(usize, usize) -> String) -> String {
    match v {
        V::S(b, n) => leaf(*b as usize, *n as usize),
        V::P(a, b) => {
            let a = show(a, leaf);
            format!("({a},{})", show(b, leaf))
        }
        V::O(None) => "none".into(),
        V::O(Some(a)) => format!("some {}", show(a, leaf)),
        V::L(v) => list(v.iter().map(|v| show(v, leaf)).collect()),
        V::F(v) => list(v.iter().map(|v| v.as_ref().map_or("none".into(), |v| show(v, leaf))).collect()),
        V::T(7, v) => show(v, leaf),
        V::T(k, v) => format!("{k}:{}", show(v, leaf)),
    }
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn opt_s(v: Option<String>) -> String {
    v.map_or("none".into(), |v| format!("some {v}"))
}

/// Like `build`, for any handler.
fn build_h<C: Hx, H>(a: &Ast) -> Bh<C, H>
where
    H: Handler<C> + 'static,
    H::Out: Debug + 'static,
{
    macro_rules! b {
        ($e:expr) => {
            build_h::<C, H>($e)
        };
    }
    macro_rules! ops {
        ($m:ident ( $p:expr $(, $a:expr)* )) => {
            CtorOps::<'static, C>::$m($p $(, $a)*)
        };
    }
    fn leaf<C: 'static, H: Handler<C> + 'static, P: Ctor<C, H::Out, H> + 'static>(p: P) -> Bh<C, H>
    where
        H::Out: Debug + 'static,
    {
        Box::new(val_as(p, |o: H::Out| format!("{o:?}")))
    }
    match a {
        Ast::L(l) => leaf(C::raw::<H>(l)),
        Ast::Pat(a) => leaf(ops!(pat(b!(a)))),
        Ast::Opt(a) => Box::new(val_as(ops!(opt(b!(a))), opt_s)),
        Ast::Map(_) | Ast::Dyn(..) | Ast::RxDyn(..) | Ast::Fix(..) | Ast::Rec => unreachable!("left out"),
        Ast::Not(a) => leaf(regex::not(b!(a))),
        Ast::Peek(a) => leaf(regex::peek(b!(a))),
        Ast::Ws(k, a) => C::ws_h(*k, b!(a)),
        Ast::Repeat(r, a) => Box::new(val_as(ops!(repeat(b!(a), mc_ast::build::crange(*r))), list)),
        Ast::Repeat2(i, a) => {
            let p = b!(a);
            let go = |v: Vec<Option<String>>| list(v.into_iter().map(|v| v.unwrap_or("none".into())).collect());
            match SIZES[*i] {
                (0, 1) => Box::new(val_as(CtorOps::<'static, C>::repeat2::<0, 1>(p), move |v: [Option<String>; 1]| go(v.into()))),
                (1, 1) => Box::new(val_as(CtorOps::<'static, C>::repeat2::<1, 1>(p), move |v: [Option<String>; 1]| go(v.into()))),
                _ => Box::new(val_as(CtorOps::<'static, C>::repeat2::<1, 2>(p), move |v: [Option<String>; 2]| go(v.into()))),
            }
        }
        Ast::Collect(m, a) => Box::new(val_as(CtorOps::<'static, C>::collect::<String, Vec<String>>(b!(a)).at_least(*m), list)),
        Ast::Then(x, y) => Box::new(val_as(ops!(then(b!(x), b!(y))), |(a, b): (String, String)| format!("({a},{b})"))),
        Ast::Then0(x, y) => Box::new(ops!(then(b!(x), b!(y)))._0::<(String, String)>()),
        Ast::Then1(x, y) => Box::new(ops!(then(b!(x), b!(y)))._1::<(String, String)>()),
        Ast::Or(x, y) => Box::new(ops!(or(b!(x), b!(y)))),
        Ast::Ltm(x, y) => Box::new(ops!(longest(b!(x), b!(y)))),
        Ast::Prefix(x, y) => Box::new(ops!(prefix(b!(x), b!(y)))),
        Ast::Suffix(x, y) => Box::new(ops!(suffix(b!(x), b!(y)))),
        Ast::Sep(s, m, x, y) => Box::new(val_as(ops!(sep(b!(x), b!(y))).with_skip(*s).at_least(*m), list)),
        Ast::SepCollect(s, m, x, y) => Box::new(val_as(
            CtorOps::<'static, C>::sep_collect::<_, String, Vec<String>>(b!(x), b!(y)).with_skip(*s).at_least(*m),
            list,
        )),
        Ast::Sep2(s, i, x, y) => {
            let (p, q, s) = (b!(x), b!(y), *s);
            let go = |v: Vec<Option<String>>| list(v.into_iter().map(|v| v.unwrap_or("none".into())).collect());
            match SIZES[*i] {
                (0, 1) => Box::new(val_as(CtorOps::<'static, C>::sep2::<_, 0, 1>(p, q).with_skip(s), move |v: [Option<String>; 1]| go(v.into()))),
                (1, 1) => Box::new(val_as(CtorOps::<'static, C>::sep2::<_, 1, 1>(p, q).with_skip(s), move |v: [Option<String>; 1]| go(v.into()))),
                _ => Box::new(val_as(CtorOps::<'static, C>::sep2::<_, 1, 2>(p, q).with_skip(s), move |v: [Option<String>; 2]| go(v.into()))),
            }
        }
        Ast::Enclose(x, l, r) => Box::new(ops!(enclose(b!(x), b!(l), b!(r)))),
        Ast::SepOnce(l, s, r) => Box::new(val_as(ops!(sep_once(b!(l), b!(s), b!(r))), |(a, b): (String, String)| format!("({a},{b})"))),
        Ast::IfThen(l, t, r) => Box::new(val_as(ops!(if_then(b!(l), b!(t), b!(r))), |(a, b): (String, Option<String>)| {
            format!("({a},{})", opt_s(b))
        })),
        Ast::IfElse(t, x, y) => {
            let t = *t;
            Box::new(CtorOps::<'static, C>::if_else(b!(x), move |_: &C| Ok(t == mc_ast::Test::True), b!(y)))
        }
        Ast::Table(t, v) => {
            let v: Vec<Bh<C, H>> = v.iter().map(|a| b!(a)).collect();
            let kv = |v: Vec<Bh<C, H>>| v.into_iter().enumerate().map(|(i, p)| (p, 100 + i)).collect::<Vec<_>>();
            let keyed = |(v, k): (String, usize)| format!("{k}:{v}");
            match t {
                Tab::VectorLtm => Box::new(regex::vector_ltm(v)),
                Tab::PairVector => Box::new(val_as(regex::pair_vector(kv(v)), keyed)),
                Tab::PairVectorLtm => Box::new(val_as(regex::pair_vector_ltm(kv(v)), keyed)),
                _ => Box::new(regex::vector(v)),
            }
        }
    }
}

fn buildable(a: &Ast) -> bool {
    !a.any(&mut |x| match x {
        Ast::Map(_) | Ast::Dyn(..) | Ast::RxDyn(..) | Ast::Fix(..) | Ast::Rec => true,
        Ast::Table(t, _) => !matches!(t, Tab::Vector | Tab::VectorLtm | Tab::PairVector | Tab::PairVectorLtm),
        Ast::IfElse(t, ..) => !matches!(t, mc_ast::Test::True | mc_ast::Test::False),
        Ast::Repeat2(i, _) | Ast::Sep2(_, i, ..) => *i > 2,
        _ => false,
    })
}

fn one<C: Hx>(rep: &Rep, t: &A, inputs: &[&'static str], l: &mut Local) {
    let span = build_h::<C, Extract<Span>>(t);
    let unit = build_h::<C, Extract<()>>(t);
    let own = build_h::<C, Own>(t);
    let term = Term::<C>(t.clone(), std::marker::PhantomData);
    let skip = if C::NAME.contains("skip") { Skip::Space } else { Skip::None };
    for &s in inputs {
        let m = model::<C>(s, skip, Fault::default());
        for at in starts(s, 1) {
            l.states += 1;
            let mk = || {
                let mut c = C::mk(s, skip);
                c.set_offset(at);
                mc_core::set_budget(mc_ast::run::BUDGET);
                c
            };
            // the position after a success is judged elsewhere (P04); here: values, and
            // that a failure goes back
            let mut seen = |what: &str, got: Result<(Result<String, Error>, usize), String>, want: Option<String>, end: Option<usize>| {
                l.traces += 1;
                let fine = match (&got, &want) {
                    (Ok((Ok(g), p)), Some(w)) => g == w && end.is_none_or(|e| e == *p),
                    (Ok((Err(_), p)), None) => *p == at,
                    _ => false,
                };
                if want.is_some() { l.matched += 1 } else { l.failed += 1 }
                l.outcomes.insert(hash64(&(what, &want)));
                if !fine {
                    rep.violation(
                        &format!("{what}:{t:?}:{s:?}@{at}:{}", C::NAME),
                        &format!("{what} with {t:?}, {} input {s:?} at {at}: {got:?}, expected {want:?}, on failure back at {at}", C::NAME),
                    );
                }
            };
            macro_rules! run {
                ($c:ident => $e:expr) => {
                    guarded(|| {
                        let mut $c = mk();
                        let r = $e;
                        (r, $c.offset())
                    })
                };
            }
            let ran = m.ct(t, at, &mut vec![]).map(|(v, _)| v);
            let spans = |v: &V| show(v, &mut |b, n| format!("{:?}", Span::new(b, n)));
            seen("ctor_span", run!(c => c.ctor_span(&span)), ran.as_ref().map(spans), None);
            seen("ctor", run!(c => C::ctor_orig(&mut c, &term)), ran.as_ref().map(|v| show(v, &mut |b, n| C::part(s, b, n))), None);
            seen("ctor_handler with Extract<()>", run!(c => c.ctor_handler(&unit, Extract::<()>::new())), ran.as_ref().map(|v| show(v, &mut |_, _| "()".into())), None);
            let mut has = true;
            let r = run!(c => C::string(&mut c, &term).unwrap_or_else(|| { has = false; Err(Error::Uid(0)) }));
            if has {
                seen("ctor_handler with Extract<String>", r, ran.as_ref().map(|v| show(v, &mut |b, n| C::part(s, b, n))), None);
            }
            let pairs = |v: &V| show(v, &mut |b, n| format!("{:?}", (b, n)));
            seen("ctor_handler with a handler", run!(c => c.ctor_handler(&own, Own { reject: None })), ran.as_ref().map(pairs), None);
            // closures: how often and with which ranges
            let mat = guarded(|| {
                let mut c = mk();
                let r = c.try_mat(&own).ok().map(|x| (x.beg(), x.len()));
                (r, c.offset())
            });
            let Ok((mat, end)) = mat else { continue };
            let calls = Cell::new(0);
            let r = run!(c => c.map_with(&own, |c: &C, x: &Span| {
                calls.set(calls.get() + 1);
                Ok(format!("{:?} {}", (x.beg(), x.len()), c.offset()))
            }));
            seen("map_with", r, mat.map(|x| format!("{x:?} {end}")), Some(end));
            if calls.get() != mat.is_some() as u32 {
                rep.violation(
                    &format!("calls:{t:?}:{s:?}@{at}:{}", C::NAME),
                    &format!("map_with {t:?}, {} input {s:?} at {at}: the closure was called {} times", C::NAME, calls.get()),
                );
            }
            let reg: &dyn Regex<C> = &Re(&own);
            seen("map_with that fails", run!(c => c.map_with(&own, |_: &C, _: &Span| Err::<String, _>(Error::Uid(5)))), None, None);
            seen("map_span", run!(c => c.map_span(&own, |x: Span| Ok(format!("{:?}", (x.beg(), x.len()))))), mat.map(|x| format!("{x:?}")), Some(end));
            seen("map_span that fails", run!(c => c.map_span(&own, |_: Span| Err::<String, _>(Error::Uid(5)))), None, None);
            seen("map", run!(c => C::map_orig(&mut c, reg, false)), mat.map(|(b, n)| C::part(s, b, n)), Some(end));
            seen("map that fails", run!(c => C::map_orig(&mut c, reg, true)), None, None);
            seen(
                "map_handler",
                run!(c => c.map_handler(&own, Own { reject: None }).map(|x| format!("{x:?}"))),
                mat.map(|x| format!("{x:?}")),
                Some(end),
            );
            seen("map_handler that fails", run!(c => c.map_handler(&own, Own { reject: mat }).map(|x| format!("{x:?}"))), None, None);
            seen("map_handler with Extract<Span>", run!(c => c.map_handler(&own, Extract::<Span>::new()).map(|x| format!("{x:?}"))), mat.map(|(b, n)| format!("{:?}", Span::new(b, n))), Some(end));
            seen("map_handler with Extract<()>", run!(c => c.map_handler(&own, Extract::<()>::new()).map(|x| format!("{x:?}"))), mat.map(|_| "()".into()), Some(end));
        }
    }
}

/// A constructor as a plain pattern.
struct Re<'p, P>(&'p P);
impl<C, P: Regex<C>> Regex<C> for Re<'_, P> {
    fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
        self.0.try_parse(c)
    }
}

/// The closure form of `ctor_with`: its type cannot be named, so a few patterns stand
/// for all, as leaves and inside operators.
fn closures(rep: &Rep, inputs: &[&'static str]) {
    rep.explore("closures as handlers", inputs, |rep, s, l| {
        let mut go = |what: &str, got: Result<(Option<String>, usize), String>, want: Option<(String, usize)>| {
            l.states += 1;
            l.traces += 1;
            if want.is_some() { l.matched += 1 } else { l.failed += 1 }
            l.outcomes.insert(hash64(&(what, &want)));
            let w = want.map_or((None, 0), |(a, b)| (Some(a), b));
            if got.as_ref() != Ok(&w) {
                rep.violation(&format!("closure {what}:{s:?}"), &format!("ctor_with {what} on {s:?}: {got:?}, expected {w:?}"));
            }
        };
        let f = |c: &Cs, x: &Span| -> Result<String, Error> {
            use neure::ctx::Context;
            Ok(format!("{}+{}={:?}", x.beg(), x.len(), c.orig_sub(x.beg(), x.len())?))
        };
        macro_rules! with {
            ($p:expr, $show:expr) => {
                guarded(|| {
                    let mut c = Cs::new(s);
                    let r = c.ctor_with(&$p, f);
                    (r.ok().map($show), c.offset())
                })
            };
        }
        let sh = |b: usize, n: usize| format!("{b}+{n}={:?}", &s[b..b + n]);
        let a = s.bytes().take_while(|c| *c == b'a').count();
        go("literal", with!("a", |x: String| x), s.starts_with('a').then(|| (sh(0, 1), 1)));
        go("unit run", with!(regex::many0::<Cs, _>('a'), |x: String| x), Some((sh(0, a), a)));
        go(
            "sequence",
            with!(CtorOps::<'static, Cs>::then("a", "b"), |(x, y): (String, String)| format!("{x} {y}")),
            s.starts_with("ab").then(|| (format!("{} {}", sh(0, 1), sh(1, 1)), 2)),
        );
        go(
            "list",
            with!(CtorOps::<'static, Cs>::repeat("a", 1..), |v: Vec<String>| v.join(" ")),
            (a > 0).then(|| ((0..a).map(|i| sh(i, 1)).collect::<Vec<_>>().join(" "), a)),
        );
        // a closure that counts, and one that gives up part of the way
        for stop in 0..4usize {
            let mut n = 0;
            let got = guarded(|| {
                let mut c = Cs::new(s);
                let r: Result<Vec<usize>, Error> = c.ctor_with(&CtorOps::<'static, Cs>::repeat("a", 1..), |_: &Cs, x: &Span| {
                    n += 1;
                    if x.beg() == stop { Err(Error::Uid(6)) } else { Ok(x.beg()) }
                });
                (r.ok().map(|v| format!("{v:?}")), c.offset())
            });
            // an element whose handler fails ends the list before it
            let k = a.min(stop);
            go(
                &format!("list, failing at {stop}"),
                got,
                (k > 0).then(|| (format!("{:?}", (0..k).collect::<Vec<_>>()), k)),
            );
        }
    });
}

pub fn entry_points(rep: &Rep) {
    let q = rep.quick();
    let keep = |v: Vec<A>| -> Vec<A> { v.into_iter().filter(|a| buildable(a)).collect() };
    let t = keep(flat_terms(&leaves_all(), &all_ops(), 3));
    let i = inputs_ab(if q { 3 } else { 5 });
    go::<Cs>(rep, "entry points", &t, &i);
    go::<Bs>(rep, "entry points", &t, &i);
    let sp = mc_ast::enumerate::inputs(&['a', 'b', ' '], if q { 3 } else { 4 });
    // positions before a final skip are not compared across a longest match
    let tp: Vec<A> = t
        .iter()
        .filter(|a| !a.any(&mut |x| matches!(x, Ast::Ltm(..)) || matches!(x, Ast::Table(t, _) if t.ltm()) || matches!(x, Ast::Pat(_) | Ast::Not(_) | Ast::Peek(_))))
        .cloned()
        .collect();
    go::<Pc>(rep, "entry points", &tp, &sp);
    let w = keep(flat_terms(&leaves_wide(), &core_ops(), 3));
    let iw = mc_ast::enumerate::inputs(&['a', 'é', '𝄞'], if q { 3 } else { 4 });
    go::<Cs>(rep, "entry points, wide text", &w, &iw);
    let t3 = keep(flat_terms(&leaves_small(), &core_ops(), if q { 4 } else { 5 }));
    let i3 = inputs_ab(if q { 3 } else { 4 });
    go::<Cs>(rep, "entry points, nested", &t3, &i3);
    if !q {
        go::<Bs>(rep, "entry points, nested", &t3, &i3);
    }
    closures(rep, &inputs_ab(6));
    exact(rep);
}

/// What is extracted is the matched text, whatever characters it is made of.
fn exact(rep: &Rep) {
    use neure::ctx::{BytesCtx, CharsCtx, Context};
    fn one(rep: &Rep, pre: &str, text: &str, post: &str, l: &mut Local) {
        let all = format!("{pre}{text}{post}");
        let s = all.as_str();
        let (b, n) = (pre.len(), text.len());
        l.states += 1;
        l.traces += 1;
        l.matched += 1;
        let got = guarded(|| {
            let p = regex::consume(n);
            let mk = || {
                let mut c = CharsCtx::new(s);
                c.set_offset(b);
                c
            };
            let mkb = || {
                let mut c = BytesCtx::new(s.as_bytes());
                c.set_offset(b);
                c
            };
            let mut bad = vec![];
            let mut see = |what: &'static str, ok: bool| {
                if !ok {
                    bad.push(what);
                }
            };
            let mut c = mk();
            see("ctor", c.ctor::<_, &str>(&p).is_ok_and(|t| t == text && t.as_ptr() == s[b..].as_ptr()));
            see("position", c.offset() == b + n);
            see("ctor_span", mk().ctor_span(&p).is_ok_and(|x: Span| (x.beg(), x.len()) == (b, n)));
            see("Extract<&str>", mk().ctor_handler(&p, Extract::<&str>::new()).is_ok_and(|t| t == text));
            see("Extract<String>", mk().ctor_handler(&p, Extract::<String>::new()).is_ok_and(|t| t == text));
            see("construct into a String", p.construct(&mut mk(), &mut Extract::<String>::new()).is_ok_and(|t| t == text));
            see("map", MatchExt::map(&mut mk(), &p, |t: &str| Ok(t == text)).is_ok_and(|t| t));
            see("map_handler", mk().map_handler(&p, Extract::<String>::new()).is_ok_and(|t| t == text));
            see("the value of a map", {
                let m = CtorOps::<CharsCtx>::map::<_, &str>(regex::consume(n), |t: &str| t.to_string());
                mk().ctor::<_, String>(&m).is_ok_and(|t| t == text)
            });
            see("bytes", mkb().ctor::<_, &[u8]>(&p).is_ok_and(|t| t == text.as_bytes()));
            see("Extract<&[u8]>", mkb().ctor_handler(&p, Extract::<&[u8]>::new()).is_ok_and(|t| t == text.as_bytes()));
            see("map of bytes", MatchExt::map(&mut mkb(), &p, |t: &[u8]| Ok(t == text.as_bytes())).is_ok_and(|t| t));
            bad
        });
        if got != Ok(vec![]) {
            let short = |t: &str| format!("{:?}… ({} bytes)", t.chars().take(12).collect::<String>(), t.len());
            rep.violation(
                &format!("extract:{}@{b}:{}", short(text), short(post)),
                &format!("extracting {} at {b} of {}: wrong through {got:?}", short(text), short(s)),
            );
        }
    }
    rep.explore_n("every character extracted", 0x1100, |rep, hi, l| {
        for lo in 0..0x100u32 {
            let Some(c) = char::from_u32(hi as u32 * 0x100 + lo) else { continue };
            let t = c.to_string();
            one(rep, "", &t, "", l);
            one(rep, "", &format!("{t}é"), "a", l);
            one(rep, "b", &format!("a{t}"), &t, l);
            one(rep, &t, &format!("{t}{t}a{t}{t}"), &t, l);
        }
    });
    let odd = ['\0', ' ', '\t', '\n', '\r', '\u{b}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '\u{feff}', '\u{200b}', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '"', '\'', '\\', '0', 'A'];
    rep.explore("odd characters extracted", &odd, |rep, x, l| {
        for y in odd {
            for z in odd {
                let t: String = [*x, y, z].iter().collect();
                for (pre, post) in [("", ""), ("a", "b"), ("\0", "\0"), (" ", " ")] {
                    one(rep, pre, &t, post, l);
                }
            }
        }
    });
    let ns: Vec<usize> = (0..=300).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70001, 1 << 20]).collect();
    rep.explore("long texts extracted", &ns, |rep, n, l| {
        for (u, post) in [("a", "b"), ("é", ""), ("𝄞\0", "x"), ("\n", "\n")] {
            for pre in [0, 1, 255, 65536] {
                one(rep, &"x".repeat(pre), &u.repeat(*n), post, l);
            }
        }
    });
}

fn flat_terms(l: &[A], o: &mc_ast::enumerate::Ops, n: usize) -> Vec<A> {
    mc_ast::enumerate::flat(mc_ast::enumerate::terms(l, o, n))
}

fn go<C: Hx>(rep: &Rep, name: &str, terms: &[A], inputs: &[&'static str]) {
    rep.explore(&format!("{name} / {}", C::NAME), terms, |rep, t, l| one::<C>(rep, t, inputs, l));
}
