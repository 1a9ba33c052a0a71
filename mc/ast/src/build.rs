//! Builds a term as a real pattern, through neure's public API only.

use crate::model::Skip;
use crate::{Ast, DynFn, Fx, Leaf, Rng, SIZES, Tab, Test, U, V, Ws};
use mc_core::step;
use neure::ctor::{Ctor, CtorOps, Handler};
use neure::ctor::DynamicCtorThenBuilderHelper;
use neure::ctx::{BytesCtx, CharsCtx, Context, Match, PolicyCtx};
use neure::err::Error;
use neure::neu::{self, CRange, EmptyCond, Neu};
use neure::regex::{self, Regex};
use neure::span::Span;
use neure::regex::{
    RecParser, RecParserSync, RecursiveCtor, RecursiveCtorSync, RecursiveParser, RecursiveParserSync, rec_parser,
    rec_parser_sync,
};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::ops::Bound;

pub type Cs = CharsCtx<'static>;
pub type Bs = BytesCtx<'static>;
pub type Pc = PolicyCtx<Cs, Pol>;
pub type Pb = PolicyCtx<Bs, Pol>;

pub type Bx<C> = Box<dyn Ctor<C, V, Hd>>;

thread_local! {
    static REC: RefCell<Vec<Box<dyn Any>>> = const { RefCell::new(vec![]) };
    pub static MAP_REJECT: Cell<Option<(u32, u32)>> = const { Cell::new(None) };
}

/// The user's handler: records every range, may reject one.
#[derive(Default, Clone)]
pub struct Hd {
    pub log: Vec<(u32, u32)>,
    pub reject: Option<(u32, u32)>,
}

impl<C> Handler<C> for Hd {
    type Out = V;
    type Error = Error;

    fn invoke(&mut self, _: &C, span: &Span) -> Result<V, Error> {
        let sp = (span.beg() as u32, span.len() as u32);
        self.log.push(sp);
        if self.reject == Some(sp) {
            Err(Error::Uid(7))
        } else {
            Ok(V::S(sp.0, sp.1))
        }
    }
}

/// A skip pattern for policy contexts; a real pattern per kind.
#[derive(Clone, Copy)]
pub struct Pol(pub Skip);

impl Regex<Cs> for Pol {
    fn try_parse(&self, ctx: &mut Cs) -> Result<Span, Error> {
        match self.0 {
            Skip::None => regex::empty().try_parse(ctx),
            Skip::Space => regex::many0(neu::whitespace()).try_parse(ctx),
            Skip::Dash => regex::many0('-').try_parse(ctx),
            Skip::Pairs => CtorOps::<'static, Cs>::collect::<Span, Vec<Span>>("<>")
                .at_least(0)
                .try_parse(ctx),
        }
    }
}

impl Regex<Bs> for Pol {
    fn try_parse(&self, ctx: &mut Bs) -> Result<Span, Error> {
        match self.0 {
            Skip::None => regex::empty().try_parse(ctx),
            Skip::Space => regex::many0(neu::ascii_whitespace()).try_parse(ctx),
            Skip::Dash => regex::many0(b'-').try_parse(ctx),
            Skip::Pairs => CtorOps::<'static, Bs>::collect::<Span, Vec<Span>>(b"<>")
                .at_least(0)
                .try_parse(ctx),
        }
    }
}

/// Counts leaf attempts.
pub struct Tick<P>(pub P);

impl<C, P: Regex<C>> Regex<C> for Tick<P> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        step();
        self.0.try_parse(ctx)
    }
}

impl<C, O, H, P: Ctor<C, O, H>> Ctor<C, O, H> for Tick<P> {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<O, Error> {
        step();
        self.0.construct(ctx, h)
    }
}

/// Turns the value of a pattern into `V`; user-side code, so that the
/// library's own mapping is only used where a term says so.
pub struct Val<P, F, O>(P, F, PhantomData<O>);

pub fn val<P, F: Fn(O) -> V, O>(p: P, f: F) -> Val<P, F, O> {
    Val(p, f, PhantomData)
}

impl<C, P: Regex<C>, F, O> Regex<C> for Val<P, F, O> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}

impl<C, H, P: Ctor<C, O, H>, F: Fn(O) -> V, O> Ctor<C, V, H> for Val<P, F, O> {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<V, Error> {
        self.0.construct(ctx, h).map(&self.1)
    }
}

/// The same for any type of value.
pub struct ValAs<P, F, O>(P, F, PhantomData<O>);
pub fn val_as<P, F: Fn(O) -> T, O, T>(p: P, f: F) -> ValAs<P, F, O> {
    ValAs(p, f, PhantomData)
}
impl<C, P: Regex<C>, F, O> Regex<C> for ValAs<P, F, O> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<C, H, P: Ctor<C, O, H>, F: Fn(O) -> T, O, T> Ctor<C, T, H> for ValAs<P, F, O> {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<T, Error> {
        self.0.construct(ctx, h).map(&self.1)
    }
}

fn pair((a, b): (V, V)) -> V {
    V::P(Box::new(a), Box::new(b))
}
fn opt(v: Option<V>) -> V {
    V::O(v.map(Box::new))
}
fn pair_opt((a, b): (V, Option<V>)) -> V {
    V::P(Box::new(a), Box::new(opt(b)))
}
fn fixed<const N: usize>(v: [Option<V>; N]) -> V {
    V::F(v.into())
}

/// Kinds of context a term can be built for.
pub trait Hc: Context<'static> + Match<'static> + Clone + Sized + 'static {
    const CHARS: bool;
    const NAME: &'static str;
    fn mk(s: &'static str, skip: Skip) -> Self;
    fn leaf(l: &Leaf) -> Bx<Self>;
    fn text(t: Vec<u8>) -> Bx<Self>;
    fn ws(k: Ws, p: Bx<Self>) -> Bx<Self>;
    fn is_a(i: &Self::Item) -> bool;
    fn bytes_of(c: &Self, b: usize, l: usize) -> Result<Vec<u8>, Error>;
    /// `!` on concrete unit patterns and literals, with the term under it
    fn unit_bangs() -> Vec<(Bx<Self>, Ast)>;
}

pub fn char_unit(u: U) -> Box<dyn Neu<char>> {
    match u {
        U::Ch(c) => Box::new(neu::equal(c)),
        U::NotCh(c) => Box::new(neu::not(c)),
        U::Any => Box::new(neu::always()),
        U::Never => Box::new(neu::never()),
        U::Ws => Box::new(neu::whitespace()),
        U::AOrB => Box::new(neu::or('a', 'b')),
    }
}

pub fn byte_unit(u: U) -> Box<dyn Neu<u8>> {
    match u {
        U::Ch(c) => Box::new(neu::equal(c as u8)),
        U::NotCh(c) => Box::new(neu::not(c as u8)),
        U::Any => Box::new(neu::always()),
        U::Never => Box::new(neu::never()),
        U::Ws => Box::new(neu::ascii_whitespace()),
        U::AOrB => Box::new(neu::or(b'a', b'b')),
    }
}

macro_rules! impl_hc {
    ($ty:ty, $chars:tt, $name:expr, $unit:ident, $mk:expr, $lit:expr, $text:expr) => {
        impl Hc for $ty {
            const CHARS: bool = $chars;
            const NAME: &'static str = $name;

            fn mk(s: &'static str, skip: Skip) -> Self {
                let f: fn(&'static str, Skip) -> Self = $mk;
                f(s, skip)
            }

            fn leaf(l: &Leaf) -> Bx<Self> {
                match *l {
                    Leaf::Lit(s) => Box::new(Tick($lit(s))),
                    Leaf::Once(u) => Box::new(Tick(regex::once::<Self, _>($unit(u)))),
                    Leaf::Opt(u) => Box::new(Tick(regex::opt::<Self, _>($unit(u)))),
                    Leaf::Many0(u) => Box::new(Tick(regex::many0::<Self, _>($unit(u)))),
                    Leaf::Many1(u) => Box::new(Tick(regex::many1::<Self, _>($unit(u)))),
                    Leaf::Times(u, lo, hi) => Box::new(Tick(neu::Times::new(
                        $unit(u),
                        CRange::from(lo..=hi),
                        EmptyCond,
                    ))),
                    Leaf::Start => Box::new(Tick(regex::start())),
                    Leaf::End => Box::new(Tick(regex::end())),
                    Leaf::Empty => Box::new(Tick(regex::empty())),
                    Leaf::Unit => Box::new(Tick(CtorOps::<'static, Self>::pat(()))),
                    Leaf::Fail => Box::new(Tick(regex::fail())),
                    Leaf::ConsumeAll => Box::new(Tick(regex::consume_all())),
                    Leaf::Consume(n) => Box::new(Tick(regex::consume(n))),
                }
            }

            fn text(t: Vec<u8>) -> Bx<Self> {
                Box::new(Tick($text(t)))
            }

            fn ws(k: Ws, p: Bx<Self>) -> Bx<Self> {
                impl_hc!(@ws $chars, Self, k, p)
            }

            fn is_a(i: &Self::Item) -> bool {
                *i == ('a' as u8).into()
            }

            fn unit_bangs() -> Vec<(Bx<Self>, Ast)> {
                use neure::neu::NeuIntoRegexOps;
                let (a, b) = (|| impl_hc!(@item $chars, 'a'), || impl_hc!(@item $chars, 'b'));
                let u = U::Ch('a');
                let n: Bx<Self> = Box::new(!NeuIntoRegexOps::<'static, Self>::then(a(), b()));
                vec![
                    (Box::new(!regex::once::<Self, _>(a())) as Bx<Self>, Ast::L(Leaf::Once(u))),
                    (Box::new(!regex::opt::<Self, _>(a())), Ast::L(Leaf::Opt(u))),
                    (Box::new(!regex::many0::<Self, _>(a())), Ast::L(Leaf::Many0(u))),
                    (Box::new(!regex::many1::<Self, _>(a())), Ast::L(Leaf::Many1(u))),
                    (
                        Box::new(!neu::Times::<Self, _, _>::new(a(), CRange::from(2..=3), EmptyCond)),
                        Ast::L(Leaf::Times(u, 2, 3)),
                    ),
                    (Box::new(!regex::count::<2, 3, Self, _>(a())), Ast::L(Leaf::Times(u, 2, 3))),
                    (n, Ast::L(Leaf::Lit("ab"))),
                    (Box::new(!regex::literal($lit("ab"))), Ast::L(Leaf::Lit("ab"))),
                ]
            }

            fn bytes_of(c: &Self, b: usize, l: usize) -> Result<Vec<u8>, Error> {
                c.orig_sub(b, l).map(|o| AsRef::<[u8]>::as_ref(o).to_vec())
            }
        }
    };
    (@item true, $e:expr) => {
        neu::equal($e)
    };
    (@item false, $e:expr) => {
        neu::equal($e as u8)
    };
    (@ws true, $c:ty, $k:ident, $p:ident) => {
        match $k {
            Ws::Skip => Box::new(CtorOps::<'static, $c>::skip_ws($p)),
            Ws::SkipAscii => Box::new(CtorOps::<'static, $c>::skip_ascii_ws($p)),
            Ws::SkipLeading => Box::new(CtorOps::<'static, $c>::skip_ws_leading($p)),
            Ws::SkipAsciiLeading => Box::new(CtorOps::<'static, $c>::skip_ascii_ws_leading($p)),
        }
    };
    (@ws false, $c:ty, $k:ident, $p:ident) => {
        match $k {
            Ws::Skip | Ws::SkipAscii => Box::new(CtorOps::<'static, $c>::skip_ascii_ws($p)),
            _ => Box::new(CtorOps::<'static, $c>::skip_ascii_ws_leading($p)),
        }
    };
}

fn str_lit(s: &'static str) -> &'static str {
    s
}
fn byte_lit(s: &'static str) -> &'static [u8] {
    s.as_bytes()
}
fn str_text(t: Vec<u8>) -> String {
    String::from_utf8(t).expect("text")
}
fn byte_text(t: Vec<u8>) -> Vec<u8> {
    t
}

macro_rules! chars_hc {
    ($ty:ty, $name:expr, $mk:expr) => {
        impl_hc!($ty, true, $name, char_unit, $mk, str_lit, str_text);
    };
}
macro_rules! bytes_hc {
    ($ty:ty, $name:expr, $mk:expr) => {
        impl_hc!($ty, false, $name, byte_unit, $mk, byte_lit, byte_text);
    };
}

chars_hc!(Cs, "text", |s, _| CharsCtx::new(s));
bytes_hc!(Bs, "bytes", |s, _| BytesCtx::new(s.as_bytes()));
chars_hc!(Pc, "text+skip", |s, k| CharsCtx::new(s).skip_before(Pol(k)));
bytes_hc!(Pb, "bytes+skip", |s, k| BytesCtx::new(s.as_bytes()).skip_before(Pol(k)));

pub fn crange(r: Rng) -> CRange<usize> {
    match r {
        Rng::From(n) => (n..).into(),
        Rng::Incl(a, b) => (a..=b).into(),
        Rng::Excl(a, b) => (a..b).into(),
        Rng::To(n) => (..n).into(),
        Rng::ToIncl(n) => (..=n).into(),
        Rng::Exact(n) => n.into(),
        Rng::Full => (..).into(),
        Rng::After(n) => (Bound::Excluded(n), Bound::Unbounded).into(),
        Rng::AfterTo(n, m) => (Bound::Excluded(n), Bound::Included(m)).into(),
    }
}

fn starts_a<C: Hc>(c: &C) -> bool {
    // the rest of the input, whatever the kind of context
    match c.peek() {
        Ok(mut it) => match it.next() {
            Some((_, i)) => C::is_a(&i),
            None => false,
        },
        Err(_) => false,
    }
}

pub fn build<C: Hc>(a: &Ast) -> Bx<C> {
    macro_rules! b {
        ($e:expr) => {
            build::<C>($e)
        };
    }
    macro_rules! ops {
        ($m:ident ( $p:expr $(, $a:expr)* )) => {
            CtorOps::<'static, C>::$m($p $(, $a)*)
        };
    }
    match a {
        Ast::L(l) => C::leaf(l),
        Ast::Pat(a) => Box::new(val(ops!(pat(b!(a))), |v: V| V::T(7, Box::new(v)))),
        Ast::Opt(a) => Box::new(val(ops!(opt(b!(a))), opt)),
        Ast::Map(a) => {
            let p = CtorOps::<'static, C>::try_map::<_, V>(b!(a), |v: V| {
                let rej = MAP_REJECT.with(|m| m.get());
                if rej.is_some() && v.first() == rej {
                    Err(Error::Uid(8))
                } else {
                    Ok(v)
                }
            });
            Box::new(CtorOps::<'static, C>::map::<_, V>(p, |v: V| {
                V::T(1, Box::new(v))
            }))
        }
        Ast::Not(a) => Box::new(regex::not(b!(a))),
        Ast::Peek(a) => Box::new(regex::peek(b!(a))),
        Ast::Ws(k, a) => C::ws(*k, b!(a)),
        Ast::Repeat(r, a) => Box::new(val(ops!(repeat(b!(a), crange(*r))), V::L)),
        Ast::Repeat2(i, a) => {
            let p = b!(a);
            macro_rules! go {
                ($m:literal, $n:literal) => {
                    Box::new(val(CtorOps::<'static, C>::repeat2::<$m, $n>(p), fixed::<$n>))
                };
            }
            match SIZES[*i] {
                (0, 1) => go!(0, 1),
                (1, 1) => go!(1, 1),
                (1, 2) => go!(1, 2),
                (2, 2) => go!(2, 2),
                (0, 2) => go!(0, 2),
                (2, 3) => go!(2, 3),
                (0, 0) => go!(0, 0),
                _ => go!(1, 3),
            }
        }
        Ast::Collect(m, a) => Box::new(val(
            CtorOps::<'static, C>::collect::<V, Vec<V>>(b!(a)).at_least(*m),
            V::L,
        )),
        Ast::Then(x, y) => Box::new(val(ops!(then(b!(x), b!(y))), pair)),
        Ast::Then0(x, y) => Box::new(ops!(then(b!(x), b!(y)))._0::<(V, V)>()),
        Ast::Then1(x, y) => Box::new(ops!(then(b!(x), b!(y)))._1::<(V, V)>()),
        Ast::Or(x, y) => Box::new(ops!(or(b!(x), b!(y)))),
        Ast::Ltm(x, y) => Box::new(ops!(longest(b!(x), b!(y)))),
        Ast::Prefix(x, y) => Box::new(ops!(prefix(b!(x), b!(y)))),
        Ast::Suffix(x, y) => Box::new(ops!(suffix(b!(x), b!(y)))),
        Ast::Sep(s, m, x, y) => Box::new(val(
            ops!(sep(b!(x), b!(y))).with_skip(*s).at_least(*m),
            V::L,
        )),
        Ast::Sep2(s, i, x, y) => {
            let p = b!(x);
            let q = b!(y);
            macro_rules! go {
                ($m:literal, $n:literal) => {
                    Box::new(val(
                        CtorOps::<'static, C>::sep2::<_, $m, $n>(p, q).with_skip(*s),
                        fixed::<$n>,
                    ))
                };
            }
            match SIZES[*i] {
                (0, 1) => go!(0, 1),
                (1, 1) => go!(1, 1),
                (1, 2) => go!(1, 2),
                (2, 2) => go!(2, 2),
                (0, 2) => go!(0, 2),
                (2, 3) => go!(2, 3),
                (0, 0) => go!(0, 0),
                _ => go!(1, 3),
            }
        }
        Ast::SepCollect(s, m, x, y) => Box::new(val(
            CtorOps::<'static, C>::sep_collect::<_, V, Vec<V>>(b!(x), b!(y))
                .with_skip(*s)
                .at_least(*m),
            V::L,
        )),
        Ast::Enclose(x, l, r) => Box::new(ops!(enclose(b!(x), b!(l), b!(r)))),
        Ast::SepOnce(l, s, r) => Box::new(val(ops!(sep_once(b!(l), b!(s), b!(r))), pair)),
        Ast::IfThen(l, t, r) => Box::new(val(ops!(if_then(b!(l), b!(t), b!(r))), pair_opt)),
        Ast::IfElse(t, x, y) => {
            let t = *t;
            let f = move |c: &C| -> Result<bool, Error> {
                match t {
                    Test::True => Ok(true),
                    Test::False => Ok(false),
                    Test::Err => Err(Error::Uid(9)),
                    Test::NextA => Ok(starts_a(c)),
                    Test::Even => Ok(c.offset() % 2 == 0),
                }
            };
            Box::new(CtorOps::<'static, C>::if_else(b!(x), f, b!(y)))
        }
        Ast::Table(t, v) => table::<C>(*t, v.iter().map(|a| b!(a)).collect()),
        Ast::Dyn(x, d) => {
            let d = *d;
            let p = DynamicCtorThenBuilderHelper::<'static, C>::into_ctor_then_builder(
                b!(x),
                move |c: &mut C, v: &V| -> Result<Bx<C>, Error> {
                    let (b, l) = v.first().unwrap_or((c.offset() as u32, 0));
                    built_text(c, d, b as usize, l as usize)
                },
            );
            Box::new(val(NoRegex(p), pair))
        }
        Ast::RxDyn(x, d) => {
            let d = *d;
            Box::new(regex::into_regex_builder(b!(x), move |c: &mut C, s: &Span| -> Result<Bx<C>, Error> {
                built_text(c, d, s.beg(), s.len())
            }))
        }
        Ast::Rec => REC.with(|r| {
            let r = r.borrow();
            let f = r.last().expect("recursive pattern").downcast_ref::<Handle<C>>().expect("same context");
            f()
        }),
        Ast::Fix(k, a) => {
            let body = |h: Handle<C>| -> Bx<C> {
                REC.with(|r| r.borrow_mut().push(Box::new(h)));
                let p = b!(a);
                REC.with(|r| r.borrow_mut().pop());
                p
            };
            match k {
                Fx::Fun => Box::new(rec_parser::<'static, '_, C, V, Hd, _>(|h: RecursiveCtor<'static, C, V, Hd>| {
                    body(Box::new(move || Box::new(h.clone())))
                })),
                Fx::Build => Box::new(
                    <RecParser as RecursiveParser<'static, C>>::build::<V, _, Hd, _>(
                        |h: RecursiveCtor<'static, C, V, Hd>| body(Box::new(move || Box::new(h.clone()))),
                    ),
                ),
                Fx::FunSync => Box::new(rec_parser_sync::<'static, '_, C, V, _, Hd>(
                    |h: RecursiveCtorSync<'static, C, V, Hd>| Ss(body(Box::new(move || Box::new(h.clone())))),
                )),
                Fx::BuildSync => Box::new(
                    <RecParserSync as RecursiveParserSync<'static, C>>::build::<V, _, Hd, _>(
                        |h: RecursiveCtorSync<'static, C, V, Hd>| Ss(body(Box::new(move || Box::new(h.clone())))),
                    ),
                ),
                Fx::BuildWithSync => Box::new(
                    <RecParserSync as RecursiveParserSync<'static, C>>::build_with::<V, _, Hd, _>(
                        |h: RecursiveCtorSync<'static, C, V, Hd>| Ss(body(Box::new(move || Box::new(h.clone())))),
                    ),
                ),
            }
        }
    }
}

/// Gives a reference to the recursive pattern under construction.
type Handle<C> = Box<dyn Fn() -> Bx<C>>;

/// Used by one thread only.
pub struct Ss<P>(pub P);
unsafe impl<P> Send for Ss<P> {}
unsafe impl<P> Sync for Ss<P> {}
impl<C, P: Regex<C>> Regex<C> for Ss<P> {
    fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
        self.0.try_parse(c)
    }
}
impl<C, O, H, P: Ctor<C, O, H>> Ctor<C, O, H> for Ss<P> {
    fn construct(&self, c: &mut C, h: &mut H) -> Result<O, Error> {
        self.0.construct(c, h)
    }
}

/// The dynamic constructor has no matching form (documented).
struct NoRegex<P>(P);
impl<C, P> Regex<C> for NoRegex<P> {
    fn try_parse(&self, _: &mut C) -> Result<Span, Error> {
        Err(Error::Uid(99))
    }
}
impl<C, O, H, P: Ctor<C, O, H>> Ctor<C, O, H> for NoRegex<P> {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<O, Error> {
        self.0.construct(ctx, h)
    }
}

pub fn keyed((v, k): (V, u32)) -> V {
    V::T(k, Box::new(v))
}

pub fn table<C: Hc>(t: Tab, v: Vec<Bx<C>>) -> Bx<C> {
    let kv = |v: Vec<Bx<C>>| -> Vec<(Bx<C>, u32)> {
        v.into_iter().enumerate().map(|(i, p)| (p, 100 + i as u32)).collect()
    };
    macro_rules! arr {
        ($f:path, $v:expr, $wrap:expr) => {{
            let v = $v;
            match v.len() {
                0 => $wrap($f(<[_; 0]>::try_from(v).ok().unwrap())),
                1 => $wrap($f(<[_; 1]>::try_from(v).ok().unwrap())),
                2 => $wrap($f(<[_; 2]>::try_from(v).ok().unwrap())),
                3 => $wrap($f(<[_; 3]>::try_from(v).ok().unwrap())),
                4 => $wrap($f(<[_; 4]>::try_from(v).ok().unwrap())),
                9 => $wrap($f(<[_; 9]>::try_from(v).ok().unwrap())),
                n => {
                    assert_eq!(n, 40, "array tables of this size are not built");
                    $wrap($f(<[_; 40]>::try_from(v).ok().unwrap()))
                }
            }
        }};
    }
    fn bx<C: Hc, P: Ctor<C, V, Hd> + 'static>(p: P) -> Bx<C> {
        Box::new(p)
    }
    fn bxk<C: Hc, P: Ctor<C, (V, u32), Hd> + 'static>(p: P) -> Bx<C> {
        Box::new(val(p, keyed))
    }
    match t {
        Tab::Array => arr!(regex::array, v, bx),
        Tab::ArrayLtm => arr!(regex::array_ltm, v, bx),
        Tab::Vector => bx(regex::vector(v)),
        Tab::VectorLtm => bx(regex::vector_ltm(v)),
        Tab::PairArray => arr!(regex::pair_array, kv(v), bxk),
        Tab::PairArrayLtm => arr!(regex::pair_array_ltm, kv(v), bxk),
        Tab::PairVector => bxk(regex::pair_vector(kv(v))),
        Tab::PairVectorLtm => bxk(regex::pair_vector_ltm(kv(v))),
        Tab::Slice | Tab::SliceLtm => bx(Sl(v, t == Tab::SliceLtm)),
        Tab::PairSlice | Tab::PairSliceLtm => bxk(PSl(kv(v), t == Tab::PairSliceLtm)),
    }
}

/// Slices borrow their entries; this owner lends them for each use.
struct Sl<C>(Vec<Bx<C>>, bool);
impl<C> Sl<C> {
    fn get(&self) -> neure::ctor::Slice<'_, Bx<C>> {
        if self.1 {
            regex::slice_ltm(&self.0)
        } else {
            regex::slice(&self.0)
        }
    }
}
impl<C: Hc> Regex<C> for Sl<C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.get().try_parse(ctx)
    }
}
impl<C: Hc> Ctor<C, V, Hd> for Sl<C> {
    fn construct(&self, ctx: &mut C, h: &mut Hd) -> Result<V, Error> {
        self.get().construct(ctx, h)
    }
}
struct PSl<C>(Vec<(Bx<C>, u32)>, bool);
impl<C> PSl<C> {
    fn get(&self) -> neure::ctor::PairSlice<'_, Bx<C>, u32> {
        if self.1 {
            regex::pair_slice_ltm(&self.0)
        } else {
            regex::pair_slice(&self.0)
        }
    }
}
impl<C: Hc> Regex<C> for PSl<C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.get().try_parse(ctx)
    }
}
impl<C: Hc> Ctor<C, (V, u32), Hd> for PSl<C> {
    fn construct(&self, ctx: &mut C, h: &mut Hd) -> Result<(V, u32), Error> {
        self.get().construct(ctx, h)
    }
}

/// The second part of a pattern built at run time.
fn built_text<C: Hc>(c: &C, d: DynFn, b: usize, l: usize) -> Result<Bx<C>, Error> {
    let text = C::bytes_of(c, b, l)?;
    let t = match d {
        DynFn::Same => text,
        DynFn::CountB => vec![b'b'; text.len()],
        DynFn::FailOnB => {
            if text == b"b" {
                return Err(Error::Uid(10));
            }
            vec![]
        }
    };
    Ok(C::text(t))
}
