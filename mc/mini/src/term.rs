//! Small pattern terms, built without anything of the library that needs an
//! allocator, so that they exist in every configuration.

use neure::ctor::{Ctor, CtorOps, DynamicCtorThenBuilderHelper, Handler};
use neure::ctx::{BytesCtx, CharsCtx, Context, Match, MatchExt, MatchMulti, PolicyCtx};
use neure::err::Error;
use neure::neu::{self, CRange, Condition, EmptyCond, NeuOp};
use neure::regex::{self, DynamicRegexBuilderHelper, Regex};
use neure::span::Span;
use std::marker::PhantomData;
use std::rc::Rc;

pub type Cs = CharsCtx<'static>;
pub type Bs = BytesCtx<'static>;
pub type Pol = fn(&mut Cs) -> Result<Span, Error>;
pub type Pc = PolicyCtx<Cs, Pol>;

#[derive(Clone, PartialEq, Debug, Hash)]
pub enum V {
    S(usize, usize),
    P(Box<V>, Box<V>),
    O(Option<Box<V>>),
    L(Vec<V>),
    F(Vec<Option<V>>),
    T(u8, Box<V>),
}

#[derive(Default)]
pub struct Hd(pub Vec<(usize, usize)>);
impl<C> Handler<C> for Hd {
    type Out = V;
    type Error = Error;
    fn invoke(&mut self, _: &C, s: &Span) -> Result<V, Error> {
        self.0.push((s.beg(), s.len()));
        if s.len() == 3 { Err(Error::Uid(3)) } else { Ok(V::S(s.beg(), s.len())) }
    }
}

pub trait Node<C> {
    fn rx(&self, c: &mut C) -> Result<Span, Error>;
    fn ct(&self, c: &mut C, h: &mut Hd) -> Result<V, Error>;
}

/// A pattern of any kind.
pub struct Bx<C>(Rc<dyn Node<C>>);
impl<C> Clone for Bx<C> {
    fn clone(&self) -> Self {
        Bx(self.0.clone())
    }
}
impl<C> Regex<C> for Bx<C> {
    fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
        self.0.rx(c)
    }
}
impl<C> Ctor<C, V, Hd> for Bx<C> {
    fn construct(&self, c: &mut C, h: &mut Hd) -> Result<V, Error> {
        self.0.ct(c, h)
    }
}

struct W<P, F, O>(P, F, PhantomData<fn() -> O>);
impl<C, O, P: Ctor<C, O, Hd>, F: Fn(O) -> V> Node<C> for W<P, F, O> {
    fn rx(&self, c: &mut C) -> Result<Span, Error> {
        self.0.try_parse(c)
    }
    fn ct(&self, c: &mut C, h: &mut Hd) -> Result<V, Error> {
        self.0.construct(c, h).map(&self.1)
    }
}
/// Matching only: constructing is left out.
struct M<P>(P);
impl<C, P: Regex<C>> Node<C> for M<P> {
    fn rx(&self, c: &mut C) -> Result<Span, Error> {
        self.0.try_parse(c)
    }
    fn ct(&self, _: &mut C, _: &mut Hd) -> Result<V, Error> {
        Err(Error::Uid(98))
    }
}
/// Constructing only: matching is left out.
struct K<P, F, O>(P, F, PhantomData<fn() -> O>);
impl<C, O, P: Ctor<C, O, Hd>, F: Fn(O) -> V> Node<C> for K<P, F, O> {
    fn rx(&self, _: &mut C) -> Result<Span, Error> {
        Err(Error::Uid(99))
    }
    fn ct(&self, c: &mut C, h: &mut Hd) -> Result<V, Error> {
        self.0.construct(c, h).map(&self.1)
    }
}

fn w<C: 'static, O: 'static, P: Ctor<C, O, Hd> + 'static>(p: P, f: impl Fn(O) -> V + 'static) -> Bx<C> {
    Bx(Rc::new(W(p, f, PhantomData)))
}
fn wv<C: 'static, P: Ctor<C, V, Hd> + 'static>(p: P) -> Bx<C> {
    w(p, |v: V| v)
}
fn m<C: 'static, P: Regex<C> + 'static>(p: P) -> Bx<C> {
    Bx(Rc::new(M(p)))
}
fn k<C: 'static, O: 'static, P: Ctor<C, O, Hd> + 'static>(p: P, f: impl Fn(O) -> V + 'static) -> Bx<C> {
    Bx(Rc::new(K(p, f, PhantomData)))
}

fn pair((a, b): (V, V)) -> V {
    V::P(Box::new(a), Box::new(b))
}
fn opt(v: Option<V>) -> V {
    V::O(v.map(Box::new))
}
fn pair_opt((a, b): (V, Option<V>)) -> V {
    V::P(Box::new(a), Box::new(opt(b)))
}
fn fixed<const N: usize>(v: [Option<V>; N]) -> V {
    V::F(v.into())
}
fn tag(t: u8) -> impl Fn(V) -> V {
    move |v| V::T(t, Box::new(v))
}

pub trait Hc: Context<'static> + Match<'static> + MatchExt<'static> + MatchMulti<'static> + Clone + Sized + 'static {
    const NAME: &'static str;
    fn mk(s: &'static str) -> Self;
    fn leaf(i: usize) -> Bx<Self>;
    fn lits(i: usize) -> Bx<Self>;
}

pub const LEAVES: usize = 24;

fn skip(c: &mut Cs) -> Result<Span, Error> {
    regex::many0(neu::whitespace()).try_parse(c)
}

macro_rules! hc {
    ($t:ty, $name:literal, $mk:expr, $lit:expr, $c:expr, $ws:expr) => {
        impl Hc for $t {
            const NAME: &'static str = $name;
            fn mk(s: &'static str) -> Self {
                let f: fn(&'static str) -> Self = $mk;
                f(s)
            }
            fn lits(i: usize) -> Bx<Self> {
                wv($lit(["a", "b", "ab", "", "é"][i]))
            }
            fn leaf(i: usize) -> Bx<Self> {
                let (a, b) = ($c('a'), $c('b'));
                match i {
                    0..5 => Self::lits(i),
                    5 => wv(regex::once::<Self, _>(a)),
                    6 => wv(regex::opt::<Self, _>(b)),
                    7 => wv(regex::many0::<Self, _>(a)),
                    8 => wv(regex::many1::<Self, _>(neu::or(a, b))),
                    9 => wv(regex::count::<1, 2, Self, _>(neu::not(b))),
                    10 => wv(neu::Times::<Self, _, _>::new(neu::always(), CRange::from(2..), EmptyCond)),
                    11 => wv(regex::start()),
                    12 => wv(regex::end()),
                    13 => wv(regex::empty()),
                    14 => wv(regex::fail()),
                    15 => wv(regex::consume_all()),
                    16 => wv(regex::consume(1)),
                    17 => wv(CtorOps::<'static, Self>::pat(())),
                    18 => wv(regex::many1::<Self, _>(neu::range(a..=b))),
                    19 => wv(regex::many1::<Self, _>([a, b])),
                    20 => wv(regex::many0::<Self, _>(NeuOp::<_>::and(neu::not(a), neu::not($c(' '))))),
                    21 => wv(regex::many1::<Self, _>($ws)),
                    22 => wv(regex::many1::<Self, _>(neu::always()).set_cond(|c: &Self, at: &(usize, _)| Ok((c.offset() + at.0) % 3 != 2))),
                    _ => wv(regex::once::<Self, _>(neu::never())),
                }
            }
        }
    };
}

hc!(Cs, "text", |s| CharsCtx::new(s), |s: &'static str| s, |c: char| c, neu::whitespace());
hc!(Bs, "bytes", |s| BytesCtx::new(s.as_bytes()), |s: &'static str| s.as_bytes(), |c: char| c as u8, neu::ascii_whitespace());
hc!(Pc, "text+skip", |s| CharsCtx::new(s).skip_before(skip as Pol), |s: &'static str| s, |c: char| c, neu::whitespace());

/// Operators of one, two and three patterns.
pub const ONE: usize = 16;
pub const TWO: usize = 24;
pub const THREE: usize = 5;

#[derive(Clone, Debug)]
pub enum T {
    L(usize),
    A(usize, Box<T>),
    B(usize, Box<T>, Box<T>),
    C(usize, Box<T>, Box<T>, Box<T>),
}

pub fn build<C: Hc>(t: &T) -> Bx<C> {
    type Ops<C> = Bx<C>;
    macro_rules! o {
        ($m:ident $(::<$($g:ty),*>)? ($p:expr $(, $a:expr)*)) => {
            <Ops<C> as CtorOps<'static, C>>::$m $(::<$($g),*>)? ($p $(, $a)*)
        };
    }
    match t {
        T::L(i) => C::leaf(*i),
        T::A(i, a) => {
            let a = build::<C>(a);
            match i {
                0 => w(o!(opt(a)), opt),
                1 => w(o!(pat(a)), tag(1)),
                2 => wv(CtorOps::<'static, C>::map::<_, V>(a, tag(2))),
                3 => wv(CtorOps::<'static, C>::try_map::<_, V>(a, |v: V| if matches!(v, V::S(_, 1)) { Err(Error::Uid(4)) } else { Ok(v) })),
                4 => wv(regex::not(a)),
                5 => wv(regex::peek(a)),
                6 => w(CtorOps::<'static, C>::repeat2::<1, 2>(a), fixed),
                7 => w(CtorOps::<'static, C>::repeat2::<0, 3>(a), fixed),
                8 => w(CtorOps::<'static, C>::repeat2::<2, 2>(a), fixed),
                9 => w(CtorOps::<'static, C>::collect::<V, Vec<V>>(guard(a)), V::L),
                10 => w(CtorOps::<'static, C>::collect::<V, Vec<V>>(guard(a)).at_least(2), V::L),
                11 => wv(regex::array([a])),
                12 => m(DynamicRegexBuilderHelper::<'static, C>::into_regex_builder(a, |_: &mut C, s: &Span| {
                    let n = s.len();
                    if n > 2 { Err(Error::Uid(5)) } else { Ok(regex::consume(n)) }
                })),
                13 => k(
                    DynamicCtorThenBuilderHelper::<'static, C>::into_ctor_then_builder(a, |_: &mut C, v: &V| {
                        Ok(C::lits(if matches!(v, V::S(_, 1)) { 0 } else { 1 }))
                    }),
                    pair,
                ),
                14 => wv(std::cell::RefCell::new(a)),
                _ => w(regex::pair_array([(a, 7u8)]), |(v, k): (V, u8)| V::T(k, Box::new(v))),
            }
        }
        T::B(i, a, b) => {
            let (a, b) = (build::<C>(a), build::<C>(b));
            let kv = |(v, k): (V, u8)| V::T(k, Box::new(v));
            match i {
                0 => w(o!(then(a, b)), pair),
                1 => wv(CtorOps::<'static, C>::then(a, b)._0::<(V, V)>()),
                2 => wv(CtorOps::<'static, C>::then(a, b)._1::<(V, V)>()),
                3 => wv(o!(or(a, b))),
                4 => wv(o!(longest(a, b))),
                5 => wv(o!(prefix(a, b))),
                6 => wv(o!(suffix(a, b))),
                7 => w(CtorOps::<'static, C>::sep2::<_, 1, 2>(a, b), fixed),
                8 => w(CtorOps::<'static, C>::sep2::<_, 0, 2>(a, b).with_skip(false), fixed),
                9 => w(CtorOps::<'static, C>::sep2::<_, 2, 3>(a, b).with_skip(true), fixed),
                10 => w(CtorOps::<'static, C>::sep_collect::<_, V, Vec<V>>(guard(a), b), V::L),
                11 => w(CtorOps::<'static, C>::sep_collect::<_, V, Vec<V>>(guard(a), b).with_skip(false).at_least(2), V::L),
                12 => wv(regex::array([a, b])),
                13 => wv(regex::array_ltm([a, b])),
                14 => w(regex::pair_array([(a, 1u8), (b, 2)]), kv),
                15 => w(regex::pair_array_ltm([(a, 1u8), (b, 2)]), kv),
                16 => wv(regex::slice(&*vec![a, b].leak())),
                17 => wv(regex::slice_ltm(&*vec![a, b].leak())),
                18 => w(regex::pair_slice(&*vec![(a, 1u8), (b, 2)].leak()), kv),
                19 => w(regex::pair_slice_ltm(&*vec![(a, 1u8), (b, 2)].leak()), kv),
                20 => wv(CtorOps::<'static, C>::if_else(a, |c: &C| Ok(c.offset() % 2 == 0), b)),
                21 => wv(CtorOps::<'static, C>::if_else(a, |_: &C| Err(Error::Uid(6)), b)),
                22 => w(CtorOps::<'static, C>::then(o!(opt(a)), b), |(x, y): (Option<V>, V)| pair((opt(x), y))),
                _ => w(CtorOps::<'static, C>::then(regex::not(a), b), pair),
            }
        }
        T::C(i, a, b, d) => {
            let (a, b, d) = (build::<C>(a), build::<C>(b), build::<C>(d));
            match i {
                0 => wv(o!(enclose(a, b, d))),
                1 => w(o!(sep_once(a, b, d)), pair),
                2 => w(o!(if_then(a, b, d)), pair_opt),
                3 => wv(CtorOps::<'static, C>::or(CtorOps::<'static, C>::or(a, b), d)),
                _ => wv(CtorOps::<'static, C>::longest(a, CtorOps::<'static, C>::longest(b, d))),
            }
        }
    }
}

/// Unbounded repetition of a pattern that may match nothing would not end: such
/// an element fails instead.
fn guard<C: Hc>(p: Bx<C>) -> Bx<C> {
    struct G<C>(Bx<C>);
    impl<C: Hc> Node<C> for G<C> {
        fn rx(&self, c: &mut C) -> Result<Span, Error> {
            let o = c.offset();
            let r = self.0.try_parse(c)?;
            if c.offset() == o {
                return Err(Error::Uid(8));
            }
            Ok(r)
        }
        fn ct(&self, c: &mut C, h: &mut Hd) -> Result<V, Error> {
            let o = c.offset();
            let r = self.0.construct(c, h)?;
            if c.offset() == o {
                return Err(Error::Uid(8));
            }
            Ok(r)
        }
    }
    Bx(Rc::new(G(p)))
}

#[cfg(feature = "alloc")]
pub mod more {
    //! What an allocator adds.
    use super::*;
    use neure::ctor::Adapter;
    use std::sync::Arc;

    pub const ONE: usize = 11;
    pub const TWO: usize = 7;

    pub fn one<C: Hc>(i: usize, a: Bx<C>) -> Bx<C> {
        match i {
            0 => w(CtorOps::<'static, C>::repeat(a, 1..3), V::L),
            1 => w(CtorOps::<'static, C>::repeat(a, ..=2), V::L),
            2 => w(CtorOps::<'static, C>::repeat(guard(a), 1..), V::L),
            3 => wv(regex::vector([a])),
            4 => wv(regex::vector(Vec::<Bx<C>>::new())),
            5 => wv(Arc::new(a)),
            6 => wv(Rc::new(a)),
            7 => k(Adapter::<C, Box<dyn Ctor<C, V, Hd>>>::dyn_box(a), |v: V| v),
            8 => k(Adapter::<C, Rc<dyn Ctor<C, V, Hd>>>::dyn_rc(a), |v: V| v),
            9 => m(Box::new(a) as Box<dyn Regex<C>>),
            _ => {
                let a = guard(a);
                k(
                    regex::rec_parser::<'static, '_, C, V, Hd, _>(move |h| {
                        let a = a.clone();
                        CtorOps::<'static, C>::map::<_, (V, Option<V>)>(
                            CtorOps::<'static, C>::then(a, CtorOps::<'static, C>::opt(h)),
                            pair_opt,
                        )
                    }),
                    |v: V| v,
                )
            }
        }
    }

    pub fn two<C: Hc>(i: usize, a: Bx<C>, b: Bx<C>) -> Bx<C> {
        let kv = |(v, k): (V, u8)| V::T(k, Box::new(v));
        match i {
            0 => w(CtorOps::<'static, C>::sep(guard(a), b), V::L),
            1 => w(CtorOps::<'static, C>::sep(guard(a), b).with_skip(false).at_least(2), V::L),
            2 => w(CtorOps::<'static, C>::sep(guard(a), b).with_skip(false).at_least(0), V::L),
            3 => wv(regex::vector([a, b])),
            4 => wv(regex::vector_ltm([a, b])),
            5 => w(regex::pair_vector([(a, 1u8), (b, 2)]), kv),
            _ => w(regex::pair_vector_ltm([(a, 1u8), (b, 2)]), kv),
        }
    }
}

#[cfg(feature = "std")]
pub mod most {
    //! What the standard library adds.
    use super::*;
    use std::sync::{Mutex, OnceLock};

    pub const ONE: usize = 3;

    pub fn one<C: Hc>(i: usize, a: Bx<C>) -> Bx<C> {
        match i {
            0 => wv(Mutex::new(a)),
            1 => wv(OnceLock::from(a)),
            _ => wv(OnceLock::<Bx<C>>::new()),
        }
    }
}
