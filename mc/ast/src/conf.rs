//! P30 (and the copies of P29): every configurable pattern kind, with its
//! setters, its getters and what it should do under a configuration.

use mc_ast::build::{Cs, Hd, crange};
use mc_ast::enumerate::{inputs, l};
use mc_ast::families::lit;
use mc_ast::model::{Fault, Model, Skip};
use mc_ast::*;
use mc_core::{Local, Rep, guarded, hash64, set_budget, step};
use neure::ctor::{self, Ctor, CtorOps, DynamicCtorThenBuilder, Handler};
use neure::ctx::{Context, Match, MatchExt};
use neure::err::Error;
use neure::map::FallibleMap;
use neure::neu::{self, CRange, Condition, Neu, NeuCond, NeuIntoRegexOps};
use neure::regex::{self, Regex};
use neure::span::Span;
use std::ops::RangeBounds;

/// What one use gives: the value (a range when only matching) and the position.
pub type Out = (Option<V>, usize);

/// A replaceable inner pattern.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Sl(pub usize);

impl Regex<Cs> for Sl {
    fn try_parse(&self, c: &mut Cs) -> Result<Span, Error> {
        step();
        match self.0 {
            0 => c.try_mat(&"a"),
            1 => c.try_mat(&"b"),
            2 => c.try_mat(&"ab"),
            _ => c.try_mat(&regex::opt::<Cs, _>('b')),
        }
    }
}
impl Ctor<Cs, V, Hd> for Sl {
    fn construct(&self, c: &mut Cs, h: &mut Hd) -> Result<V, Error> {
        let s = c.try_mat(self)?;
        Handler::<Cs>::invoke(h, c, &s)
    }
}
fn sl(i: usize) -> A {
    match i {
        0 => lit("a"),
        1 => lit("b"),
        2 => lit("ab"),
        _ => l(Leaf::Opt(U::Ch('b'))),
    }
}

/// A replaceable unit.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Un(pub usize);

fn un(i: usize, c: char) -> bool {
    match i {
        0 => c == 'a',
        1 => c == 'b',
        2 => c == 'a' || c == 'b',
        _ => c != 'a',
    }
}
impl Neu<char> for Un {
    fn is_match(&self, c: &char) -> bool {
        step();
        un(self.0, *c)
    }
}

/// A replaceable condition.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cd(pub usize);

fn cd(i: usize, at: usize, c: char) -> bool {
    match i {
        0 => true,
        1 => at < 1,
        _ => c == 'a',
    }
}
impl NeuCond<'static, Cs> for Cd {
    fn check(&self, c: &Cs, item: &(usize, char)) -> Result<bool, Error> {
        Ok(cd(self.0, c.offset() + item.0, item.1))
    }
}

/// A replaceable mapper.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Mp(pub usize);

impl FallibleMap<V, V> for Mp {
    fn try_map(&self, v: V) -> Result<V, Error> {
        match self.0 {
            0 => Ok(v),
            2 => Err(Error::Uid(3)),
            n => Ok(V::T(n as u32, Box::new(v))),
        }
    }
}

type Ts = fn(&Cs) -> Result<bool, Error>;
const TESTS: [Ts; 3] = [|_| Ok(true), |_| Ok(false), |c| Ok(c.offset() % 2 == 0)];
const TESTS_AST: [Test; 3] = [Test::True, Test::False, Test::Even];
fn test_id(t: Ts) -> usize {
    let mut c = Cs::new("ab");
    let a = t(&c);
    c.set_offset(1);
    match (a, t(&c)) {
        (Ok(true), Ok(true)) => 0,
        (Ok(false), Ok(false)) => 1,
        (Ok(true), Ok(false)) => 2,
        _ => NA - 1,
    }
}

type Dy = fn(&mut Cs, &V) -> Result<Sl, Error>;
const DYNS: [Dy; 3] = [|_, _| Ok(Sl(0)), |_, _| Ok(Sl(1)), |_, v| Ok(Sl(if v.first().is_some_and(|s| s.1 == 2) { 0 } else { 1 }))];

/// Not set, or cannot be read.
pub const NA: usize = usize::MAX;

pub struct Op<T> {
    pub name: &'static str,
    pub dim: usize,
    pub vals: &'static [usize],
    pub f: fn(T, usize) -> T,
}

pub struct Spec<T> {
    pub name: &'static str,
    pub inits: Vec<Vec<usize>>,
    pub mk: fn(&[usize]) -> T,
    pub ops: Vec<Op<T>>,
    pub read: fn(&T) -> Vec<usize>,
    pub run: fn(&T, &'static str, bool) -> Result<Out, String>,
    pub want: fn(&[usize], &'static str, bool) -> Out,
    /// a use changes it (documented): built anew for every input
    pub once: bool,
}

/// Uses a pattern once.
fn go<T, O>(t: &T, s: &'static str, ct: bool, conv: impl Fn(O) -> V) -> Result<Out, String>
where
    T: Ctor<Cs, O, Hd>,
{
    guarded(|| {
        let mut c = Cs::new(s);
        set_budget(100_000);
        let r = if ct {
            c.ctor_handler(t, Hd::default()).ok().map(conv)
        } else {
            c.try_mat(t).ok().map(|s| V::S(s.beg() as u32, s.len() as u32))
        };
        (r, c.offset())
    })
}

fn model(a: Ast, s: &'static str, ct: bool) -> Out {
    let m = Model::new(s, true, Skip::None, Fault::default());
    if ct {
        match m.ct(&a, 0, &mut vec![]) {
            Some((v, e)) => (Some(v), e),
            None => (None, 0),
        }
    } else {
        match m.rx(&a, 0) {
            Some(e) => (Some(V::S(0, e as u32)), e),
            None => (None, 0),
        }
    }
}

/// A run of one unit under a condition.
fn run_want(u: usize, c: usize, lo: usize, hi: usize, s: &str) -> Out {
    let mut n = 0;
    let mut e = 0;
    for (i, ch) in s.char_indices() {
        if n == hi || !un(u, ch) || !cd(c, i, ch) {
            break;
        }
        n += 1;
        e = i + ch.len_utf8();
    }
    if n >= lo { (Some(V::S(0, e as u32)), e) } else { (None, 0) }
}

fn pair((a, b): (V, V)) -> V {
    V::P(Box::new(a), Box::new(b))
}
fn pair_opt((a, b): (V, Option<V>)) -> V {
    V::P(Box::new(a), Box::new(V::O(b.map(Box::new))))
}
fn keyed((v, k): (V, u32)) -> V {
    V::T(k, Box::new(v))
}
fn same(v: V) -> V {
    v
}

macro_rules! op {
    ($name:literal, $dim:expr, $vals:expr, |$t:ident, $v:ident| $e:expr) => {
        Op {
            name: $name,
            dim: $dim,
            vals: &$vals,
            f: |$t, $v| $e,
        }
    };
    // through a mutable reference
    ($name:literal, $dim:expr, $vals:expr, mut |$t:ident, $v:ident| $e:expr) => {
        Op {
            name: $name,
            dim: $dim,
            vals: &$vals,
            f: |mut $t, $v| {
                $e;
                $t
            },
        }
    };
}

const RNG: [Rng; 4] = [Rng::From(1), Rng::Incl(0, 1), Rng::Excl(2, 3), Rng::Incl(1, 2)];
fn rng_id(r: &CRange<usize>) -> usize {
    let b = |r: &CRange<usize>| format!("{:?} {:?}", r.start_bound(), r.end_bound());
    RNG.iter().position(|x| b(&crange(*x)) == b(r)).unwrap_or(NA - 1)
}
const TIMES: [(usize, usize); 3] = [(1, 2), (0, 1), (2, 3)];
fn times_rng(i: usize) -> CRange<usize> {
    (TIMES[i].0..=TIMES[i].1).into()
}
fn times_id(r: &CRange<usize>) -> usize {
    let b = |r: &CRange<usize>| format!("{:?} {:?}", r.start_bound(), r.end_bound());
    (0..3).find(|i| b(&times_rng(*i)) == b(r)).unwrap_or(NA - 1)
}

/// One visit of every kind; the visitor is generic over the pattern type.
pub trait Visit {
    fn kind<T: Clone + 'static>(&self, s: Spec<T>);
}

const P3: [usize; 3] = [0, 1, 2];
const P4: [usize; 4] = [0, 1, 2, 3];

#[allow(clippy::too_many_lines)]
pub fn kinds(v: &impl Visit) {

    fn two() -> Vec<Vec<usize>> {
        vec![vec![0, 1], vec![2, 3]]
    }
    fn three() -> Vec<Vec<usize>> {
        vec![vec![0, 1, 2], vec![2, 3, 1]]
    }
    macro_rules! pairs {
        ($name:literal, $mk:expr, $a:ident / $am:ident / $aset:ident, $b:ident / $bm:ident / $bset:ident, $conv:expr, $ast:expr) => {
            v.kind(Spec {
                name: $name,
                inits: two(),
                mk: |c| {
                    let f = $mk;
                    f(Sl(c[0]), Sl(c[1]))
                },
                ops: vec![
                    op!("set first", 0, P4, mut |t, v| { t.$aset(Sl(v)); }),
                    op!("first mut", 0, P4, mut |t, v| *t.$am() = Sl(v)),
                    op!("set second", 1, P4, mut |t, v| { t.$bset(Sl(v)); }),
                    op!("second mut", 1, P4, mut |t, v| *t.$bm() = Sl(v)),
                ],
                read: |t| vec![t.$a().0, t.$b().0],
                run: |t, s, ct| go(t, s, ct, $conv),
                want: |c, s, ct| {
                    let f: fn(A, A) -> Ast = $ast;
                    model(f(sl(c[0]), sl(c[1])), s, ct)
                },
                once: false,
            });
        };
    }
    pairs!("Then", |a, b| ctor::Then::<Cs, Sl, Sl>::new(a, b), left / left_mut / set_left, right / right_mut / set_right, pair, Ast::Then);
    pairs!("then", |a, b| CtorOps::<'static, Cs>::then(a, b), left / left_mut / set_left, right / right_mut / set_right, pair, Ast::Then);
    pairs!("Or", |a, b| ctor::Or::<Cs, Sl, Sl>::new(a, b), left / left_mut / set_left, right / right_mut / set_right, same, Ast::Or);
    pairs!("or", |a, b| CtorOps::<'static, Cs>::or(a, b), left / left_mut / set_left, right / right_mut / set_right, same, Ast::Or);
    pairs!("LongestTokenMatch", |a, b| ctor::LongestTokenMatch::<Cs, Sl, Sl>::new(a, b), left / left_mut / set_left, right / right_mut / set_right, same, Ast::Ltm);
    pairs!("longest", |a, b| CtorOps::<'static, Cs>::longest(a, b), left / left_mut / set_left, right / right_mut / set_right, same, Ast::Ltm);
    pairs!("prefix", |a, b| CtorOps::<'static, Cs>::prefix(a, b), pat / pat_mut / set_pat, prefix / prefix_mut / set_prefix, same, Ast::Prefix);
    pairs!("suffix", |a, b| CtorOps::<'static, Cs>::suffix(a, b), pat / pat_mut / set_pat, suffix / suffix_mut / set_suffix, same, Ast::Suffix);
    macro_rules! triples {
        ($name:literal, $mk:expr, $a:ident / $am:ident / $aset:ident, $b:ident / $bm:ident / $bset:ident, $c:ident / $cm:ident / $cset:ident, $conv:expr, $ast:expr) => {
            v.kind(Spec {
                name: $name,
                inits: three(),
                mk: |c| {
                    let f = $mk;
                    f(Sl(c[0]), Sl(c[1]), Sl(c[2]))
                },
                ops: vec![
                    op!("set first", 0, P3, mut |t, v| { t.$aset(Sl(v)); }),
                    op!("first mut", 0, P4, mut |t, v| *t.$am() = Sl(v)),
                    op!("set second", 1, P3, mut |t, v| { t.$bset(Sl(v)); }),
                    op!("second mut", 1, P4, mut |t, v| *t.$bm() = Sl(v)),
                    op!("set third", 2, P3, mut |t, v| { t.$cset(Sl(v)); }),
                    op!("third mut", 2, P4, mut |t, v| *t.$cm() = Sl(v)),
                ],
                read: |t| vec![t.$a().0, t.$b().0, t.$c().0],
                run: |t, s, ct| go(t, s, ct, $conv),
                want: |c, s, ct| {
                    let f: fn(A, A, A) -> Ast = $ast;
                    model(f(sl(c[0]), sl(c[1]), sl(c[2])), s, ct)
                },
                once: false,
            });
        };
    }
    triples!("enclose", |a, b, c| CtorOps::<'static, Cs>::enclose(a, b, c), pat / pat_mut / set_pat, open / open_mut / set_open, close / close_mut / set_close, same, Ast::Enclose);
    triples!("sep_once", |a, b, c| CtorOps::<'static, Cs>::sep_once(a, b, c), left / left_mut / set_left, sep / sep_mut / set_sep, right / right_mut / set_right, pair, Ast::SepOnce);
    triples!("if_then", |a, b, c| CtorOps::<'static, Cs>::if_then(a, b, c), left / left_mut / set_left, test / test_mut / set_test, right / right_mut / set_right, pair_opt, Ast::IfThen);
    v.kind(Spec {
        name: "if_else",
        inits: vec![vec![0, 0, 1], vec![2, 1, 3]],
        mk: |c| CtorOps::<'static, Cs>::if_else(Sl(c[0]), TESTS[c[1]], Sl(c[2])),
        ops: vec![
            op!("set_pat", 0, P4, mut |t, v| { t.set_pat(Sl(v)); }),
            op!("pat_mut", 0, P3, mut |t, v| *t.pat_mut() = Sl(v)),
            op!("set_test", 1, P3, mut |t, v| { t.set_test(TESTS[v]); }),
            op!("test_mut", 1, P3, mut |t, v| *t.test_mut() = TESTS[v]),
            op!("set_other", 2, P4, mut |t, v| { t.set_other(Sl(v)); }),
            op!("other_mut", 2, P3, mut |t, v| *t.other_mut() = Sl(v)),
        ],
        read: |t| vec![t.pat().0, test_id(*t.test()), t.other().0],
        run: |t, s, ct| go(t, s, ct, same),
        want: |c, s, ct| model(Ast::IfElse(TESTS_AST[c[1]], sl(c[0]), sl(c[2])), s, ct),
        once: false,
    });
    v.kind(Spec {
        name: "sep",
        // defaults: skip a trailing separator, at least one element
        inits: vec![vec![0, 1, 1, 1, NA]],
        mk: |c| CtorOps::<'static, Cs>::sep(Sl(c[0]), Sl(c[1])),
        ops: vec![
            op!("set_pat", 0, P3, mut |t, v| { t.set_pat(Sl(v)); }),
            op!("pat_mut", 0, [1], mut |t, v| *t.pat_mut() = Sl(v)),
            op!("set_sep", 1, P4, mut |t, v| { t.set_sep(Sl(v)); }),
            op!("sep_mut", 1, [0], mut |t, v| *t.sep_mut() = Sl(v)),
            op!("set_skip", 2, [0, 1], mut |t, v| { t.set_skip(v == 1); }),
            op!("with_skip", 2, [0, 1], |t, v| t.with_skip(v == 1)),
            op!("set_min", 3, [0, 2], mut |t, v| { t.set_min(v); }),
            op!("at_least", 3, [0, 3], |t, v| t.at_least(v)),
            op!("set_capacity", 4, [0, 5], mut |t, v| { t.set_capacity(v); }),
            op!("with_capacity", 4, [0, 9], |t, v| t.with_capacity(v)),
        ],
        read: |t| vec![t.pat().0, t.sep().0, t.skip() as usize, t.min(), t.capacity()],
        run: |t, s, ct| go(t, s, ct, V::L),
        want: |c, s, ct| model(Ast::Sep(c[2] == 1, c[3], sl(c[0]), sl(c[1])), s, ct),
        once: false,
    });
    v.kind(Spec {
        name: "sep_collect",
        inits: vec![vec![0, 1, 1, 1]],
        mk: |c| CtorOps::<'static, Cs>::sep_collect::<_, V, Vec<V>>(Sl(c[0]), Sl(c[1])),
        ops: vec![
            op!("set_pat", 0, P3, mut |t, v| { t.set_pat(Sl(v)); }),
            op!("pat_mut", 0, [1], mut |t, v| *t.pat_mut() = Sl(v)),
            op!("set_sep", 1, P4, mut |t, v| { t.set_sep(Sl(v)); }),
            op!("sep_mut", 1, [0], mut |t, v| *t.sep_mut() = Sl(v)),
            op!("set_skip", 2, [0, 1], mut |t, v| { t.set_skip(v == 1); }),
            op!("with_skip", 2, [0, 1], |t, v| t.with_skip(v == 1)),
            op!("set_min", 3, [0, 2], mut |t, v| { t.set_min(v); }),
            op!("at_least", 3, [0, 3], |t, v| t.at_least(v)),
        ],
        read: |t| vec![t.pat().0, t.sep().0, t.skip() as usize, t.min()],
        run: |t, s, ct| go(t, s, ct, V::L),
        want: |c, s, ct| model(Ast::SepCollect(c[2] == 1, c[3], sl(c[0]), sl(c[1])), s, ct),
        once: false,
    });
    macro_rules! sep2 {
        ($name:literal, $m:literal, $n:literal) => {
            v.kind(Spec {
                name: $name,
                inits: vec![vec![0, 1, 1]],
                mk: |c| CtorOps::<'static, Cs>::sep2::<_, $m, $n>(Sl(c[0]), Sl(c[1])),
                ops: vec![
                    op!("set_pat", 0, P4, mut |t, v| { t.set_pat(Sl(v)); }),
                    op!("pat_mut", 0, [1], mut |t, v| *t.pat_mut() = Sl(v)),
                    op!("set_sep", 1, P4, mut |t, v| { t.set_sep(Sl(v)); }),
                    op!("sep_mut", 1, [0], mut |t, v| *t.sep_mut() = Sl(v)),
                    op!("set_skip", 2, [0, 1], mut |t, v| { t.set_skip(v == 1); }),
                    op!("with_skip", 2, [0, 1], |t, v| t.with_skip(v == 1)),
                ],
                read: |t| vec![t.pat().0, t.sep().0, t.skip() as usize],
                run: |t, s, ct| go(t, s, ct, |a: [Option<V>; $n]| V::F(a.into())),
                want: |c, s, ct| {
                    let i = SIZES.iter().position(|x| *x == ($m, $n)).unwrap();
                    model(Ast::Sep2(c[2] == 1, i, sl(c[0]), sl(c[1])), s, ct)
                },
                once: false,
            });
        };
    }
    sep2!("sep2<1,2>", 1, 2);
    sep2!("sep2<0,2>", 0, 2);
    sep2!("sep2<2,3>", 2, 3);
    macro_rules! rep2 {
        ($name:literal, $m:literal, $n:literal) => {
            v.kind(Spec {
                name: $name,
                inits: vec![vec![0], vec![2]],
                mk: |c| CtorOps::<'static, Cs>::repeat2::<$m, $n>(Sl(c[0])),
                ops: vec![
                    op!("set_pat", 0, P4, mut |t, v| { t.set_pat(Sl(v)); }),
                    op!("pat_mut", 0, P3, mut |t, v| *t.pat_mut() = Sl(v)),
                    op!("with_pat", 0, P3, |t, v| t.with_pat(Sl(v))),
                ],
                read: |t| vec![t.pat().0],
                run: |t, s, ct| go(t, s, ct, |a: [Option<V>; $n]| V::F(a.into())),
                want: |c, s, ct| {
                    let i = SIZES.iter().position(|x| *x == ($m, $n)).unwrap();
                    model(Ast::Repeat2(i, sl(c[0])), s, ct)
                },
                once: false,
            });
        };
    }
    rep2!("repeat2<1,2>", 1, 2);
    rep2!("repeat2<2,3>", 2, 3);
    macro_rules! repeat {
        ($name:literal, $mk:expr) => {
            v.kind(Spec {
                name: $name,
                inits: vec![vec![0, 0, NA], vec![1, 2, NA]],
                mk: |c| {
                    let f = $mk;
                    f(Sl(c[0]), crange(RNG[c[1]]))
                },
                ops: vec![
                    op!("set_pat", 0, P3, mut |t, v| { t.set_pat(Sl(v)); }),
                    op!("pat_mut", 0, [1], mut |t, v| *t.pat_mut() = Sl(v)),
                    op!("with_pat", 0, P3, |t, v| t.with_pat(Sl(v))),
                    op!("set_range", 1, P4, mut |t, v| { t.set_range(crange(RNG[v])); }),
                    op!("with_range", 1, P4, |t, v| t.with_range(crange(RNG[v]))),
                    op!("set_capacity", 2, [0, 5], mut |t, v| { t.set_capacity(v); }),
                    op!("with_capacity", 2, [0, 9], |t, v| t.with_capacity(v)),
                ],
                read: |t| vec![t.pat().0, rng_id(t.range()), t.capacity()],
                run: |t, s, ct| go(t, s, ct, V::L),
                want: |c, s, ct| model(Ast::Repeat(RNG[c[1]], sl(c[0])), s, ct),
                once: false,
            });
        };
    }
    repeat!("Repeat", |p, r: CRange<usize>| ctor::Repeat::<Cs, Sl>::new(p, r));
    repeat!("repeat", |p, r: CRange<usize>| CtorOps::<'static, Cs>::repeat(p, r));
    v.kind(Spec {
        name: "collect",
        inits: vec![vec![0, 1], vec![2, 1]],
        mk: |c| CtorOps::<'static, Cs>::collect::<V, Vec<V>>(Sl(c[0])),
        ops: vec![
            op!("set_pat", 0, P3, mut |t, v| { t.set_pat(Sl(v)); }),
            op!("pat_mut", 0, P3, mut |t, v| *t.pat_mut() = Sl(v)),
            op!("set_min", 1, [0, 1, 2], mut |t, v| { t.set_min(v); }),
            op!("at_least", 1, [0, 1, 3], |t, v| t.at_least(v)),
        ],
        read: |t| vec![t.pat().0, t.min()],
        run: |t, s, ct| go(t, s, ct, V::L),
        want: |c, s, ct| model(Ast::Collect(c[1], sl(c[0])), s, ct),
        once: false,
    });
    v.kind(Spec {
        name: "opt",
        inits: vec![vec![0]],
        mk: |c| CtorOps::<'static, Cs>::opt(Sl(c[0])),
        ops: vec![
            op!("set_pat", 0, P4, mut |t, v| { t.set_pat(Sl(v)); }),
            op!("pat_mut", 0, P4, mut |t, v| *t.pat_mut() = Sl(v)),
        ],
        read: |t| vec![t.pat().0],
        run: |t, s, ct| go(t, s, ct, |o: Option<V>| V::O(o.map(Box::new))),
        want: |c, s, ct| model(Ast::Opt(sl(c[0])), s, ct),
        once: false,
    });
    v.kind(Spec {
        name: "pat",
        inits: vec![vec![0]],
        mk: |c| CtorOps::<'static, Cs>::pat(Sl(c[0])),
        ops: vec![
            op!("set_pat", 0, P4, mut |t, v| { t.set_pat(Sl(v)); }),
            op!("pat_mut", 0, P4, mut |t, v| *t.pat_mut() = Sl(v)),
        ],
        read: |t| vec![t.pat().0],
        run: |t, s, ct| go(t, s, ct, |v: V| V::T(7, Box::new(v))),
        want: |c, s, ct| model(Ast::Pat(sl(c[0])), s, ct),
        once: false,
    });
    v.kind(Spec {
        name: "map",
        inits: vec![vec![0, 0], vec![3, 1]],
        mk: |c| CtorOps::<'static, Cs>::try_map::<_, V>(Sl(c[0]), Mp(c[1])),
        ops: vec![
            op!("set_pat", 0, P4, mut |t, v| { t.set_pat(Sl(v)); }),
            op!("pat_mut", 0, P3, mut |t, v| *t.pat_mut() = Sl(v)),
            op!("set_mapper", 1, P4, mut |t, v| { t.set_mapper(Mp(v)); }),
            op!("mapper_mut", 1, P3, mut |t, v| *t.mapper_mut() = Mp(v)),
            op!("map_to", 1, P4, |t, v| t.map_to(Mp(v))),
        ],
        read: |t| vec![t.pat().0, t.mapper().0],
        run: |t, s, ct| go(t, s, ct, same),
        want: |c, s, ct| {
            let o = model((*sl(c[0])).clone(), s, ct);
            if !ct {
                return o;
            }
            match o.0.map(|v| Mp(c[1]).try_map(v)) {
                Some(Ok(v)) => (Some(v), o.1),
                _ => (None, 0),
            }
        },
        once: false,
    });
    v.kind(Spec {
        name: "DynamicCtorThenBuilder",
        inits: vec![vec![0, 0], vec![2, 2]],
        mk: |c| DynamicCtorThenBuilder::<Cs, Sl, Dy>::new(Sl(c[0]), DYNS[c[1]]),
        ops: vec![
            op!("set_pat", 0, P4, mut |t, v| { t.set_pat(Sl(v)); }),
            op!("pat_mut", 0, P3, mut |t, v| *t.pat_mut() = Sl(v)),
            op!("set_func", 1, P3, mut |t, v| { t.set_func(DYNS[v]); }),
            op!("func_mut", 1, P3, mut |t, v| *t.func_mut() = DYNS[v]),
        ],
        read: |t| {
            let f = *t.func();
            let mut c = Cs::new("");
            let r: Vec<usize> = [1, 2].iter().map(|n| f(&mut c, &V::S(0, *n)).map_or(9, |s| s.0)).collect();
            let id = match r[..] {
                [0, 0] => 0,
                [1, 1] => 1,
                [1, 0] => 2,
                _ => NA - 1,
            };
            vec![t.pat().0, id]
        },
        // there is no matching form
        run: |t, s, ct| if ct { go(t, s, true, pair) } else { Ok((None, 0)) },
        want: |c, s, ct| {
            if !ct {
                return (None, 0);
            }
            let second = |n: u32| match c[1] {
                0 => 0,
                1 => 1,
                _ => usize::from(n != 2),
            };
            let o = model((*sl(c[0])).clone(), s, true);
            let n = match &o.0 {
                Some(V::S(_, n)) => *n,
                _ => return (None, 0),
            };
            model(Ast::Then(sl(c[0]), sl(second(n))), s, true)
        },
        once: false,
    });
    macro_rules! adapter {
        ($name:literal, $ty:ty) => {
            v.kind(Spec {
                name: $name,
                inits: vec![vec![0]],
                mk: |c| <$ty>::new(Sl(c[0])),
                ops: vec![
                    op!("set_inner", 0, P4, mut |t, v| { t.set_inner(Sl(v)); }),
                    op!("inner_mut", 0, P3, mut |t, v| *t.inner_mut() = Sl(v)),
                    op!("with_inner", 0, P4, |t, v| t.with_inner(Sl(v))),
                    op!("into_inner and back", NA, [0], |t, _v| <$ty>::new(t.into_inner())),
                    op!("from", NA, [0], |t, _v| <$ty>::from(*t.inner())),
                ],
                read: |t| vec![t.inner().0],
                run: |t, s, ct| go(t, s, ct, same),
                want: |c, s, ct| model((*sl(c[0])).clone(), s, ct),
                once: false,
            });
        };
    }
    adapter!("ctor::Adapter", ctor::Adapter<Cs, Sl>);
    adapter!("regex::Adapter", regex::Adapter<Cs, Sl>);
    v.kind(Spec {
        name: "assert",
        inits: vec![vec![0, 1], vec![2, 0]],
        mk: |c| regex::assert(Sl(c[0]), c[1] == 1),
        ops: vec![
            op!("set_pat", 0, P4, mut |t, v| { t.set_pat(Sl(v)); }),
            op!("pat_mut", 0, P4, mut |t, v| *t.pat_mut() = Sl(v)),
            op!("set_value", 1, [0, 1], mut |t, v| { t.set_value(v == 1); }),
            op!("with_value", 1, [0, 1], |t, v| t.with_value(v == 1)),
        ],
        read: |t| vec![t.pat().0, t.value() as usize],
        run: |t, s, ct| go(t, s, ct, same),
        want: |c, s, ct| model(if c[1] == 1 { Ast::Peek(sl(c[0])) } else { Ast::Not(sl(c[0])) }, s, ct),
        once: false,
    });
    for_tables(v);
    for_units(v);
}

fn for_tables(v: &impl Visit) {
    macro_rules! table {
        ($name:literal, $mk:expr, $first:expr, $ltm:expr) => {
            v.kind(Spec {
                name: $name,
                inits: vec![vec![0, 0, 2], vec![1, 0, 2]],
                mk: |c| {
                    let f = $mk;
                    f(c[0] == 1, Sl(c[1]), Sl(c[2]))
                },
                ops: vec![
                    op!("set_longest", 0, [0, 1], mut |t, v| { t.set_longest(v == 1); }),
                    op!("with_longest", 0, [0, 1], |t, v| t.with_longest(v == 1)),
                    op!("first entry", 1, P4, mut |t, v| t[0] = Sl(v)),
                    op!("second entry", 2, P4, mut |t, v| t[1] = Sl(v)),
                    op!("swap entries", NA - 1, [0], mut |t, _v| t.swap(0, 1)),
                ],
                read: |t| vec![t.longest() as usize, t[0].0, t[1].0],
                run: |t, s, ct| go(t, s, ct, same),
                want: |c, s, ct| model(Ast::Table(if c[0] == 1 { $ltm } else { $first }, vec![sl(c[1]), sl(c[2])]), s, ct),
                once: false,
            });
        };
    }
    table!("vector", |ltm: bool, a, b| if ltm { regex::vector_ltm([a, b]) } else { regex::vector([a, b]) }, Tab::Vector, Tab::VectorLtm);
    table!("Vector", |ltm: bool, a, b| ctor::Vector::new(vec![a, b], ltm), Tab::Vector, Tab::VectorLtm);
    table!("array", |ltm: bool, a, b| if ltm { regex::array_ltm([a, b]) } else { regex::array([a, b]) }, Tab::Array, Tab::ArrayLtm);
    table!("Array", |ltm: bool, a, b| ctor::Array::new([a, b], ltm), Tab::Array, Tab::ArrayLtm);
    macro_rules! pair_table {
        ($name:literal, $mk:expr, $first:expr, $ltm:expr) => {
            v.kind(Spec {
                name: $name,
                inits: vec![vec![0, 0, 2], vec![1, 0, 2]],
                mk: |c| {
                    let f = $mk;
                    f(c[0] == 1, (Sl(c[1]), 100), (Sl(c[2]), 101))
                },
                ops: vec![
                    op!("set_longest", 0, [0, 1], mut |t, v| { t.set_longest(v == 1); }),
                    op!("with_longest", 0, [0, 1], |t, v| t.with_longest(v == 1)),
                    op!("first entry", 1, P4, mut |t, v| t[0].0 = Sl(v)),
                    op!("second entry", 2, P4, mut |t, v| t[1].0 = Sl(v)),
                ],
                read: |t| vec![t.longest() as usize, t[0].0.0, t[1].0.0],
                run: |t, s, ct| go(t, s, ct, keyed),
                want: |c, s, ct| model(Ast::Table(if c[0] == 1 { $ltm } else { $first }, vec![sl(c[1]), sl(c[2])]), s, ct),
                once: false,
            });
        };
    }
    type E = (Sl, u32);
    pair_table!("pair_vector", |ltm: bool, a: E, b: E| if ltm { regex::pair_vector_ltm([a, b]) } else { regex::pair_vector([a, b]) }, Tab::PairVector, Tab::PairVectorLtm);
    pair_table!("PairVector", |ltm: bool, a: E, b: E| ctor::PairVector::new(vec![a, b], ltm), Tab::PairVector, Tab::PairVectorLtm);
    pair_table!("pair_array", |ltm: bool, a: E, b: E| if ltm { regex::pair_array_ltm([a, b]) } else { regex::pair_array([a, b]) }, Tab::PairArray, Tab::PairArrayLtm);
    pair_table!("PairArray", |ltm: bool, a: E, b: E| ctor::PairArray::new([a, b], ltm), Tab::PairArray, Tab::PairArrayLtm);
    static SLICE: [Sl; 2] = [Sl(0), Sl(2)];
    static PAIRS: [E; 2] = [(Sl(0), 100), (Sl(2), 101)];
    macro_rules! slices {
        ($name:literal, $mk:expr, $conv:expr, $first:expr, $ltm:expr) => {
            v.kind(Spec {
                name: $name,
                inits: vec![vec![0], vec![1]],
                mk: |c| {
                    let f = $mk;
                    f(c[0] == 1)
                },
                ops: vec![
                    op!("set_longest", 0, [0, 1], mut |t, v| { t.set_longest(v == 1); }),
                    op!("with_longest", 0, [0, 1], |t, v| t.with_longest(v == 1)),
                ],
                read: |t| vec![t.longest() as usize],
                run: |t, s, ct| go(t, s, ct, $conv),
                want: |c, s, ct| model(Ast::Table(if c[0] == 1 { $ltm } else { $first }, vec![sl(0), sl(2)]), s, ct),
                once: false,
            });
        };
    }
    slices!("slice", |ltm| if ltm { regex::slice_ltm(&SLICE[..]) } else { regex::slice(&SLICE[..]) }, same, Tab::Slice, Tab::SliceLtm);
    slices!("Slice", |ltm| ctor::Slice::new(&SLICE[..], ltm), same, Tab::Slice, Tab::SliceLtm);
    slices!("pair_slice", |ltm| if ltm { regex::pair_slice_ltm(&PAIRS[..]) } else { regex::pair_slice(&PAIRS[..]) }, keyed, Tab::PairSlice, Tab::PairSliceLtm);
    slices!("PairSlice", |ltm| ctor::PairSlice::new(&PAIRS[..], ltm), keyed, Tab::PairSlice, Tab::PairSliceLtm);
}

fn for_units(v: &impl Visit) {
    // patterns made of one unit; the condition starts as "always"
    macro_rules! unit {
        ($name:literal, $mk:expr, $lo:expr, $hi:expr) => {
            v.kind(Spec {
                name: $name,
                inits: vec![vec![0, 0], vec![2, 0]],
                mk: |c| {
                    let f = $mk;
                    f(Un(c[0]))
                },
                ops: vec![
                    op!("set_unit", 0, P4, mut |t, v| { t.set_unit(Un(v)); }),
                    op!("unit_mut", 0, P4, mut |t, v| *t.unit_mut() = Un(v)),
                    op!("set_cond", 1, P3, |t, v| Condition::<'static, Cs>::set_cond(t, Cd(v))),
                ],
                read: |t| vec![t.unit().0, NA],
                run: |t, s, ct| go(t, s, ct, same),
                want: |c, s, _| run_want(c[0], c[1], $lo, $hi, s),
                once: false,
            });
        };
    }
    macro_rules! cond {
        ($e:expr) => {
            Condition::<'static, Cs>::set_cond($e, Cd(0))
        };
    }

    unit!("once", |u| cond!(regex::once::<Cs, Un>(u)), 1, 1);
    unit!("opt", |u| cond!(regex::opt::<Cs, Un>(u)), 0, 1);
    unit!("many0", |u| cond!(regex::many0::<Cs, Un>(u)), 0, NA);
    unit!("many1", |u| cond!(regex::many1::<Cs, Un>(u)), 1, NA);
    unit!("count<1,2>", |u| cond!(regex::count::<1, 2, Cs, Un>(u)), 1, 2);
    unit!("count_if<2,3>", |u| regex::count_if::<2, 3, Cs, Un, Cd>(u, Cd(0)), 2, 3);
    unit!(".once()", |u| cond!(NeuIntoRegexOps::<'static, Cs>::once(u)), 1, 1);
    unit!(".opt()", |u| cond!(NeuIntoRegexOps::<'static, Cs>::opt(u)), 0, 1);
    unit!(".many0()", |u| cond!(NeuIntoRegexOps::<'static, Cs>::many0(u)), 0, NA);
    unit!(".many1()", |u| cond!(NeuIntoRegexOps::<'static, Cs>::many1(u)), 1, NA);
    unit!(".between<1,3>()", |u| cond!(NeuIntoRegexOps::<'static, Cs>::between::<1, 3>(u)), 1, 3);
    unit!(".count<2>()", |u| cond!(NeuIntoRegexOps::<'static, Cs>::count::<2>(u)), 2, 2);
    unit!(".at_least<2>()", |u| cond!(NeuIntoRegexOps::<'static, Cs>::at_least::<2>(u)), 2, NA);
    unit!(".at_most<2>()", |u| cond!(NeuIntoRegexOps::<'static, Cs>::at_most::<2>(u)), 0, 2);
    v.kind(Spec {
        name: "times",
        inits: vec![vec![0, 0, 0], vec![2, 2, 0]],
        mk: |c| cond!(NeuIntoRegexOps::<'static, Cs>::times(Un(c[0]), times_rng(c[1]))),
        ops: vec![
            op!("set_unit", 0, P4, mut |t, v| { t.set_unit(Un(v)); }),
            op!("unit_mut", 0, P3, mut |t, v| *t.unit_mut() = Un(v)),
            op!("set_range", 1, P3, mut |t, v| { t.set_range(times_rng(v)); }),
            op!("range_mut", 1, P3, mut |t, v| *t.range_mut() = times_rng(v)),
            op!("set_cond", 2, P3, |t, v| Condition::<'static, Cs>::set_cond(t, Cd(v))),
        ],
        read: |t| vec![t.unit().0, times_id(t.range()), NA],
        run: |t, s, ct| go(t, s, ct, same),
        want: |c, s, _| run_want(c[0], c[2], TIMES[c[1]].0, TIMES[c[1]].1, s),
        once: false,
    });
    v.kind(Spec {
        name: "unit then unit",
        inits: vec![vec![0, 1, 0], vec![2, 0, 0]],
        mk: |c| cond!(NeuIntoRegexOps::<'static, Cs>::then(Un(c[0]), Un(c[1]))),
        ops: vec![
            op!("set_left", 0, P4, mut |t, v| { t.set_left(Un(v)); }),
            op!("left_mut", 0, P3, mut |t, v| *t.left_mut() = Un(v)),
            op!("set_right", 1, P4, mut |t, v| { t.set_right(Un(v)); }),
            op!("right_mut", 1, P3, mut |t, v| *t.right_mut() = Un(v)),
            op!("set_cond", 2, P3, |t, v| Condition::<'static, Cs>::set_cond(t, Cd(v))),
        ],
        read: |t| vec![t.left().0, t.right().0, NA],
        run: |t, s, ct| go(t, s, ct, same),
        want: |c, s, _| {
            let mut it = s.char_indices();
            match (it.next(), it.next()) {
                (Some((i, x)), Some((j, y)))
                    if un(c[0], x) && cd(c[2], i, x) && un(c[1], y) && cd(c[2], j, y) =>
                {
                    let e = j + y.len_utf8();
                    (Some(V::S(0, e as u32)), e)
                }
                _ => (None, 0),
            }
        },
        once: false,
    });
    // units themselves, observed on the first character
    fn first<T: Neu<char>>(t: &T, s: &'static str) -> Result<Out, String> {
        guarded(|| {
            let ok = s.chars().next().is_some_and(|c| t.is_match(&c));
            (ok.then_some(V::S(0, 0)), 0)
        })
    }
    fn first_want(ok: impl Fn(char) -> bool, s: &str) -> Out {
        (s.chars().next().is_some_and(ok).then_some(V::S(0, 0)), 0)
    }
    macro_rules! two_units {
        ($name:literal, $mk:expr, $want:expr) => {
            v.kind(Spec {
                name: $name,
                inits: vec![vec![0, 1], vec![3, 2]],
                mk: |c| {
                    let f = $mk;
                    f(Un(c[0]), Un(c[1]))
                },
                ops: vec![
                    op!("set_left", 0, P4, mut |t, v| { t.set_left(Un(v)); }),
                    op!("left_mut", 0, P4, mut |t, v| *t.left_mut() = Un(v)),
                    op!("set_right", 1, P4, mut |t, v| { t.set_right(Un(v)); }),
                    op!("right_mut", 1, P4, mut |t, v| *t.right_mut() = Un(v)),
                ],
                read: |t| vec![t.left().0, t.right().0],
                run: |t, s, _| first(t, s),
                want: |c, s, _| {
                    let f: fn(bool, bool) -> bool = $want;
                    first_want(|ch| f(un(c[0], ch), un(c[1], ch)), s)
                },
                once: false,
            });
        };
    }
    two_units!("neu::or", |a, b| neu::or::<char, _, _>(a, b), |a, b| a || b);
    two_units!("neu::and", |a, b| neu::and::<char, _, _>(a, b), |a, b| a && b);
    v.kind(Spec {
        name: "neu::not",
        inits: vec![vec![0]],
        mk: |c| neu::not::<char, _>(Un(c[0])),
        ops: vec![
            op!("set_unit", 0, P4, mut |t, v| { t.set_unit(Un(v)); }),
            op!("unit_mut", 0, P4, mut |t, v| *t.unit_mut() = Un(v)),
        ],
        read: |t| vec![t.unit().0],
        run: |t, s, _| first(t, s),
        want: |c, s, _| first_want(|ch| !un(c[0], ch), s),
        once: false,
    });
    // a prefix of `n` items, then the unit for the rest
    fn prefix_want(p: usize, n: usize, u: usize, s: &str) -> Out {
        let mut k = 0;
        for ch in s.chars() {
            if !un(if k < n { p } else { u }, ch) {
                break;
            }
            k += 1;
        }
        (Some(V::S(0, k as u32)), 0)
    }
    fn run_items<T: Neu<char>>(t: &T, s: &'static str) -> Result<Out, String> {
        guarded(|| {
            let k = s.chars().take_while(|c| t.is_match(c)).count();
            (Some(V::S(0, k as u32)), 0)
        })
    }
    macro_rules! prefixed {
        ($name:literal, $mk:expr, $n:literal) => {
            v.kind(Spec {
                name: $name,
                inits: vec![vec![0, 1], vec![1, 2]],
                mk: |c| {
                    let f = $mk;
                    f(Un(c[0]), Un(c[1]))
                },
                ops: vec![
                    op!("set_prefix", 0, P4, mut |t, v| { t.set_prefix(Un(v)); }),
                    op!("prefix_mut", 0, P4, mut |t, v| *t.prefix_mut() = Un(v)),
                    op!("set_unit", 1, P4, mut |t, v| { t.set_unit(Un(v)); }),
                    op!("unit_mut", 1, P4, mut |t, v| *t.unit_mut() = Un(v)),
                ],
                read: |t| vec![t.prefix().0, t.unit().0],
                run: |t, s, _| run_items(t, s),
                want: |c, s, _| prefix_want(c[0], $n, c[1], s),
                once: true,
            });
        };
    }
    prefixed!("neu::prefix", |p, u| neu::prefix::<char, _, _>(p, u), 1);
    prefixed!("neu::prefix_cnt", |p, u| neu::prefix_cnt::<char, _, _>(p, 2, u), 2);
    prefixed!("neu::prefix_sync", |p, u| neu::prefix_sync::<char, _, _>(p, u), 1);
    prefixed!("neu::prefix_sync_cnt", |p, u| neu::prefix_sync_cnt::<char, _, _>(p, 2, u), 2);
}

impl<T> Spec<T> {
    /// (op, value) choices of one step
    pub fn alphabet(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (i, o) in self.ops.iter().enumerate() {
            for x in o.vals {
                v.push((i, *x));
            }
        }
        v
    }

    pub fn apply_cfg(&self, cfg: &mut [usize], op: usize, val: usize) {
        match self.ops[op].dim {
            NA => {}
            d if d == NA - 1 => cfg.swap(1, 2),
            d => cfg[d] = val,
        }
    }

    /// A fresh pattern and its configuration, defaults included.
    pub fn start(&self, init: usize) -> (T, Vec<usize>) {
        let mut cfg = self.inits[init].clone();
        let t = (self.mk)(&cfg);
        for (c, r) in cfg.iter_mut().zip((self.read)(&t)) {
            if *c == NA {
                *c = r;
            }
        }
        (t, cfg)
    }
}

struct P30<'r> {
    rep: &'r Rep,
    cap: usize,
    inputs: Vec<&'static str>,
}

impl Visit for P30<'_> {
    fn kind<T: Clone + 'static>(&self, s: Spec<T>) {
        let alpha = s.alphabet();
        let k = alpha.len();
        // all histories up to the longest length that stays under the cap
        let mut lens = vec![1usize];
        let max = if k == 0 { 0 } else { 8 };
        while lens.len() <= max {
            let n = lens.last().unwrap() * k;
            if s.inits.len() * (lens.iter().sum::<usize>() + n) > self.cap {
                break;
            }
            lens.push(n);
        }
        let per: usize = lens.iter().sum();
        let name = format!("{}: histories up to {} calls of {k}", s.name, lens.len() - 1);
        self.rep.explore_n(&name, per * s.inits.len(), |rep, i, loc| {
            let (init, mut j) = (i / per, i % per);
            let mut d = 0;
            while j >= lens[d] {
                j -= lens[d];
                d += 1;
            }
            let mut h = vec![];
            for _ in 0..d {
                h.push(alpha[j % k]);
                j /= k;
            }
            history(rep, &s, init, &h, &self.inputs, loc);
        });
    }
}

fn show<T>(s: &Spec<T>, init: usize, h: &[(usize, usize)]) -> String {
    let mut t = format!("{} {:?}", s.name, s.inits[init]);
    for (o, v) in h {
        t += &format!(".{}({v})", s.ops[*o].name.replace(' ', "_"));
    }
    t
}

fn history<T>(rep: &Rep, s: &Spec<T>, init: usize, h: &[(usize, usize)], inputs: &[&'static str], loc: &mut Local) {
    let build = || -> (T, Vec<usize>) {
        let (mut t, mut cfg) = s.start(init);
        for (o, v) in h {
            t = (s.ops[*o].f)(t, *v);
            s.apply_cfg(&mut cfg, *o, *v);
        }
        (t, cfg)
    };
    let (t, cfg) = build();
    loc.states += 1;
    let bad = |what: &str, text: String| {
        let sh = show(s, init, h);
        rep.violation(&format!("{what}:{sh}"), &format!("{sh}: {text}"));
    };
    let read = (s.read)(&t);
    if read.iter().zip(&cfg).any(|(r, c)| *r != NA && r != c) {
        bad("reads back", format!("reads back {read:?}, expected {cfg:?}"));
    }
    for &i in inputs {
        for ct in [false, true] {
            let fresh = s.once.then(&build);
            let r = (s.run)(fresh.as_ref().map_or(&t, |f| &f.0), i, ct);
            let w = (s.want)(&cfg, i, ct);
            loc.traces += 1;
            loc.outcomes.insert(hash64(&w));
            if w.0.is_some() {
                loc.matched += 1;
            } else {
                loc.failed += 1;
            }
            if r.as_ref() != Ok(&w) {
                bad(
                    if ct { "construct" } else { "match" },
                    format!("configured as {cfg:?}, on {i:?} gives {r:?}, expected {w:?}"),
                );
                return;
            }
        }
    }
}

pub fn p30(rep: &Rep) {
    let q = rep.quick();
    kinds(&P30 {
        rep,
        cap: if q { 30_000 } else { 1_000_000 },
        inputs: inputs(&['a', 'b'], 4),
    });
}

/// P29: copies. Two patterns of one kind; either may be reconfigured, used,
/// or become a copy of the other.
pub struct Copies<'r> {
    pub rep: &'r Rep,
    pub cap: usize,
    pub inputs: Vec<&'static str>,
}

impl Visit for Copies<'_> {
    fn kind<T: Clone + 'static>(&self, s: Spec<T>) {
        if s.once {
            return;
        }
        #[derive(Clone, Copy, Debug)]
        enum St {
            Set(bool, usize, usize),
            Copy(bool),
            CloneFrom(bool),
        }
        let mut alpha = vec![St::Copy(true), St::Copy(false), St::CloneFrom(true), St::CloneFrom(false)];
        for (o, v) in s.alphabet() {
            alpha.push(St::Set(false, o, v));
            alpha.push(St::Set(true, o, v));
        }
        let k = alpha.len();
        let mut lens = vec![1usize];
        while lens.len() <= 6 {
            let n = lens.last().unwrap() * k;
            if lens.iter().sum::<usize>() + n > self.cap {
                break;
            }
            lens.push(n);
        }
        let per: usize = lens.iter().sum();
        let name = format!("copies of {}: histories up to {} steps of {k}", s.name, lens.len() - 1);
        self.rep.explore_n(&name, per, |rep, mut j, loc| {
            let mut d = 0;
            while j >= lens[d] {
                j -= lens[d];
                d += 1;
            }
            let (a, ca) = s.start(0);
            let (b, cb) = s.start(s.inits.len() - 1);
            let mut t = [a, b];
            let mut cfg = [ca, cb];
            let mut h = vec![];
            loc.states += 1;
            let probe = |t: &[T; 2], cfg: &[Vec<usize>; 2], h: &[St], ins: &[&'static str], loc: &mut Local| {
                for w in 0..2 {
                    let bad = |what: &str, text: String| {
                        rep.violation(
                            &format!("{what}:{}:{h:?}:{w}", s.name),
                            &format!("{}: steps {h:?}, pattern {w}: {text}", s.name),
                        );
                    };
                    let read = (s.read)(&t[w]);
                    if read.iter().zip(&cfg[w]).any(|(r, c)| *r != NA && r != c) {
                        bad("reads back", format!("reads back {read:?}, expected {:?}", cfg[w]));
                    }
                    for &i in ins {
                        for ct in [true, false] {
                            let r = (s.run)(&t[w], i, ct);
                            let want = (s.want)(&cfg[w], i, ct);
                            loc.traces += 1;
                            if want.0.is_some() {
                                loc.matched += 1;
                            } else {
                                loc.failed += 1;
                            }
                            if r.as_ref() != Ok(&want) {
                                bad("use", format!("configured as {:?}, on {i:?} gives {r:?}, expected {want:?}", cfg[w]));
                                return false;
                            }
                        }
                    }
                }
                true
            };
            for _ in 0..d {
                // use both before each step
                let i = self.inputs[h.len() % self.inputs.len()];
                if !probe(&t, &cfg, &h, &[i], loc) {
                    return;
                }
                let st = alpha[j % k];
                j /= k;
                h.push(st);
                match st {
                    St::Set(w, o, v) => {
                        let w = w as usize;
                        let [x, y] = t;
                        t = if w == 0 { [(s.ops[o].f)(x, v), y] } else { [x, (s.ops[o].f)(y, v)] };
                        s.apply_cfg(&mut cfg[w], o, v);
                    }
                    St::Copy(w) => {
                        let w = w as usize;
                        t[1 - w] = t[w].clone();
                        cfg[1 - w] = cfg[w].clone();
                    }
                    St::CloneFrom(w) => {
                        let w = w as usize;
                        let [x, y] = &mut t;
                        let (to, from) = if w == 0 { (y, x) } else { (x, y) };
                        to.clone_from(from);
                        cfg[1 - w] = cfg[w].clone();
                    }
                }
            }
            probe(&t, &cfg, &h, &self.inputs, loc);
        });
    }
}
