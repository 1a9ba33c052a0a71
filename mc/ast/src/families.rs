//! Leaves, operators and inputs of the explored families.

use crate::enumerate::{Ops, l};
use crate::{A, Ast, DynFn, Leaf, Rng, SIZES, Tab, Test, U, Ws};

pub fn lit(s: &'static str) -> A {
    l(Leaf::Lit(s))
}

/// A small set that can succeed, fail, consume nothing or several items.
pub fn leaves_small() -> Vec<A> {
    vec![lit("a"), lit("b"), lit("ab"), l(Leaf::Many0(U::Ch('a')))]
}

pub fn leaves_tiny() -> Vec<A> {
    vec![lit("a"), lit("b"), l(Leaf::Many0(U::Ch('a')))]
}

pub fn leaves_all() -> Vec<A> {
    vec![
        lit("a"),
        lit("b"),
        lit("ab"),
        lit(""),
        l(Leaf::Once(U::Any)),
        l(Leaf::Once(U::NotCh('a'))),
        l(Leaf::Opt(U::Ch('b'))),
        l(Leaf::Many0(U::Ch('a'))),
        l(Leaf::Many1(U::AOrB)),
        l(Leaf::Times(U::Any, 1, 2)),
        l(Leaf::Start),
        l(Leaf::End),
        l(Leaf::Empty),
        l(Leaf::Unit),
        l(Leaf::Fail),
        l(Leaf::ConsumeAll),
        l(Leaf::Consume(1)),
        l(Leaf::Consume(2)),
    ]
}

/// Text with characters of 1, 2, 3 and 4 bytes; no raw byte counts.
pub fn leaves_wide() -> Vec<A> {
    vec![
        lit("é"),
        lit("好a"),
        l(Leaf::Once(U::Any)),
        l(Leaf::Once(U::NotCh('é'))),
        l(Leaf::Opt(U::Ch('𝄞'))),
        l(Leaf::Many0(U::Ch('é'))),
        l(Leaf::Many1(U::NotCh('a'))),
        l(Leaf::Times(U::Any, 1, 2)),
        l(Leaf::End),
        l(Leaf::ConsumeAll),
    ]
}

pub fn seq_ops() -> Ops {
    let mut o = Ops::default()
        .one(Ast::Opt)
        .one(Ast::Pat)
        .one(Ast::Map)
        .two(Ast::Then)
        .two(Ast::Then0)
        .two(Ast::Then1)
        .two(Ast::Or)
        .two(Ast::Prefix)
        .two(Ast::Suffix)
        .three(Ast::Enclose)
        .three(Ast::SepOnce)
        .three(Ast::IfThen);
    for t in [Test::True, Test::False, Test::Err, Test::NextA, Test::Even] {
        o = o.two(move |a, b| Ast::IfElse(t, a, b));
    }
    o
}

pub fn ws_ops() -> Ops {
    let mut o = Ops::default();
    for k in [Ws::Skip, Ws::SkipAscii, Ws::SkipLeading, Ws::SkipAsciiLeading] {
        o = o.one(move |a| Ast::Ws(k, a));
    }
    o
}

pub const RNGS: &[Rng] = &[
    Rng::From(0),
    Rng::From(1),
    Rng::From(2),
    Rng::Incl(0, 1),
    Rng::Incl(1, 2),
    Rng::Incl(2, 2),
    Rng::Incl(2, 3),
    Rng::Excl(0, 2),
    Rng::Excl(1, 3),
    Rng::Excl(2, 2),
    Rng::To(2),
    Rng::To(0),
    Rng::ToIncl(1),
    Rng::Exact(0),
    Rng::Exact(2),
    Rng::Full,
    Rng::After(0),
    Rng::After(1),
    Rng::AfterTo(0, 2),
];

pub const RNGS_FEW: &[Rng] = &[Rng::From(1), Rng::Incl(1, 2), Rng::Excl(0, 2), Rng::Exact(2)];

pub fn rep_ops(rngs: &'static [Rng], sizes: usize, mins: usize) -> Ops {
    let mut o = Ops::default();
    for r in rngs {
        o = o.one(move |a| Ast::Repeat(*r, a));
    }
    for i in 0..sizes.min(SIZES.len()) {
        o = o.one(move |a| Ast::Repeat2(i, a));
    }
    for m in 0..mins {
        o = o.one(move |a| Ast::Collect(m, a));
    }
    o
}

pub fn sep_ops(sizes: usize, mins: usize) -> Ops {
    let mut o = Ops::default();
    for skip in [true, false] {
        for m in 0..mins {
            o = o.two(move |a, b| Ast::Sep(skip, m, a, b));
            o = o.two(move |a, b| Ast::SepCollect(skip, m, a, b));
        }
        for i in 0..sizes.min(SIZES.len()) {
            o = o.two(move |a, b| Ast::Sep2(skip, i, a, b));
        }
    }
    o
}

pub fn look_ops() -> Ops {
    Ops::default().one(Ast::Not).one(Ast::Peek)
}

pub fn ltm_ops() -> Ops {
    Ops::default().two(Ast::Ltm)
}

pub fn tab_ops(tabs: &'static [Tab], three: bool) -> Ops {
    let mut o = Ops::default();
    for t in tabs {
        o = o
            .one(move |a| Ast::Table(*t, vec![a]))
            .two(move |a, b| Ast::Table(*t, vec![a, b]));
        if three {
            o = o.three(move |a, b, c| Ast::Table(*t, vec![a, b, c]));
        }
    }
    o
}

pub fn dyn_ops() -> Ops {
    Ops::default()
        .one(|a| Ast::Dyn(a, DynFn::Same))
        .one(|a| Ast::Dyn(a, DynFn::CountB))
        .one(|a| Ast::Dyn(a, DynFn::FailOnB))
}

/// Patterns built at run time that can also be matched.
pub fn rxdyn_ops() -> Ops {
    Ops::default()
        .one(|a| Ast::RxDyn(a, DynFn::Same))
        .one(|a| Ast::RxDyn(a, DynFn::CountB))
        .one(|a| Ast::RxDyn(a, DynFn::FailOnB))
}

pub fn has_rxdyn(a: &Ast) -> bool {
    a.any(&mut |x| matches!(x, Ast::RxDyn(..)))
}

/// One or two operators of every kind.
pub fn all_ops() -> Ops {
    seq_ops()
        .plus(&ws_ops())
        .plus(&rep_ops(RNGS_FEW, 4, 2))
        .plus(&sep_ops(4, 2))
        .plus(&look_ops())
        .plus(&ltm_ops())
        .plus(&tab_ops(&Tab::ALL, false))
}

/// All kinds, few representatives: for larger terms.
pub fn core_ops() -> Ops {
    Ops::default()
        .one(Ast::Opt)
        .one(Ast::Not)
        .one(Ast::Peek)
        .one(|a| Ast::Repeat(Rng::Incl(1, 2), a))
        .one(|a| Ast::Repeat2(2, a))
        .one(|a| Ast::Collect(1, a))
        .two(Ast::Then)
        .two(Ast::Or)
        .two(Ast::Ltm)
        .two(Ast::Prefix)
        .two(Ast::Suffix)
        .two(|a, b| Ast::Sep(true, 1, a, b))
        .two(|a, b| Ast::Sep(false, 2, a, b))
        .two(|a, b| Ast::Sep2(true, 2, a, b))
        .two(|a, b| Ast::SepCollect(true, 1, a, b))
        .two(|a, b| Ast::Table(Tab::VectorLtm, vec![a, b]))
        .two(|a, b| Ast::Table(Tab::PairArray, vec![a, b]))
        .three(Ast::Enclose)
        .three(Ast::SepOnce)
        .three(Ast::IfThen)
}
