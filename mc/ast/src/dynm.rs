//! P19: patterns built at run time from what was just matched.

use crate::props::{built, fam, faults, plain, skip_inputs};
use mc_ast::build::*;
use mc_ast::enumerate::*;
use mc_ast::families::*;
use mc_ast::model::{Fault, Skip};
use mc_ast::run::{BUDGET, model};
use mc_ast::sweep::*;
use mc_ast::*;
use mc_core::{Rep, guarded, hash64, set_budget};
use neure::ctor::{Ctor, CtorOps, Extract, DynamicCtorThenBuilder, DynamicCtorThenBuilderHelper};
use neure::ctx::{Context, MatchExt};
use neure::err::Error;
use neure::regex::{self, DynamicRegexBuilderHelper, Regex};
use neure::span::Span;
use std::cell::RefCell;
use std::rc::Rc;

/// A pattern that is handed out again for every use.
struct Sh<C>(Rc<Bx<C>>);
impl<C> Clone for Sh<C> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}
impl<C> Regex<C> for Sh<C> {
    fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
        self.0.try_parse(c)
    }
}
impl<C> Ctor<C, V, Hd> for Sh<C> {
    fn construct(&self, c: &mut C, h: &mut Hd) -> Result<V, Error> {
        self.0.construct(c, h)
    }
}

/// What the building function does.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
    /// gives the second pattern
    Ok,
    Err,
    /// the context is the user's to move (documented): forwards, then gives it
    MoveOk,
    MoveErr,
    /// matches one more 'a' itself (if there is one), then gives it
    EatOk,
    /// second pattern only when the first consumed something, else an error
    IfSome,
}
const ACTS: [Act; 6] = [Act::Ok, Act::Err, Act::MoveOk, Act::MoveErr, Act::EatOk, Act::IfSome];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Form {
    Helper,
    New,
    /// `construct` called directly, not through the context
    Direct,
    Sel0,
    Sel1,
    /// the first alternative of a choice, the second takes anything
    InOr,
    /// the second part of a sequence
    InThen,
    InOpt,
    InRepeat,
}
const FORMS: [Form; 9] = [
    Form::Helper,
    Form::New,
    Form::Direct,
    Form::Sel0,
    Form::Sel1,
    Form::InOr,
    Form::InThen,
    Form::InOpt,
    Form::InRepeat,
];

fn act<C: Hc>(a: Act, c: &mut C, empty: bool) -> Result<(), Error> {
    match a {
        Act::Ok => Ok(()),
        Act::Err => Err(Error::Uid(3)),
        Act::MoveOk | Act::MoveErr => {
            if c.offset() < c.len() {
                c.inc(1);
            }
            if a == Act::MoveOk { Ok(()) } else { Err(Error::Uid(4)) }
        }
        Act::EatOk => {
            let _ = c.try_mat(&C::text(b"a".to_vec()));
            Ok(())
        }
        Act::IfSome => {
            if empty {
                Err(Error::Uid(5))
            } else {
                Ok(())
            }
        }
    }
}

/// Position from which the second pattern goes on, by the reference.
fn acted(a: Act, s: &str, at: usize, empty: bool) -> Option<usize> {
    match a {
        Act::Ok => Some(at),
        Act::Err | Act::MoveErr => None,
        Act::MoveOk => Some((at + 1).min(s.len())),
        Act::EatOk => Some(if s[at..].starts_with('a') { at + 1 } else { at }),
        Act::IfSome => (!empty).then_some(at),
    }
}

type Calls<T> = Rc<RefCell<Vec<(T, usize)>>>;

/// The reference for one evaluation of the dynamic pair at `at`.
#[allow(clippy::type_complexity)]
fn want_pair(
    m: &mc_ast::model::Model,
    t: &A,
    u: &A,
    a: Act,
    s: &str,
    at: usize,
    calls: &mut Vec<(V, usize)>,
) -> Option<(V, V, usize)> {
    let mut log = vec![];
    let (v1, e1) = m.ct(t, at, &mut log)?;
    calls.push((v1.clone(), e1));
    let b = acted(a, s, e1, e1 == at)?;
    let (v2, e2) = m.ct(u, b, &mut log)?;
    Some((v1, v2, e2))
}

fn pv(a: V, b: V) -> V {
    V::P(Box::new(a), Box::new(b))
}

fn ctor_form<C: Hc>(f: Form, p: Sh<C>, u: Sh<C>, a: Act, calls: Calls<V>) -> Bx<C> {
    let func = move |c: &mut C, v: &V| -> Result<Sh<C>, Error> {
        calls.borrow_mut().push((v.clone(), c.offset()));
        // whether the first part consumed anything is visible from its leaves
        let empty = {
            let mut l = vec![];
            v.leaves(&mut l);
            l.iter().all(|x| x.1 == 0)
        };
        act::<C>(a, c, empty)?;
        Ok(u.clone())
    };
    let pair = |(x, y): (V, V)| pv(x, y);
    match f {
        Form::New => Box::new(val(DynamicCtorThenBuilder::<C, _, _>::new(p, func), pair)),
        Form::Sel0 => Box::new(
            DynamicCtorThenBuilderHelper::<'static, C>::into_ctor_then_builder(p, func)._0::<(V, V)>(),
        ),
        Form::Sel1 => Box::new(
            DynamicCtorThenBuilderHelper::<'static, C>::into_ctor_then_builder(p, func)._1::<(V, V)>(),
        ),
        _ => {
            let d = DynamicCtorThenBuilderHelper::<'static, C>::into_ctor_then_builder(p, func);
            let d = val(d, pair);
            match f {
                Form::Helper | Form::Direct => Box::new(d),
                Form::InOr => Box::new(CtorOps::<'static, C>::or(d, regex::consume_all())),
                Form::InThen => Box::new(val(CtorOps::<'static, C>::then(C::text(b"a".to_vec()), d), pair)),
                Form::InOpt => Box::new(val(CtorOps::<'static, C>::opt(d), |v: Option<V>| {
                    V::O(v.map(Box::new))
                })),
                _ => Box::new(val(CtorOps::<'static, C>::repeat(d, 1..=2), V::L)),
            }
        }
    }
}

#[allow(clippy::type_complexity)]
fn want_form(
    m: &mc_ast::model::Model,
    f: Form,
    t: &A,
    u: &A,
    a: Act,
    s: &str,
    at: usize,
    calls: &mut Vec<(V, usize)>,
) -> Option<(V, usize)> {
    let mut pair = |p| want_pair(m, t, u, a, s, p, calls);
    match f {
        Form::Helper | Form::New | Form::Direct => pair(at).map(|(x, y, e)| (pv(x, y), e)),
        Form::Sel0 => pair(at).map(|(x, _, e)| (x, e)),
        Form::Sel1 => pair(at).map(|(_, y, e)| (y, e)),
        Form::InOr => Some(match pair(at) {
            Some((x, y, e)) => (pv(x, y), e),
            None => (V::S(at as u32, (s.len() - at) as u32), s.len()),
        }),
        Form::InThen => {
            if !s[at..].starts_with('a') {
                return None;
            }
            pair(at + 1).map(|(x, y, e)| (pv(V::S(at as u32, 1), pv(x, y)), e))
        }
        Form::InOpt => Some(match pair(at) {
            Some((x, y, e)) => (V::O(Some(Box::new(pv(x, y)))), e),
            None => (V::O(None), at),
        }),
        Form::InRepeat => {
            let (x, y, e) = pair(at)?;
            let mut v = vec![pv(x, y)];
            let mut end = e;
            if let Some((x, y, e)) = pair(e) {
                v.push(pv(x, y));
                end = e;
            }
            Some((V::L(v), end))
        }
    }
}

fn ctor_builder<C: Hc>(rep: &Rep, firsts: &[A], seconds: &[A], inputs: &[&'static str], skip: Skip) {
    rep.explore(&format!("built from the value, {skip:?} / {}", C::NAME), firsts, |rep, t, loc| {
        let p = Sh(Rc::new(build::<C>(t)));
        for u in seconds {
            let q = Sh(Rc::new(build::<C>(u)));
            for a in ACTS {
                for f in FORMS {
                    if skip != Skip::None && (matches!(f, Form::InOr | Form::InThen | Form::InRepeat) || !matches!(a, Act::Ok | Act::Err)) {
                        continue;
                    }
                    let calls: Calls<V> = Default::default();
                    let pat = ctor_form::<C>(f, p.clone(), q.clone(), a, calls.clone());
                    for &s in inputs {
                        let m = model::<C>(s, skip, Fault::default());
                        for at in starts(s, usize::MAX) {
                            // empty for the library is what the leaves show
                            let mut wcalls = vec![];
                            if a == Act::IfSome && !leaf_width_shows(&m, t, at) {
                                continue;
                            }
                            let want = want_form(&m, f, t, u, a, s, at, &mut wcalls);
                            calls.borrow_mut().clear();
                            let got = guarded(|| {
                                let mut c = C::mk(s, skip);
                                c.set_offset(at);
                                set_budget(BUDGET);
                                let r = if f == Form::Direct {
                                    pat.construct(&mut c, &mut Hd::default()).ok()
                                } else {
                                    c.ctor_handler(&pat, Hd::default()).ok()
                                };
                                (r, c.offset())
                            });
                            loc.states += 1;
                            loc.traces += 1;
                            let bad = |what: String| {
                                rep.violation(
                                    &format!("builder:{f:?}:{t:?}:{u:?}:{a:?}:{s:?}@{at}:{skip:?}:{}", C::NAME),
                                    &format!("{f:?} of {t:?} with a function that acts {a:?} and gives {u:?}, {} (skips {skip:?}) input {s:?}, start {at}: {what}", C::NAME),
                                );
                            };
                            match got {
                                Err(e) => bad(e),
                                Ok((r, end)) => {
                                    loc.outcomes.insert(hash64(&(&r, end)));
                                    if r.is_some() {
                                        loc.matched += 1;
                                    } else {
                                        loc.failed += 1;
                                    }
                                    let w = want.clone().map_or((None, at), |(v, e)| (Some(v), e));
                                    if (r.clone(), end) != w {
                                        bad(format!("gave {r:?} ending at {end}, expected {w:?}"));
                                    } else if *calls.borrow() != wcalls {
                                        bad(format!(
                                            "the function saw {:?} (value, position), expected {wcalls:?}",
                                            calls.borrow()
                                        ));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

/// The value's leaves are empty exactly when the first part consumed nothing.
fn leaf_width_shows(m: &mc_ast::model::Model, t: &A, at: usize) -> bool {
    let ok = |p: usize| match m.ct(t, p, &mut vec![]) {
        Some((v, e)) => {
            let mut l = vec![];
            v.leaves(&mut l);
            l.iter().all(|x| x.1 == 0) == (e == p)
        }
        None => true,
    };
    (at..=at + 4).all(|p| p > m.s.len() || ok(p))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum RForm {
    Func,
    Method,
    /// `try_parse` called directly, not through the context
    Direct,
    /// constructed: the range goes to the handler
    Value,
    InOr,
    InThen,
    InNot,
    InRepeat,
}
const RFORMS: [RForm; 8] = [
    RForm::Func,
    RForm::Method,
    RForm::Direct,
    RForm::Value,
    RForm::InOr,
    RForm::InThen,
    RForm::InNot,
    RForm::InRepeat,
];

fn regex_builder<C: Hc>(rep: &Rep, firsts: &[A], seconds: &[A], inputs: &[&'static str], skip: Skip) {
    rep.explore(&format!("built from the range, {skip:?} / {}", C::NAME), firsts, |rep, t, loc| {
        let p = Sh(Rc::new(build::<C>(t)));
        for u in seconds {
            let q = Sh(Rc::new(build::<C>(u)));
            for a in ACTS {
                for f in RFORMS {
                    if skip != Skip::None
                        && (matches!(f, RForm::InOr | RForm::InThen | RForm::InNot | RForm::InRepeat) || !matches!(a, Act::Ok | Act::Err))
                    {
                        continue;
                    }
                    let calls: Calls<(usize, usize)> = Default::default();
                    let (c2, q2) = (calls.clone(), q.clone());
                    let func = move |c: &mut C, v: &Span| -> Result<Sh<C>, Error> {
                        c2.borrow_mut().push(((v.beg(), v.len()), c.offset()));
                        act::<C>(a, c, v.is_empty())?;
                        Ok(q2.clone())
                    };
                    let as_value: Option<Box<dyn Ctor<C, Span, Extract<Span>>>> = (f == RForm::Value)
                        .then(|| Box::new(regex::into_regex_builder(p.clone(), func.clone())) as Box<_>);
                    let pat: Box<dyn Regex<C>> = match f {
                        RForm::Func | RForm::Value => Box::new(regex::into_regex_builder(p.clone(), func)),
                        _ => {
                            let b = DynamicRegexBuilderHelper::<'static, C>::into_regex_builder(p.clone(), func);
                            match f {
                                RForm::InOr => Box::new(CtorOps::<'static, C>::or(b, regex::consume_all())),
                                RForm::InThen => {
                                    Box::new(CtorOps::<'static, C>::then(C::text(b"a".to_vec()), b))
                                }
                                RForm::InNot => Box::new(regex::not(b)),
                                RForm::InRepeat => Box::new(CtorOps::<'static, C>::repeat(b, 1..=2)),
                                _ => Box::new(b),
                            }
                        }
                    };
                    for &s in inputs {
                        let m = model::<C>(s, skip, Fault::default());
                        for at in starts(s, usize::MAX) {
                            let mut wcalls = vec![];
                            // (range of the built pattern, end)
                            let mut one = |p: usize| -> Option<(usize, usize)> {
                                let e = m.rx(t, p)?;
                                let p = m.skip_from(p);
                                wcalls.push(((p, e - p), e));
                                let b = acted(a, s, e, e == p)?;
                                Some((m.skip_from(b), m.rx(u, b)?))
                            };
                            // (begin of the reported range, end of it, position)
                            let want: Option<(usize, usize, usize)> = match f {
                                RForm::Func | RForm::Method | RForm::Direct | RForm::Value => one(at).map(|(b, e)| (b, e, e)),
                                RForm::InOr => Some(one(at).map_or((at, s.len(), s.len()), |(b, e)| (b, e, e))),
                                RForm::InThen => {
                                    if s[at..].starts_with('a') {
                                        one(at + 1).map(|(_, e)| (at, e, e))
                                    } else {
                                        None
                                    }
                                }
                                RForm::InNot => match one(at) {
                                    Some(_) => None,
                                    None => Some((at, at, at)),
                                },
                                RForm::InRepeat => one(at).map(|(_, e)| match one(e) {
                                    Some((_, e)) => (at, e, e),
                                    None => (at, e, e),
                                }),
                            };
                            calls.borrow_mut().clear();
                            let got = guarded(|| {
                                let mut c = C::mk(s, skip);
                                c.set_offset(at);
                                set_budget(BUDGET);
                                let r = match &as_value {
                                    Some(p) => c.ctor_span(p).ok(),
                                    None if f == RForm::Direct => pat.try_parse(&mut c).ok(),
                                    None => c.try_mat(&AsLeaf(&*pat)).ok(),
                                };
                                (r.map(|v| (v.beg(), v.beg() + v.len())), c.offset())
                            });
                            loc.states += 1;
                            loc.traces += 1;
                            let bad = |what: String| {
                                rep.violation(
                                    &format!("regex builder:{f:?}:{t:?}:{u:?}:{a:?}:{s:?}@{at}:{skip:?}:{}", C::NAME),
                                    &format!("{f:?} of {t:?} with a function that acts {a:?} and gives {u:?}, {} (skips {skip:?}) input {s:?}, start {at}: {what}", C::NAME),
                                );
                            };
                            match got {
                                Err(e) => bad(e),
                                Ok((r, end)) => {
                                    loc.outcomes.insert(hash64(&(&r, end)));
                                    if r.is_some() {
                                        loc.matched += 1;
                                    } else {
                                        loc.failed += 1;
                                    }
                                    let w = want.map_or((None, at), |(b, e, p)| (Some((b, e)), p));
                                    if (r, end) != w {
                                        bad(format!("gave {r:?} (begin, end), position {end}, expected {w:?}"));
                                    } else if *calls.borrow() != wcalls {
                                        bad(format!(
                                            "the function saw {:?} (range, position), expected {wcalls:?}",
                                            calls.borrow()
                                        ));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

struct AsLeaf<'p, C>(&'p dyn Regex<C>);
impl<C> Regex<C> for AsLeaf<'_, C> {
    fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
        self.0.try_parse(c)
    }
}
/// `_eq` pairs the two values only when they are equal.
fn eq_form(rep: &Rep) {
    let inputs = inputs(&['a', 'b'], 6);
    rep.explore("equal halves", &inputs, |rep, s, loc| {
        for n in 0..4usize {
            for m in 0..4usize {
                let p = DynamicCtorThenBuilderHelper::<'static, Cs>::into_ctor_then_builder(
                    CtorOps::<'static, Cs>::map::<_, &'static str>(regex::consume(n), |v: &'static str| v.to_string()),
                    move |_: &mut Cs, _: &String| {
                        Ok(CtorOps::<'static, Cs>::map::<_, &'static str>(regex::consume(m), |v: &'static str| {
                            v.to_string()
                        }))
                    },
                )
                ._eq::<String, String>();
                for at in 0..=s.len() {
                    loc.states += 1;
                    loc.traces += 1;
                    let got = guarded(|| {
                        let mut c = Cs::new(s);
                        c.set_offset(at);
                        let r: Option<(String, String)> = c.ctor(&p).ok();
                        (r, c.offset())
                    });
                    let want = if at + n + m <= s.len() && s[at..at + n] == s[at + n..at + n + m] {
                        (
                            Some((s[at..at + n].to_string(), s[at + n..at + n + m].to_string())),
                            at + n + m,
                        )
                    } else {
                        (None, at)
                    };
                    if want.0.is_some() {
                        loc.matched += 1;
                    } else {
                        loc.failed += 1;
                    }
                    if got != Ok(want.clone()) {
                        rep.violation(
                            &format!("equal halves:{s:?}@{at}:{n}:{m}"),
                            &format!("dynamic {n} then {m} bytes, _eq, input {s:?}, start {at}: gave {got:?}, expected {want:?}"),
                        );
                    }
                }
            }
        }
    });
}

pub fn p19(rep: &Rep) {
    let q = rep.quick();
    // dynamic parts anywhere inside ordinary patterns
    let asp = Asp {
        ct: true,
        restore_ct: true,
        ..Default::default()
    };
    let only = |v: Vec<A>| -> Vec<A> { v.into_iter().filter(|t| has_dyn(t)).collect() };
    let t = only(flat(terms(&leaves_all(), &all_ops().plus(&dyn_ops()), 3)));
    plain(rep, &fam("dynamic parts, all leaves, size 3", &t, &inputs(&['a', 'b'], if q { 4 } else { 6 })), asp);
    let t = only(flat(terms(&leaves_small(), &core_ops().plus(&dyn_ops()), if q { 4 } else { 5 })));
    plain(rep, &fam("dynamic parts, nested", &t, &inputs(&['a', 'b'], if q { 4 } else { 5 })), asp);
    let t = only(flat(terms(&leaves_wide(), &all_ops().plus(&dyn_ops()), if q { 2 } else { 3 })));
    sweep::<Cs>(rep, &fam("dynamic parts, wide characters", &t, &inputs(&['a', 'é', '好', '𝄞'], 3)), asp);
    let t = only(flat(terms(&leaves_tiny(), &all_ops().plus(&dyn_ops()), 3)));
    let i = skip_inputs(if q { 3 } else { 4 });
    sweep::<Pc>(rep, &fam("dynamic parts, skip policy", &t, &i), asp);
    sweep::<Pb>(rep, &fam("dynamic parts, skip policy", &t, &i), asp);
    let both = Asp {
        rx: true,
        ct: true,
        restore_rx: true,
        restore_ct: true,
        ..Default::default()
    };
    built(rep, both);
    // each range in turn rejected by the handler
    let t = only(flat(terms(&leaves_tiny(), &core_ops().plus(&dyn_ops()), if q { 3 } else { 4 })));
    faults::<Cs>(rep, "dynamic parts, rejections", &t, &inputs(&['a', 'b'], 4));
    faults::<Bs>(rep, "dynamic parts, rejections", &t, &inputs(&['a', 'b'], 4));
    // the function itself
    let firsts = flat(terms(&leaves_all(), &core_ops(), 2));
    let seconds: Vec<A> = flat(terms(&leaves_tiny(), &core_ops(), if q { 1 } else { 2 }));
    let i = inputs(&['a', 'b'], if q { 3 } else { 4 });
    ctor_builder::<Cs>(rep, &firsts, &seconds, &i, Skip::None);
    ctor_builder::<Bs>(rep, &firsts, &seconds, &i, Skip::None);
    regex_builder::<Cs>(rep, &firsts, &seconds, &i, Skip::None);
    regex_builder::<Bs>(rep, &firsts, &seconds, &i, Skip::None);
    let firsts = flat(terms(&leaves_tiny(), &core_ops(), 3));
    ctor_builder::<Cs>(rep, &firsts, &[lit("a"), lit("b")], &i, Skip::None);
    regex_builder::<Cs>(rep, &firsts, &[lit("a"), lit("b")], &i, Skip::None);
    // text to skip before either part
    let i = skip_inputs(if q { 4 } else { 5 });
    let firsts: Vec<A> = flat(terms(&leaves_all(), &Ops::default(), 1));
    let seconds: Vec<A> = flat(terms(&leaves_small(), &Ops::default(), 1));
    for k in [Skip::Space, Skip::Dash, Skip::Pairs] {
        ctor_builder::<Pc>(rep, &firsts, &seconds, &i, k);
        ctor_builder::<Pb>(rep, &firsts, &seconds, &i, k);
        regex_builder::<Pc>(rep, &firsts, &seconds, &i, k);
        regex_builder::<Pb>(rep, &firsts, &seconds, &i, k);
    }
    eq_form(rep);
}
