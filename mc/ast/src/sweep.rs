//! The common exploration: every term of a family, in every kind of context,
//! on every input, from every start position, compared with the reference
//! semantics (or with the law a property states).

use crate::build::Hc;
use crate::model::{Fault, Model, Skip};
use crate::run::{Pat, model};
use crate::{A, Ast, V};
use mc_core::{Local, Rep, hash64};

/// What is compared on each execution.
#[derive(Clone, Copy, Default)]
pub struct Asp {
    /// range of a match: begins at the attempt, ends at the position
    pub span: bool,
    /// failed matches restore; assertions always do
    pub restore_rx: bool,
    /// failed constructions restore
    pub restore_ct: bool,
    /// matching agrees with the model
    pub rx: bool,
    /// constructing agrees with the model (value and position)
    pub ct: bool,
    /// matching and constructing agree with each other
    pub agree: bool,
    /// handler calls
    pub log: bool,
}

pub struct Fam<'f> {
    pub name: &'f str,
    pub terms: &'f [A],
    pub inputs: &'f [&'static str],
    pub skips: &'f [Skip],
    pub max_start: usize,
    /// starts are taken from here on
    pub min_start: fn(&str) -> usize,
}

/// The first start position of every input but padded ones.
pub fn at_zero(_: &str) -> usize {
    0
}

/// The length of the padding.
pub fn after_pad(s: &str) -> usize {
    s.bytes().take_while(|b| *b == b'x').count()
}

/// Long inputs are described.
fn show(s: &str) -> String {
    if s.len() < 1200 {
        format!("{s:?}")
    } else {
        let n = after_pad(s);
        format!("x*{n}+{:?}", &s[n..])
    }
}

fn eq_mod(m: &Model, a: &V, b: &V) -> bool {
    match (a, b) {
        (V::T(7, x), V::T(7, y)) => match (&**x, &**y) {
            (V::S(b1, l1), V::S(b2, l2)) => {
                b1 == b2
                    && m.skip_from((b1 + l1) as usize) == m.skip_from((b2 + l2) as usize)
            }
            (x, y) => eq_mod(m, x, y),
        },
        (V::S(..), V::S(..)) => a == b,
        (V::P(a, b), V::P(c, d)) => eq_mod(m, a, c) && eq_mod(m, b, d),
        (V::L(x), V::L(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| eq_mod(m, a, b)),
        (V::F(x), V::F(y)) => {
            x.len() == y.len()
                && x.iter().zip(y).all(|(a, b)| match (a, b) {
                    (None, None) => true,
                    (Some(a), Some(b)) => eq_mod(m, a, b),
                    _ => false,
                })
        }
        (V::O(None), V::O(None)) => true,
        (V::O(Some(a)), V::O(Some(b))) => eq_mod(m, a, b),
        (V::T(t, a), V::T(u, b)) => t == u && eq_mod(m, a, b),
        _ => false,
    }
}

pub fn has_dyn(a: &Ast) -> bool {
    a.any(&mut |x| matches!(x, Ast::Dyn(..)))
}

pub fn sweep<C: Hc>(rep: &Rep, f: &Fam, asp: Asp) {
    if f.terms.is_empty() {
        return;
    }
    let name = format!("{} / {}", f.name, C::NAME);
    let none = [Skip::None];
    let skips = if C::NAME.contains("skip") { f.skips } else { &none };
    rep.explore(&name, f.terms, |rep, t, loc| {
        one_term::<C>(rep, f, skips, t, asp, loc);
    });
}

fn one_term<C: Hc>(rep: &Rep, f: &Fam, skips: &[Skip], t: &A, asp: Asp, loc: &mut Local) {
    let pat = Pat::<C>::new(t);
    let dynamic = has_dyn(t);
    let mut behaviour: u64 = 0;
    for &skip in skips {
        for &s in f.inputs {
            let m = model::<C>(s, skip, Fault::default());
            let first = (f.min_start)(s);
            for at in (first..=s.len().min(first.saturating_add(f.max_start))).filter(|i| s.is_char_boundary(*i)) {
                loc.states += 1;
                let bad = |what: &str, text: String| {
                    let key = format!("{what}:{t:?}:{}@{at}:{skip:?}:{}", show(s), C::NAME);
                    rep.violation(
                        &key,
                        &format!(
                            "{what}: pattern {t:?}, {} input {}, start {at}, skip {skip:?}: {text}",
                            C::NAME,
                            show(s)
                        ),
                    );
                };
                let mut end_rx = None;
                if !dynamic && (asp.span || asp.restore_rx || asp.rx || asp.agree) {
                    let r = match pat.rx(s, at, skip) {
                        Ok(r) => r,
                        Err(e) => {
                            bad("match", e);
                            continue;
                        }
                    };
                    loc.traces += 1;
                    behaviour = behaviour.rotate_left(5) ^ hash64(&r);
                    match r.span {
                        Some((b, l)) => {
                            loc.matched += 1;
                            end_rx = Some(r.at);
                            if asp.span {
                                let want = m.skip_from(at);
                                if b != want || b + l != r.at || r.at > s.len() {
                                    bad(
                                        "range",
                                        format!(
                                            "reported {b}+{l}, expected begin {want} and end at the new position {}",
                                            r.at
                                        ),
                                    );
                                } else if C::CHARS
                                    && !(s.is_char_boundary(b) && s.is_char_boundary(b + l))
                                {
                                    bad("range", format!("{b}+{l} is not on character boundaries"));
                                }
                            }
                        }
                        None => {
                            loc.failed += 1;
                            if asp.restore_rx && r.at != at {
                                bad("restore", format!("failed match left position {}", r.at));
                            }
                        }
                    }
                    if asp.rx {
                        let want = m.rx(t, at);
                        let got = r.span.map(|_| r.at);
                        let same = match (want, got) {
                            (Some(x), Some(y)) => m.skip_from(x) == m.skip_from(y),
                            (None, None) => true,
                            _ => false,
                        };
                        if !same {
                            bad("match", format!("ends at {got:?}, expected {want:?}"));
                        }
                    }
                    if asp.restore_rx {
                        match pat.assert(s, at, skip) {
                            Ok((ok, p)) => {
                                if p != at || ok != r.span.is_some() {
                                    bad("assert", format!("gave {ok} and left position {p}"));
                                }
                            }
                            Err(e) => bad("assert", e),
                        }
                        match pat.is_mat(s, at, skip) {
                            Ok((ok, p)) => {
                                if ok != r.span.is_some() || p != r.at {
                                    bad("is_mat", format!("gave {ok} and left position {p}"));
                                }
                            }
                            Err(e) => bad("is_mat", e),
                        }
                    }
                }
                // called without the help of the context
                if (asp.restore_rx || asp.restore_ct) && skip == Skip::None {
                    match pat.called(s, at, Fault::default()) {
                        Ok(r) => {
                            let on = [asp.restore_rx && !dynamic, asp.restore_ct];
                            for ((n, (ok, p)), on) in ["try_parse", "construct"].iter().zip(r).zip(on) {
                                if on && !ok && p != at {
                                    bad("direct call", format!("failed {n} left position {p}"));
                                }
                            }
                        }
                        Err(e) => bad("direct calls", e),
                    }
                }
                if asp.ct || asp.restore_ct || asp.agree || asp.log {
                    let mut log = vec![];
                    let r = match pat.ct(s, at, skip, Fault::default(), &mut log) {
                        Ok(r) => r,
                        Err(e) => {
                            bad("construct", e);
                            continue;
                        }
                    };
                    loc.traces += 1;
                    behaviour = behaviour.rotate_left(5) ^ hash64(&r);
                    if r.val.is_some() {
                        loc.matched += 1;
                    } else {
                        loc.failed += 1;
                        if asp.restore_ct && r.at != at {
                            bad("restore", format!("failed construct left position {}", r.at));
                        }
                    }
                    if asp.agree && !dynamic {
                        let got = r.val.as_ref().map(|_| r.at);
                        // skippable text may be left for later
                        let norm = |e: Option<usize>| e.map(|e| m.skip_from(e));
                        if norm(got) != norm(end_rx) {
                            bad(
                                "agreement",
                                format!("matching ends at {end_rx:?}, constructing at {got:?}"),
                            );
                        }
                        // the same patterns called without the help of the context
                        if skip == Skip::None {
                            match pat.direct(s, at) {
                                Ok(d) => {
                                    if d != (end_rx, end_rx, got) {
                                        bad("direct calls", format!("parse, try_parse and construct end at {d:?}, matching at {end_rx:?}"));
                                    }
                                }
                                Err(e) => bad("direct calls", e),
                            }
                        }
                    }
                    if asp.ct {
                        let mut mlog = vec![];
                        let want = m.ct(t, at, &mut mlog);
                        let same = match (&want, &r.val) {
                            (Some((v, e)), Some(w)) => {
                                m.skip_from(*e) == m.skip_from(r.at) && eq_mod(&m, v, w)
                            }
                            (None, None) => true,
                            _ => false,
                        };
                        if !same {
                            bad(
                                "construct",
                                format!(
                                    "gave {:?} ending at {}, expected {want:?}",
                                    r.val, r.at
                                ),
                            );
                        }
                    }
                    if asp.log
                        && let Some(v) = &r.val
                    {
                        let mut leaves = vec![];
                        v.leaves(&mut leaves);
                        // Leaves of abandoned alternatives or of dropped parts may
                        // have been seen too; when the reference has none of those,
                        // the calls are exactly the leaves of the value.
                        let mut mlog = vec![];
                        let _ = m.ct(t, at, &mut mlog);
                        let ok = if mlog == leaves && skip == Skip::None {
                            leaves == log
                        } else {
                            let mut it = log.iter();
                            leaves.iter().all(|x| it.any(|y| y == x))
                        };
                        if !ok {
                            bad("handler", format!("was called on {log:?}, the value holds {leaves:?}"));
                        }
                    }
                }
            }
        }
    }
    if loc.outcomes.insert(behaviour) && loc.states > 20 {
        rep.sample(|| {
            let s = *f.inputs.last().unwrap();
            let mut log = vec![];
            let r = pat.ct(s, 0, skips[0], Fault::default(), &mut log);
            format!("{t:?} on {} ({}): {:?}", show(s), C::NAME, r)
        });
    }
}
