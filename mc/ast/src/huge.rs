//! Texts around the positions 2^31 and 2^32: a pattern does there what it does behind a
//! short padding. A law; the code is compared with itself.

use mc_ast::build::*;
use mc_ast::model::Skip;
use mc_ast::run::{BUDGET, Pat};
use mc_ast::*;
use mc_core::huge::huge;
use mc_core::{Local, Rep, guarded, hash64, set_budget};
use crate::search::R;
use neure::ctor::{Extract, Handler};
use neure::ctx::MatchMulti;
use neure::err::Error;
use neure::span::Span;

/// A text behind eight bytes, and the same far away.
pub struct Far {
    text: &'static str,
    near: &'static str,
    far: Vec<(&'static str, usize)>,
}

const PAD: usize = 8;

pub fn texts(v: &[&'static str]) -> Vec<Far> {
    v.iter()
        .map(|&text| Far {
            text,
            near: String::leak("\0".repeat(PAD) + text),
            far: huge(text),
        })
        .collect()
}

/// What every attempt does, with positions relative to the text.
#[derive(PartialEq, Eq, Debug, Hash)]
struct Seen {
    span: Option<(usize, usize)>,
    at: usize,
    mat: (bool, usize),
    direct: (Option<usize>, Option<usize>, Option<usize>),
    found: Option<Vec<(usize, usize)>>,
}

fn rel(p: usize, base: usize) -> usize {
    p.wrapping_sub(base)
}

fn seen<C: Hc>(p: &Pat<C>, s: &'static str, base: usize, i: usize, skip: Skip, find: bool) -> Result<Seen, String>
where
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    let r = p.rx(s, base + i, skip)?;
    let m = p.is_mat(s, base + i, skip)?;
    let d = p.direct(s, base + i)?;
    let x = |o: Option<usize>| o.map(|o| rel(o, base));
    let found = if find {
        let mut c = C::mk(s, skip);
        c.set_offset(base + i);
        set_budget(BUDGET);
        // no more than an endless search needs to be seen
        Some(guarded(|| c.find_all::<Span>(R(&p.p)).take(20).map(|s: Span| (rel(s.beg(), base), s.len())).collect())?)
    } else {
        None
    };
    Ok(Seen {
        span: r.span.map(|(b, l)| (rel(b, base), l)),
        at: rel(r.at, base),
        mat: (m.0, rel(m.1, base)),
        direct: (x(d.0), x(d.1), x(d.2)),
        found,
    })
}

fn one<C: Hc>(rep: &Rep, t: &A, texts: &[Far], skips: &[Skip], find: bool, l: &mut Local)
where
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    let p = Pat::<C>::new(t);
    for f in texts {
        for i in (0..=f.text.len()).filter(|i| f.text.is_char_boundary(*i)) {
            for &skip in skips {
                if rep.stopped() {
                    return;
                }
                let want = match seen(&p, f.near, PAD, i, skip, find) {
                    Ok(w) => w,
                    // other families tell about those
                    Err(_) => continue,
                };
                if want.span.is_some() { l.matched += 1 } else { l.failed += 1 }
                l.outcomes.insert(hash64(&want));
                for &(s, base) in &f.far {
                    l.states += 1;
                    l.transitions += 4;
                    l.traces += 1;
                    let got = seen(&p, s, base, i, skip, find);
                    if got.as_ref() != Ok(&want) {
                        rep.violation(
                            &format!("huge {t:?}:{:?}:{i}:{base}", f.text),
                            &format!("{t:?} on {:?} at position {base}+{i}, {skip:?}: {got:?}, but behind {PAD} bytes {want:?}", f.text),
                        );
                    }
                }
            }
        }
    }
}

/// `find`: the searches, too.
pub fn family<C: Hc>(rep: &Rep, terms: &[A], texts: &[Far], skips: &[Skip], find: bool)
where
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    if texts.iter().any(|t| t.far.is_empty()) {
        rep.note("no memory for inputs of 4 GiB: positions around 2^32 are left out");
        return;
    }
    rep.explore(&format!("positions around 2^31 and 2^32 / {}", C::NAME), terms, |rep, t, l| one::<C>(rep, t, texts, skips, find, l));
}
