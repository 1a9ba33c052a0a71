//! P13: searching returns the leftmost non-overlapping matches.
//!
//! The reference knows only what one match attempt at each position of a fresh
//! context does, and derives every search from that table.

use std::sync::Arc;
use mc_ast::build::*;
use mc_ast::enumerate::*;
use mc_ast::families::*;
use mc_ast::model::Skip;
use mc_ast::run::{BUDGET, Pat};
use mc_ast::*;
use mc_core::{Local, Rep, guarded, hash64, set_budget};
use neure::ctor::{Extract, Handler};
use neure::ctx::MatchMulti;
use neure::err::Error;
use neure::span::Span;

type Sp = (usize, usize);

/// A borrowed pattern.
#[derive(Clone, Copy)]
pub struct R<'p, C>(pub &'p Bx<C>);

impl<C: Hc> neure::regex::Regex<C> for R<'_, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}

/// What each attempt does: range and new position.
struct Table {
    at: Vec<Option<(usize, usize, usize)>>,
    len: usize,
    next: Vec<usize>,
}

impl Table {
    fn new<C: Hc>(p: &Pat<C>, s: &'static str, skip: Skip) -> Result<Table, String> {
        let len = s.len();
        let mut at = vec![None; len + 1];
        let mut next = vec![len; len + 1];
        for i in 0..=len {
            if C::CHARS && !s.is_char_boundary(i) {
                continue;
            }
            let r = p.rx(s, i, skip)?;
            at[i] = r.span.map(|(b, l)| (b, l, r.at));
            next[i] = (i + 1..=len).find(|j| !C::CHARS || s.is_char_boundary(*j)).unwrap_or(len);
        }
        Ok(Table { at, len, next })
    }

    /// first non-empty match at or after `p`
    fn find(&self, mut p: usize) -> Option<(Sp, usize)> {
        while p < self.len {
            match self.at[p] {
                Some((b, l, e)) if l > 0 => return Some(((b, l), e)),
                _ => p = self.next[p],
            }
        }
        None
    }

    fn all(&self, mut p: usize) -> Vec<(Sp, usize)> {
        let mut v = vec![];
        while let Some((s, e)) = self.find(p) {
            v.push((s, e));
            p = e;
        }
        v
    }

    fn seq(&self, mut p: usize) -> Vec<(Sp, usize)> {
        let mut v = vec![];
        while p < self.len {
            match self.at[p] {
                Some((b, l, e)) if l > 0 => {
                    v.push(((b, l), e));
                    p = e;
                }
                _ => break,
            }
        }
        v
    }
}

fn sp(s: Span) -> Sp {
    (s.beg(), s.len())
}

type Texts<C> = fn(&mut C, &Bx<C>, u8) -> Vec<Vec<u8>>;

fn one<C: Hc>(rep: &Rep, t: &A, inputs: &[&'static str], skips: &[Skip], texts: Texts<C>, l: &mut Local)
where
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    let pat = Pat::<C>::new(t);
    for &skip in skips {
        for &s in inputs {
            let table = match Table::new(&pat, s, skip) {
                Ok(t) => t,
                Err(e) => {
                    rep.violation(&format!("attempt {t:?}:{s:?}"), &format!("pattern {t:?} on {s:?}: {e}"));
                    continue;
                }
            };
            for at in starts(s, usize::MAX) {
                if rep.stopped() {
                    return;
                }
                let all = table.all(at);
                let seq = table.seq(at);
                let spans = |v: &[(Sp, usize)]| v.iter().map(|x| x.0).collect::<Vec<_>>();
                let bad = |what: &str, text: String| {
                    rep.violation(
                        &format!("{what}:{t:?}:{s:?}@{at}:{skip:?}:{}", C::NAME),
                        &format!("{what}: pattern {t:?}, {} input {s:?}, start {at}, skip {skip:?}: {text}", C::NAME),
                    );
                };
                let ctx = || {
                    let mut c = C::mk(s, skip);
                    c.set_offset(at);
                    set_budget(BUDGET);
                    c
                };
                l.states += 1;
                if all.is_empty() { l.failed += 1 } else { l.matched += 1 }
                l.outcomes.insert(hash64(&(spans(&all), spans(&seq))));
                // find
                let want = all.first().map(|x| x.0);
                let end = all.first().map(|x| x.1).unwrap_or(s.len());
                let r = guarded(|| {
                    let mut c = ctx();
                    let r = c.find::<Span>(R(&pat.p)).map(sp);
                    (r, c.offset())
                });
                l.traces += 1;
                if r != Ok((want, end)) {
                    bad("find", format!("expected {want:?} and position {end}, got {r:?}"));
                }
                // find_all, dropped after each number of items, and past its end
                for take in 0..=all.len() + 2 {
                    let r = guarded(|| {
                        let mut c = ctx();
                        let mut v = vec![];
                        {
                            let mut it = c.find_all::<Span>(R(&pat.p));
                            for _ in 0..take {
                                v.push(it.next().map(sp));
                            }
                        }
                        (v, c.offset())
                    });
                    l.traces += 1;
                    let w: Vec<Option<Sp>> = (0..take).map(|i| all.get(i).map(|x| x.0)).collect();
                    let e = if take == 0 {
                        at
                    } else if take > all.len() {
                        s.len()
                    } else {
                        all[take - 1].1
                    };
                    if r != Ok((w.clone(), e)) {
                        bad("find_all", format!("{take} steps: expected {w:?} and position {e}, got {r:?}"));
                    }
                    // the rest is found by a second search from there
                    if take <= all.len() && take > 0 {
                        let r = guarded(|| {
                            let mut c = ctx();
                            let n = c.find_all::<Span>(R(&pat.p)).take(take).count();
                            let rest: Vec<Sp> = c.find_all::<Span>(R(&pat.p)).map(sp).collect();
                            (n, rest)
                        });
                        l.traces += 1;
                        let rest = spans(&all[take..]);
                        if r != Ok((take, rest.clone())) {
                            bad("resumed find_all", format!("after {take}: expected {rest:?}, got {r:?}"));
                        }
                    }
                }
                // match_seq
                for take in 0..=seq.len() + 2 {
                    let r = guarded(|| {
                        let mut c = ctx();
                        let mut v = vec![];
                        {
                            let mut it = c.match_seq::<Span>(R(&pat.p));
                            for _ in 0..take {
                                v.push(it.next().map(sp));
                            }
                        }
                        (v, c.offset())
                    });
                    l.traces += 1;
                    let w: Vec<Option<Sp>> = (0..take).map(|i| seq.get(i).map(|x| x.0)).collect();
                    let pos_ok = |o: usize| {
                        if take == 0 {
                            o == at
                        } else if take <= seq.len() {
                            o == seq[take - 1].1
                        } else {
                            o <= s.len()
                        }
                    };
                    if !r.as_ref().is_ok_and(|(v, o)| *v == w && pos_ok(*o)) {
                        bad("match_seq", format!("{take} steps: expected {w:?}, got {r:?}"));
                    }
                }
                // the text of each match
                for (kind, list) in [(0u8, &all), (1, &seq)] {
                    let r = guarded(|| texts(&mut ctx(), &pat.p, kind));
                    let w: Vec<Vec<u8>> = list.iter().map(|x| s.as_bytes()[x.0.0..x.0.0 + x.0.1].to_vec()).collect();
                    l.traces += 1;
                    if r.as_ref() != Ok(&w) {
                        bad("text of matches", format!("expected {w:?}, got {r:?}"));
                    }
                }
                // custom processing: the same search, with the handler rejecting every other match
                let r = guarded(|| {
                    let mut c = ctx();
                    let step = |c: &mut C, v: Result<Span, Error>| match v {
                        Ok(v) if !v.is_empty() => Some(v),
                        _ => {
                            c.inc(1);
                            while c.offset() < c.len() && c.peek().is_err() {
                                c.inc(1);
                            }
                            None
                        }
                    };
                    let mut n = 0;
                    let map = move |_: &C, s: &Span| {
                        n += 1;
                        if n % 2 == 1 { Err(Error::Uid(1)) } else { Ok(sp(*s)) }
                    };
                    let first = c.clone().find_with(R(&pat.p), step, map);
                    let v: Vec<Sp> = c.find_all_with(R(&pat.p), step, map).collect();
                    (first, v)
                });
                let w: Vec<Sp> = all.iter().skip(1).step_by(2).map(|x| x.0).collect();
                l.traces += 1;
                if r != Ok((w.first().copied(), w.clone())) {
                    bad("custom search", format!("expected {w:?}, got {r:?}"));
                }
            }
        }
    }
}

fn text_of(c: &mut Cs, p: &Bx<Cs>, kind: u8) -> Vec<Vec<u8>> {
    if kind == 0 {
        c.find_all::<&str>(R(p)).map(|s| s.as_bytes().to_vec()).collect()
    } else {
        c.match_seq::<&str>(R(p)).map(|s| s.as_bytes().to_vec()).collect()
    }
}
fn text_of_b(c: &mut Bs, p: &Bx<Bs>, kind: u8) -> Vec<Vec<u8>> {
    if kind == 0 {
        c.find_all::<&[u8]>(R(p)).map(|s| s.to_vec()).collect()
    } else {
        c.match_seq::<&[u8]>(R(p)).map(|s| s.to_vec()).collect()
    }
}
fn text_of_pc(c: &mut Pc, p: &Bx<Pc>, kind: u8) -> Vec<Vec<u8>> {
    if kind == 0 {
        c.find_all::<&str>(R(p)).map(|s| s.as_bytes().to_vec()).collect()
    } else {
        c.match_seq::<&str>(R(p)).map(|s| s.as_bytes().to_vec()).collect()
    }
}
fn text_of_pb(c: &mut Pb, p: &Bx<Pb>, kind: u8) -> Vec<Vec<u8>> {
    if kind == 0 {
        c.find_all::<&[u8]>(R(p)).map(|s| s.to_vec()).collect()
    } else {
        c.match_seq::<&[u8]>(R(p)).map(|s| s.to_vec()).collect()
    }
}

fn run<C: Hc>(rep: &Rep, name: &str, terms: &[A], inputs: &[&'static str], skips: &[Skip], texts: Texts<C>)
where
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    let terms: Vec<A> = terms
        .iter()
        .filter(|t| !mc_ast::sweep::has_dyn(t))
        .cloned()
        .collect();
    rep.explore(&format!("{name} / {}", C::NAME), &terms, |rep, t, l| {
        one::<C>(rep, t, inputs, skips, texts, l);
        rep.sample(|| format!("{t:?} over {} inputs", inputs.len()));
    });
}

pub fn p13(rep: &Rep) {
    let q = rep.quick();
    let no = [Skip::None];
    rep.note("the table of single attempts is taken from fresh contexts at every item boundary; what single attempts do is the subject of the other properties");
    rep.note("skip patterns in this check are runs of one character");
    let t = flat(terms(&leaves_all(), &all_ops(), if q { 2 } else { 3 }));
    let i = inputs(&['a', 'b'], if q { 4 } else { 4 });
    run::<Cs>(rep, "all operators, all leaves", &t, &i, &no, text_of);
    run::<Bs>(rep, "all operators, all leaves", &t, &i, &no, text_of_b);
    let t = flat(terms(&leaves_tiny(), &all_ops(), 3));
    let i = inputs(&['a', 'b'], if q { 4 } else { 6 });
    run::<Cs>(rep, "all operators, size 3", &t, &i, &no, text_of);
    run::<Bs>(rep, "all operators, size 3", &t, &i, &no, text_of_b);
    let t = flat(terms(&leaves_tiny(), &core_ops(), if q { 4 } else { 5 }));
    let i = inputs(&['a', 'b'], if q { 3 } else { 4 });
    run::<Cs>(rep, "core operators, nested", &t, &i, &no, text_of);
    let t = flat(terms(&leaves_wide(), &all_ops(), 3));
    let i = inputs(&['a', 'é', '好', '𝄞'], if q { 2 } else { 3 });
    run::<Cs>(rep, "wide characters, size 3", &t, &i, &no, text_of);
    let wide = [lit("é"), lit("a"), l(Leaf::Once(U::Any)), l(Leaf::Many1(U::Ch('é')))];
    let t = flat(terms(&wide, &core_ops(), if q { 3 } else { 4 }));
    let i = inputs(&['a', 'é'], if q { 4 } else { 5 });
    run::<Cs>(rep, "wide characters, longer inputs", &t, &i, &no, text_of);
    let skips = [Skip::Space, Skip::Dash];
    let t = flat(terms(&leaves_all(), &all_ops(), 2));
    let mut i = inputs(&['a', 'b', ' '], if q { 3 } else { 5 });
    i.extend(inputs(&['a', '-'], 4));
    run::<Pc>(rep, "skip policy", &t, &i, &skips, text_of_pc);
    run::<Pb>(rep, "skip policy", &t, &i, &skips, text_of_pb);
    let t = flat(terms(&leaves_tiny(), &core_ops(), 3));
    run::<Pc>(rep, "skip policy, size 3", &t, &i, &skips, text_of_pc);
    // many matches
    let long: Vec<&'static str> = [20usize, 31, 32, 33, 64, 65, 127, 128, 200, 255, 256, 257, 300]
        .iter()
        .flat_map(|n| {
            let gap = "x".repeat(*n);
            ["ab".repeat(*n), "a".repeat(*n), "aab".repeat(*n), "好".repeat(*n) + "a", gap.clone() + "a" + &gap + "ab" + &gap, gap]
        })
        .map(|s| &*s.leak())
        .collect();
    let t = flat(terms(&leaves_tiny(), &all_ops(), 2));
    many::<Cs>(rep, "long inputs", &t, &long);
    many::<Bs>(rep, "long inputs", &t, &long);
    let far: Vec<&'static str> = [65535usize, 65536, 70000]
        .iter()
        .flat_map(|n| {
            let gap = "x".repeat(*n);
            [gap.clone() + "a", gap.clone() + "aba" + &gap + "b", "a".repeat(4) + &gap + "ab"]
        })
        .map(|s| &*s.leak())
        .collect();
    let mut far = far;
    far.extend(["ab".repeat(66_000), "ba".repeat(32_770) + "a"].map(|s| &*s.leak()));
    let t: Vec<A> = [lit("a"), lit("ab"), l(Leaf::Many1(U::Ch('a'))), l(Leaf::Once(U::AOrB)), Arc::new(Ast::Then(lit("a"), lit("b"))), l(Leaf::End)].into();
    many::<Cs>(rep, "far apart", &t, &far);
    many::<Bs>(rep, "far apart", &t, &far);
    let t = flat(terms(&leaves_all(), &core_ops(), 2));
    let x = crate::huge::texts(&["ab", "aéa", "bba", "xaxb", "好𝄞a", "ab aa"]);
    crate::huge::family::<Cs>(rep, &t, &x, &no, true);
    crate::huge::family::<Bs>(rep, &t, &x, &no, true);
    crate::huge::family::<Pc>(rep, &t, &x[5..], &skips, true);
}

/// Matches that are many or far apart.
fn many<C: Hc>(rep: &Rep, name: &str, terms: &[A], texts: &[&'static str])
where
    Extract<Span>: Handler<C, Out = Span, Error = Error>,
{
    rep.explore(&format!("{name} / {}", C::NAME), terms, |rep, t, l| {
        let pat = Pat::<C>::new(t);
        for s in texts {
            let r = guarded(|| {
                let tab = Table::new(&pat, s, Skip::None)?;
                let w: Vec<Sp> = tab.all(0).iter().map(|x| x.0).collect();
                let mut c = C::mk(s, Skip::None);
                set_budget(BUDGET);
                let v: Vec<Sp> = c.find_all::<Span>(R(&pat.p)).map(sp).collect();
                // the same by single searches
                let mut d = C::mk(s, Skip::None);
                set_budget(BUDGET);
                let mut u: Vec<Sp> = vec![];
                while let Some(x) = d.find::<Span>(R(&pat.p)) {
                    u.push(sp(x));
                    if u.len() > w.len() {
                        break;
                    }
                }
                Ok::<_, String>((v == w, u == w, c.offset(), w.len()))
            });
            l.states += 1;
            l.traces += 1;
            l.transitions += s.len() as u64;
            match r {
                Ok(Ok((true, true, at, n))) if at == s.len() => {
                    if n > 0 { l.matched += 1 } else { l.failed += 1 }
                }
                r => rep.violation(
                    &format!("{name} {t:?}:{}:{}", s.len(), C::NAME),
                    &format!("find_all and find of {t:?} on a text of {} bytes starting {:?}: {r:?}", s.len(), &s[..6]),
                ),
            }
        }
    });
}
