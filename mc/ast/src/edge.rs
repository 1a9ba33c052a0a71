//! Edges that the bounded families do not reach: positions beyond the end,
//! every character as a literal, skip classes of the contexts themselves,
//! lists and tables longer than any small integer counts.

use crate::props::{long_fam, modelled, plain};
use mc_ast::build::{Bs, Cs, Hc, Hd};
use mc_ast::families::*;
use mc_ast::model::Skip;
use mc_ast::sweep::{Fam, sweep};
use mc_ast::*;
use mc_core::{Local, Rep, guarded};
use neure::ctor::CtorOps;
use neure::ctx::*;
use neure::regex::{self, Regex};
use std::sync::Arc;

fn l(l: Leaf) -> A {
    Arc::new(Ast::L(l))
}

/// Nothing is left beyond the end: not the end either.
pub fn beyond(rep: &Rep) {
    fn one<C: Hc>(rep: &Rep, s: &'static str, at: usize, l: &mut Local) {
        let yes = Some((at, 0));
        let mut see = |what: &str, p: &dyn Regex<C>, want: Option<(usize, usize)>| {
            struct D<'p, C>(&'p dyn Regex<C>);
            impl<C> Regex<C> for D<'_, C> {
                fn try_parse(&self, c: &mut C) -> Result<neure::span::Span, neure::err::Error> {
                    self.0.try_parse(c)
                }
            }
            l.states += 1;
            l.traces += 1;
            if want.is_some() { l.matched += 1 } else { l.failed += 1 }
            let got = guarded(|| {
                let mut c = C::mk(s, Skip::None);
                c.set_offset(at);
                let a = c.try_mat(&D(p)).ok().map(|x| (x.beg(), x.len()));
                let o = c.offset();
                let b = c.is_mat(&D(p));
                (a, o, b, c.offset())
            });
            if got != Ok((want, at, want.is_some(), at)) {
                rep.violation(
                    &format!("beyond:{what}:{s:?}@{at}:{}", C::NAME),
                    &format!("{what} at {at}, beyond the end of {} input {s:?}: {got:?}, expected {want:?} and position {at}", C::NAME),
                );
            }
        };
        see("start", &regex::start(), None);
        see("end", &regex::end(), None);
        see("empty", &regex::empty(), yes);
        see("fail", &regex::fail(), None);
        see("not end", &regex::not(regex::end()), yes);
        see("not start", &regex::not(regex::start()), yes);
        see("peek empty", &regex::peek(regex::empty()), yes);
        see("peek end", &regex::peek(regex::end()), None);
        see("not fail", &regex::not(regex::fail()), yes);
        for n in [1, 2, 255, usize::MAX] {
            see(&format!("consume {n}"), &regex::consume(n), None);
        }
        for t in ["a", "ab", "b", "é"] {
            let p = C::text(t.as_bytes().to_vec());
            see(&format!("literal {t}"), &p, None);
            see(&format!("not literal {t}"), &regex::not(p), yes);
        }
        see("a choice of the end", &CtorOps::<'static, C>::or(regex::end(), regex::empty()), yes);
    }
    rep.explore("beyond the end", &["", "a", "ab", "abab"], |rep, s, l| {
        for d in [1usize, 2, 3, 255, 256, 65536] {
            one::<Cs>(rep, s, s.len() + d, l);
            one::<Bs>(rep, s, s.len() + d, l);
        }
        for at in [usize::MAX / 2, usize::MAX - 1, usize::MAX] {
            one::<Cs>(rep, s, at, l);
            one::<Bs>(rep, s, at, l);
        }
    });
}

/// Every character as a literal, against itself and those it may be confused with.
pub fn every_char(rep: &Rep) {
    rep.explore_n("every character as a literal", 0x1100, |rep, hi, l| {
        for lo in 0..0x100u32 {
            let Some(c) = char::from_u32(hi as u32 * 0x100 + lo) else { continue };
            let x = c as u32;
            let mut other: Vec<char> = [x ^ 1, x ^ 2, x ^ 0x20, x ^ 0x40, x ^ 0x80, x ^ 0x100, x ^ 0x1000, x ^ 0x10000, x & 0x7f, x & 0xff, x & 0xffff]
                .into_iter()
                .filter_map(char::from_u32)
                .collect();
            other.extend(c.to_lowercase());
            other.extend(c.to_uppercase());
            other.push(c);
            let lit = c.to_string();
            for d in other {
                let t = d.to_string();
                let n = (c == d).then_some((0, lit.len()));
                let two = t.clone() + &lit;
                l.states += 1;
                l.traces += 1;
                if n.is_some() { l.matched += 1 } else { l.failed += 1 }
                let got = guarded(|| {
                    let p = regex::literal(lit.as_str());
                    let mut a = CharsCtx::new(&t);
                    let r = a.try_mat(&p).ok().map(|x| (x.beg(), x.len()));
                    let mut b = CharsCtx::new(&two);
                    b.set_offset(t.len());
                    let s = b.try_mat(&p).ok().map(|x| (x.beg(), x.len()));
                    let mut e = BytesCtx::new(t.as_bytes());
                    let u = e.try_mat(&regex::literal(lit.as_bytes())).ok().map(|x| (x.beg(), x.len()));
                    (r, a.offset(), s, b.offset(), u, e.offset())
                });
                let e = n.map_or(0, |n| n.1);
                let want = (n, e, Some((t.len(), lit.len())), two.len(), n, e);
                if got != Ok(want) {
                    rep.violation(
                        &format!("literal {c:?} on {d:?}"),
                        &format!("the literal {c:?} on {t:?}, on {two:?} at {}, and its bytes on those of {t:?}: {got:?}, expected {want:?}", t.len()),
                    );
                }
            }
        }
    });
}

/// The skipping contexts that come ready made: what they skip is their class.
pub fn ready_made(rep: &Rep) {
    let ascii = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c');
    let see = |rep: &Rep, l: &mut Local, what: &str, t: &str, at: usize, skipped: bool, to: usize, got: Result<(Option<(usize, usize)>, usize), String>| {
        l.states += 1;
        l.traces += 1;
        if skipped { l.matched += 1 } else { l.failed += 1 }
        let want = if skipped { (Some((to, 1)), to + 1) } else { (None, at) };
        if got != Ok(want) {
            rep.violation(
                &format!("{what}:{:?}…{}@{at}", t.chars().take(6).collect::<String>(), t.len()),
                &format!("{what} on {t:.80?} ({} bytes) at {at}: {got:?}, expected {want:?}", t.len()),
            );
        }
    };
    macro_rules! run {
        ($c:expr, $at:expr, $p:expr) => {
            guarded(|| {
                let mut c = $c;
                c.set_offset($at);
                let r = c.try_mat(&$p).ok().map(|x| (x.beg(), x.len()));
                (r, c.offset())
            })
        };
    }
    let both = |rep: &Rep, l: &mut Local, c: char, pre: &str, n: usize, mid: &str| {
        let pad: String = std::iter::repeat_n(c, n).collect();
        let t = format!("{pre}{pad}{mid}a");
        let (at, to) = (pre.len(), t.len() - 1);
        let fine = |f: &dyn Fn(char) -> bool| t[at..to].chars().all(f);
        see(rep, l, "skip_ascii_whitespace", &t, at, fine(&ascii), to, run!(CharsCtx::new(&t).skip_ascii_whitespace(), at, "a"));
        see(rep, l, "skip_whitespace", &t, at, fine(&char::is_whitespace), to, run!(CharsCtx::new(&t).skip_whitespace(), at, "a"));
        let b = t.as_bytes();
        see(rep, l, "skip_ascii_whitespace of bytes", &t, at, fine(&ascii), to, run!(BytesCtx::new(b).skip_ascii_whitespace(), at, b"a"));
    };
    rep.explore_n("what the ready-made contexts skip", 0x1100, |rep, hi, l| {
        for lo in 0..0x100u32 {
            let Some(c) = char::from_u32(hi as u32 * 0x100 + lo) else { continue };
            if c == 'a' {
                continue;
            }
            for (pre, n, mid) in [("", 1, ""), ("xé", 2, ""), (" ", 1, "\t \n")] {
                both(rep, l, c, pre, n, mid);
            }
        }
    });
    let ws: Vec<char> = (0..0x110000).filter_map(char::from_u32).filter(|c| c.is_whitespace() || matches!(*c, '\0' | '-' | '\u{200b}' | '\u{feff}')).collect();
    rep.explore("long runs for the ready-made contexts", &ws, |rep, c, l| {
        for n in (0..70).chain([127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 70000]) {
            for mid in ["", " ", "x"] {
                both(rep, l, *c, "", n, mid);
            }
        }
    });
    // bytes that are no text
    rep.explore_n("bytes that the ready-made context skips", 256, |rep, x, l| {
        for n in [1usize, 2, 3, 8, 300] {
            let x = x as u8;
            if x == b'a' {
                continue;
            }
            let b: Vec<u8> = std::iter::repeat_n(x, n).chain([b'a']).collect();
            let fine = ascii(x as char);
            see(rep, l, "skip_ascii_whitespace of bytes", &format!("{:?}", &b[..2]), 0, fine, n, run!(BytesCtx::new(&b).skip_ascii_whitespace(), 0, b"a"));
        }
    });
}

/// More elements than sixteen bits count.
pub fn many_elements(rep: &Rep) {
    let a = || lit("a");
    let mut t: Vec<A> = vec![];
    for n in [65536usize, 70000] {
        for r in [Rng::Exact(n), Rng::From(n), Rng::Incl(0, n), Rng::Excl(1, n)] {
            t.push(Arc::new(Ast::Repeat(r, a())));
        }
        t.push(Arc::new(Ast::Collect(n, a())));
        t.push(l(Leaf::Times(U::Ch('a'), n, n)));
        t.push(l(Leaf::Times(U::Ch('a'), 0, n)));
    }
    t.push(Arc::new(Ast::Repeat(Rng::From(0), a())));
    t.push(Arc::new(Ast::Collect(1, a())));
    t.push(l(Leaf::Many0(U::Ch('a'))));
    t.push(l(Leaf::Many1(U::Ch('a'))));
    let i: Vec<&'static str> = [65535usize, 65536, 65537, 70001].iter().map(|n| &*"a".repeat(*n).leak()).collect();
    sweep::<Cs>(rep, &at_start("more elements than sixteen bits count", &t, &i), modelled());
}

pub fn many_separated(rep: &Rep) {
    let mut t: Vec<A> = vec![];
    for skip in [true, false] {
        for n in [0usize, 65536, 65537] {
            t.push(Arc::new(Ast::Sep(skip, n, lit("a"), lit("b"))));
            t.push(Arc::new(Ast::SepCollect(skip, n, lit("a"), lit("b"))));
        }
    }
    let i: Vec<&'static str> = ["ab".repeat(65536), "ab".repeat(65536) + "a", "ab".repeat(65535) + "a"].into_iter().map(|s| &*s.leak()).collect();
    sweep::<Cs>(rep, &at_start("more elements than sixteen bits count", &t, &i), modelled());
}

fn at_start<'f>(name: &'f str, terms: &'f [A], inputs: &'f [&'static str]) -> Fam<'f> {
    Fam { max_start: 0, skips: &[Skip::None], ..long_fam(name, terms, inputs) }
}

/// Arrays longer than the enumerated ones: which slots are filled.
pub fn wide_arrays(rep: &Rep) {
    let ns: Vec<usize> = (0..=303).collect();
    rep.explore("wide arrays", &ns, |rep, n, l| {
        let s: &'static str = "a".repeat(*n).leak();
        let sep: &'static str = "a,".repeat(*n).leak();
        macro_rules! go {
            ($(($m:literal, $k:literal))*) => { $(
                let one = |what: &str, width: usize, p: Result<(Option<Vec<Option<usize>>>, usize), String>, l: &mut Local| {
                    l.states += 1;
                    l.traces += 1;
                    let got = p;
                    let k = (*n).min($k);
                    let low: usize = $m;
                    let want = if k < low {
                        l.failed += 1;
                        (None, 0)
                    } else {
                        l.matched += 1;
                        (Some((0..$k).map(|i| (i < k).then_some(i * width)).collect::<Vec<_>>()), k * width)
                    };
                    if got != Ok(want.clone()) {
                        rep.violation(&format!("{what}::<{}, {}> of {n}", $m, $k), &format!("{what}::<{}, {}> on {n} elements: {got:?}, expected {want:?}", $m, $k));
                    }
                };
                let v = |v: V| if let V::S(b, _) = v { b as usize } else { usize::MAX };
                one("repeat2", 1, guarded(|| {
                    let mut c = Cs::new(s);
                    let p = CtorOps::<'static, Cs>::repeat2::<$m, $k>(Cs::text(b"a".to_vec()));
                    let r: Option<[Option<V>; $k]> = c.ctor_handler(&p, Hd::default()).ok();
                    (r.map(|r| r.into_iter().map(|x| x.map(v)).collect()), c.offset())
                }), l);
                one("sep2", 2, guarded(|| {
                    let mut c = Cs::new(sep);
                    let p = CtorOps::<'static, Cs>::sep2::<_, $m, $k>(Cs::text(b"a".to_vec()), Cs::text(b",".to_vec()));
                    let r: Option<[Option<V>; $k]> = c.ctor_handler(&p, Hd::default()).ok();
                    (r.map(|r| r.into_iter().map(|x| x.map(v)).collect()), c.offset())
                }), l);
            )* };
        }
        go!((0, 9) (3, 16) (17, 17) (0, 33) (64, 64) (65, 65) (0, 128) (100, 255) (255, 256) (256, 256) (0, 257) (257, 257) (1, 300) (300, 300));
    });
}

/// Tables of more entries than a byte counts.
pub fn huge_tables(rep: &Rep, ltm: bool) {
    let mut t: Vec<A> = vec![];
    for k in Tab::ALL {
        if k.ltm() != ltm || matches!(k, Tab::Array | Tab::ArrayLtm | Tab::PairArray | Tab::PairArrayLtm) {
            continue;
        }
        for n in [127usize, 128, 129, 255, 256, 257, 300, 1025] {
            let places = [0, 1, 7, 8, 63, 64, 126, 127, 128, 253, 254, 255, 256, 257, 1023, 1024, n / 2, n - 2, n - 1];
            for &x in places.iter().filter(|x| **x < n) {
                let mut row = vec![l(Leaf::Fail); n];
                row[x] = lit("a");
                t.push(Arc::new(Ast::Table(k, row.clone())));
                for y in [0, x.wrapping_sub(1), x + 1, n - 1] {
                    if y < n && y != x {
                        let mut row = row.clone();
                        row[y] = lit("ab");
                        t.push(Arc::new(Ast::Table(k, row)));
                    }
                }
            }
        }
    }
    plain(rep, &at_start("tables of hundreds of entries", &t, &["", "a", "b", "ab", "aab"]), modelled());
    fixed_tables(rep, ltm);
}

/// The same for arrays, whose length is part of their type.
fn fixed_tables(rep: &Rep, ltm: bool) {
    const N: usize = 300;
    type Lit = &'static str;
    let places: Vec<usize> = (0..N).collect();
    rep.explore("arrays of hundreds of entries", &places, |rep, x, l| {
        for y in [0, x / 2, x.wrapping_sub(1), x + 1, 254, 255, 256, N - 1] {
            if y >= N || y == *x {
                continue;
            }
            let mut row: [Lit; N] = ["-"; N];
            row[*x] = "a";
            row[y] = "ab";
            for s in ["a", "ab", "aab", "b", ""] {
                let hit = |p: &Lit| s.starts_with(p);
                let i = if ltm {
                    let best = row.iter().filter(|p| hit(p)).map(|p| p.len()).max();
                    best.and_then(|b| row.iter().position(|p| hit(p) && p.len() == b))
                } else {
                    row.iter().position(|p| hit(p))
                };
                l.states += 1;
                l.traces += 1;
                if i.is_some() { l.matched += 1 } else { l.failed += 1 }
                let want = i.map(|i| row[i]);
                let got = guarded(|| {
                    let (a, b): (Option<Lit>, Option<(Lit, usize)>);
                    let mut kv = [("-", 0); N];
                    for i in 0..N {
                        kv[i] = (row[i], i);
                    }
                    let mut c = Cs::new(s);
                    let mut d = Cs::new(s);
                    if ltm {
                        a = c.ctor(&regex::array_ltm(row)).ok();
                        b = d.ctor(&regex::pair_array_ltm(kv)).ok();
                    } else {
                        a = c.ctor(&regex::array(row)).ok();
                        b = d.ctor(&regex::pair_array(kv)).ok();
                    }
                    (a, c.offset(), b, d.offset())
                });
                let e = want.map_or(0, |w| w.len());
                let want = (want, e, want.zip(i), e);
                if got != Ok(want) {
                    rep.violation(
                        &format!("array ltm {ltm} of {N}: {x} {y} {s:?}"),
                        &format!("an array (longest: {ltm}) of {N} entries with \"a\" at {x} and \"ab\" at {y}, input {s:?}: {got:?}, expected {want:?}"),
                    );
                }
            }
        }
    });
}
