//! P22: reading the input through a context is total and exact.

use crate::cx::*;
use mc_core::{Local, Rep, guarded, hash64};
use neure::ctx::*;
use neure::err::Error;
use neure::neu::*;
use neure::prelude::*;
use neure::regex::Regex;
use std::fmt::Debug;

const FAR: [usize; 3] = [usize::MAX / 2, usize::MAX - 1, usize::MAX];

fn dom(s: &str) -> Vec<usize> {
    (0..=s.len() + 2).chain(FAR).collect()
}

fn same<T: PartialEq + Debug>(what: String, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: expected {want:?}, got {got:?}")) }
}

fn oob<T>(o: Option<T>) -> Result<T, Error> {
    o.ok_or(Error::OutOfBound)
}

/// Everything a context shows, against slices of `s`.
fn look<C: Cx>(c: &C, s: &'static str, at: usize, deep: bool) -> Result<u64, String> {
    same("offset".into(), c.offset(), at)?;
    same("len".into(), c.len(), s.len())?;
    same("is_empty".into(), c.is_empty(), s.is_empty())?;
    same("orig".into(), c.orig().map(C::bytes), oob(rest(s, C::CHARS, at)))?;
    same("peek".into(), c.peek().map(C::items), oob(items(s, C::CHARS, at)))?;
    if !deep {
        return Ok(hash64(&(s, at)));
    }
    for k in dom(s) {
        same(format!("orig_at({k})"), c.orig_at(k).map(C::bytes), oob(rest(s, C::CHARS, k)))?;
        same(format!("peek_at({k})"), c.peek_at(k).map(C::items), oob(items(s, C::CHARS, k)))?;
        for n in dom(s) {
            same(format!("orig_sub({k}, {n})"), c.orig_sub(k, n).map(C::bytes), oob(cut(s, C::CHARS, k, n)))?;
        }
        match (c.clone_at(k), rest(s, C::CHARS, k)) {
            (Ok(sub), Some(r)) => {
                let r = std::str::from_utf8(r);
                match r {
                    Ok(r) => {
                        look(&sub, r, 0, false).map_err(|e| format!("clone_at({k}): {e}"))?;
                    }
                    // bytes from inside of a character
                    Err(_) => same(format!("clone_at({k})"), sub.orig().map(C::bytes).ok(), rest(s, C::CHARS, k))?,
                }
            }
            (Err(e), None) => same(format!("clone_at({k})"), e, Error::OutOfBound)?,
            (r, w) => return Err(format!("clone_at({k}): expected {w:?}, got success {}", r.is_ok())),
        }
    }
    Ok(hash64(&(s, at)))
}

fn report<T: Debug>(rep: &Rep, l: &mut Local, key: String, r: Result<Result<u64, T>, String>) {
    l.states += 1;
    l.traces += 1;
    match r {
        Ok(Ok(o)) => {
            l.matched += 1;
            l.outcomes.insert(o);
        }
        e => rep.violation(&key, &format!("{key}: {e:?}")),
    }
}

fn reads<C: Cx>(rep: &Rep, texts: &[&'static str]) {
    rep.explore(&format!("reads at every position / {}", C::NAME), texts, |rep, s, l| {
        for at in dom(s) {
            let mut c = C::mk(s);
            c.set_offset(at);
            report(rep, l, format!("{} {s:?} at {at}", C::NAME), guarded(|| look(&c, s, at, true)));
        }
        rep.sample(|| format!("{} {s:?}: every position, range and sub-context", C::NAME));
    });
}

/// Long texts: positions, ranges and sub-contexts around the sizes of interest.
fn far<C: Cx>(rep: &Rep, texts: &[&'static str]) {
    let ns: Vec<usize> = [16usize, 32, 64, 128, 256, 32768, 65536].into_iter().flat_map(|n| [n - 1, n, n + 1]).chain([0, 1, 2]).collect();
    rep.explore(&format!("long texts / {}", C::NAME), texts, |rep, s, l| {
        let s: &'static str = s;
        let dom: Vec<usize> = ns.iter().copied().chain([s.len() - 1, s.len(), s.len() + 1]).collect();
        for &at in &dom {
            let key = format!("{} text of {} bytes, {:?}.., at {at}", C::NAME, s.len(), &s[..4]);
            let r = guarded(|| {
                let mut c = C::mk(s);
                c.set_offset(at);
                same("offset".into(), (c.offset(), c.len()), (at, s.len()))?;
                if c.orig().map(C::bytes) != oob(rest(s, C::CHARS, at)) {
                    return Err("orig differs".into());
                }
                if c.peek().map(C::items) != oob(items(s, C::CHARS, at)) {
                    return Err("peek differs".to_string());
                }
                for &n in &dom {
                    if c.orig_sub(at, n).map(C::bytes) != oob(cut(s, C::CHARS, at, n)) {
                        return Err(format!("orig_sub({at}, {n}) differs"));
                    }
                    let mut d = c.clone();
                    d.inc(n);
                    same(format!("inc({n})"), (d.offset(), c.offset()), (at + n, at))?;
                    d.dec(n);
                    same(format!("dec({n})"), d.offset(), at)?;
                    match (c.clone_at(n), rest(s, C::CHARS, n)) {
                        (Ok(d), Some(r)) => {
                            same(format!("clone_at({n})"), (d.offset(), d.len()), (0, r.len()))?;
                            if d.orig().map(C::bytes) != Ok(r) {
                                return Err(format!("clone_at({n}) reads another text"));
                            }
                        }
                        (Err(_), None) => {}
                        (r, _) => return Err(format!("clone_at({n}): success {}", r.is_ok())),
                    }
                }
                Ok::<u64, String>(hash64(&(s.len(), at)))
            });
            report(rep, l, key, r);
        }
    });
}

/// Inputs beyond 4 GiB: every read must show the very same memory.
fn beyond<C: Cx>(rep: &Rep, texts: &[(&'static str, Vec<(&'static str, usize)>)]) {
    if texts.iter().any(|t| t.1.is_empty()) {
        rep.note("no memory for inputs of 4 GiB: positions around 2^32 are left out");
        return;
    }
    let here = |b: &'static [u8]| (b.as_ptr() as usize, b.len());
    rep.explore(&format!("positions around 2^31 and 2^32 / {}", C::NAME), texts, |rep, (text, places), l| {
        for &(s, base) in places {
            let mut dom: Vec<usize> = (base - 2..=s.len() + 2).collect();
            dom.extend([0, 1, 2, 65536, base / 2]);
            dom.extend(FAR);
            for &at in &dom {
                let key = format!("{} {text:?} at {base} of {} bytes, position {at}", C::NAME, s.len());
                let r = guarded(|| {
                    let mut c = C::mk(s);
                    c.set_offset(at);
                    same("offset".into(), (c.offset(), c.len(), c.is_empty()), (at, s.len(), false))?;
                    same("orig".into(), c.orig().map(C::bytes).map(here), oob(rest(s, C::CHARS, at).map(here)))?;
                    // the first items: there may be billions
                    let near = at >= base - 2;
                    if near {
                        same("peek".into(), c.peek().map(C::items), oob(items(s, C::CHARS, at)))?;
                    } else {
                        same("peek".into(), c.peek().is_ok(), rest(s, C::CHARS, at).is_some())?;
                    }
                    for &k in &dom {
                        same(format!("orig_at({k})"), c.orig_at(k).map(C::bytes).map(here), oob(rest(s, C::CHARS, k).map(here)))?;
                        same(format!("orig_sub({at}, {k})"), c.orig_sub(at, k).map(C::bytes).map(here), oob(cut(s, C::CHARS, at, k).map(here)))?;
                        if k >= base - 2 {
                            same(format!("peek_at({k})"), c.peek_at(k).map(C::items), oob(items(s, C::CHARS, k)))?;
                        }
                        let sub = c.clone_at(k).ok().map(|d| (d.offset(), d.len()));
                        same(format!("clone_at({k})"), sub, rest(s, C::CHARS, k).map(|r| (0, r.len())))?;
                        if let Some(to) = at.checked_add(k) {
                            let mut d = c.clone();
                            d.inc(k);
                            same(format!("inc({k})"), d.offset(), to)?;
                            d.dec(k);
                            same(format!("dec({k})"), d.offset(), at)?;
                        }
                    }
                    Ok::<u64, String>(hash64(&(text, base, at)))
                });
                report(rep, l, key, r);
            }
        }
    });
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Set(usize),
    Inc(usize),
    Dec(usize),
    /// keep a copy, go on
    Keep,
    /// swap with the kept copy
    Swap,
    /// go on with a sub-context made at the position
    Sub(usize),
    /// a read and a failing match in between
    Touch,
    /// calls of the concrete type
    Own(usize),
}

/// Calls a concrete context type adds to the trait.
trait Own: Cx {
    const N: usize;
    fn own(self, k: usize, s: &'static str, at: usize, other: &'static str) -> (Self, &'static str, usize);
}

impl Own for Cs {
    const N: usize = 5;
    fn own(mut self, k: usize, s: &'static str, at: usize, o: &'static str) -> (Self, &'static str, usize) {
        match k {
            0 => (self.with_offset(2), s, 2),
            1 => (self.with_dat(o), o, at),
            2 => {
                self.reset();
                (self, s, 0)
            }
            3 => {
                self.reset_with(o);
                (self, o, 0)
            }
            _ => (RegexCtx::with(self.dat(), |c| c), s, 0),
        }
    }
}

impl Own for Bs {
    const N: usize = 5;
    fn own(mut self, k: usize, s: &'static str, at: usize, o: &'static str) -> (Self, &'static str, usize) {
        match k {
            0 => (self.with_offset(2), s, 2),
            1 => (self.with_dat(o.as_bytes()), o, at),
            2 => {
                self.reset();
                (self, s, 0)
            }
            3 => {
                self.reset_with(o.as_bytes());
                (self, o, 0)
            }
            _ => (RegexCtx::with(self.dat(), |c| c), s, 0),
        }
    }
}

macro_rules! own_policy {
    ($t:ty, $i:ty) => {
        impl Own for $t {
            const N: usize = 6;
            fn own(mut self, k: usize, s: &'static str, at: usize, o: &'static str) -> (Self, &'static str, usize) {
                match k {
                    0 => (self.with_inner(<$i>::mk(o)), o, 0),
                    1 => {
                        self.set_inner(<$i>::mk(o));
                        (self, o, 0)
                    }
                    2 => {
                        self.reset_with(<$i>::mk(o));
                        (self, o, 0)
                    }
                    3 => {
                        self.inner_mut().set_offset(1);
                        (self, s, 1)
                    }
                    4 => (self.with_regex(no_skip::<$i> as Skip<$i>), s, at),
                    _ => {
                        let i = self.inner().clone();
                        (PolicyCtx::new(i, no_skip::<$i> as Skip<$i>), s, at)
                    }
                }
            }
        }
    };
}
own_policy!(Pc, Cs);
own_policy!(Pb, Bs);
own_policy!(Pp, Pc);

fn history<C: Own>(s: &'static str, other: &'static str, h: &[Op]) -> Result<u64, String> {
    let (mut c, mut s, mut at) = (C::mk(s), s, 0usize);
    let mut kept = (c.clone(), s, at);
    let zero = |c: &mut C| {
        c.inc(1);
        Err::<Span, Error>(Error::Uid(0))
    };
    for op in h {
        match *op {
            Op::Set(k) => {
                c.set_offset(k);
                at = k;
            }
            Op::Inc(k) => {
                c.inc(k);
                at += k;
            }
            Op::Dec(k) => {
                if at >= k {
                    c.dec(k);
                    at -= k;
                }
            }
            Op::Keep => kept = (c.clone(), s, at),
            Op::Swap => {
                std::mem::swap(&mut c, &mut kept.0);
                std::mem::swap(&mut s, &mut kept.1);
                std::mem::swap(&mut at, &mut kept.2);
            }
            Op::Sub(k) => {
                // only where the rest is text for the reference
                if let Some(r) = s.get(k..) {
                    let sub = c.clone_at(k).map_err(|e| format!("clone_at({k}): {e:?}"))?;
                    kept = (std::mem::replace(&mut c, sub), s, at);
                    s = r;
                    at = 0;
                } else if C::CHARS && c.clone_at(k).is_ok() {
                    return Err(format!("clone_at({k}) succeeds outside of the text"));
                }
            }
            Op::Touch => {
                same("match".into(), c.try_mat(&zero).is_err(), true)?;
                same("match".into(), c.is_mat(&zero), false)?;
            }
            Op::Own(k) => (c, s, at) = c.own(k, s, at, other),
        }
    }
    look(&c, s, at, false)?;
    look(&kept.0, kept.1, kept.2, false).map_err(|e| format!("the other context: {e}"))
}

fn moves<C: Own>(rep: &Rep, depth: usize) {
    use Op::*;
    let mut alpha = vec![Set(1), Set(9), Inc(1), Inc(2), Dec(1), Keep, Swap, Sub(1), Sub(2), Touch];
    alpha.extend((0..C::N).map(Own));
    let n = alpha.len();
    rep.explore_n(&format!("{}: histories of up to {depth} moves out of {n}", C::NAME), n * n, |rep, i, l| {
        let mut stack = vec![vec![alpha[i / n], alpha[i % n]]];
        if i % n == 0 {
            stack.push(vec![alpha[i / n]]);
        }
        while let Some(h) = stack.pop() {
            if rep.stopped() {
                return;
            }
            for (s, o) in [("aéb", "好"), ("ab", "")] {
                l.transitions += h.len() as u64;
                report(rep, l, format!("{} {s:?}/{o:?} {h:?}", C::NAME), guarded(|| history::<C>(s, o, &h)));
            }
            if h.len() > 1 && h.len() < depth {
                for op in &alpha {
                    let mut g = h.clone();
                    g.push(*op);
                    stack.push(g);
                }
            }
        }
    });
}

type Pat<C> = (&'static str, Box<dyn Regex<C>>);

macro_rules! pats {
    ($item:expr, $other:expr, $lit:expr) => {
        vec![
            ("once", Box::new($item.once()) as Box<dyn Regex<_>>),
            ("opt", Box::new($item.opt())),
            ("many0", Box::new($item.many0())),
            ("many1", Box::new($item.many1())),
            ("between", Box::new($item.between::<1, 2>())),
            ("at_least", Box::new($item.at_least::<0>())),
            ("times", Box::new($item.times(0..3))),
            ("counted", Box::new($item.count::<2>())),
            ("once then once", Box::new($item.once().then($other.once()).pat())),
            ("two items", Box::new($item.then($other))),
            ("item then any number", Box::new($item.many1().or($other.once()).pat())),
            ("not", Box::new($item.not().once())),
            ("not many0", Box::new($item.not().many0())),
            ("literal", Box::new($lit.pat())),
            ("literal and more", Box::new(CtorOps::then($lit, $lit).pat())),
            ("consume 0", Box::new(neure::regex::consume(0))),
            ("consume 1", Box::new(neure::regex::consume(1))),
            ("consume 3", Box::new(neure::regex::consume(3))),
            ("consume many", Box::new(neure::regex::consume(usize::MAX))),
            ("consume_all", Box::new(neure::regex::consume_all())),
            ("start", Box::new(neure::regex::start())),
            ("end", Box::new(neure::regex::end())),
            ("empty", Box::new(neure::regex::empty())),
            ("fail", Box::new(neure::regex::fail())),
            ("assert", Box::new(neure::regex::assert($item.once(), true))),
            ("deny", Box::new(neure::regex::not($item.once()))),
        ]
    };
}

fn leaves<C: Cx>(rep: &Rep, texts: &[&'static str], mk: fn() -> Vec<Pat<C>>) {
    rep.explore(&format!("leaf patterns at every position / {}", C::NAME), texts, |rep, s, l| {
        for at in (0..=s.len() + 3).chain([usize::MAX / 2, usize::MAX - 8]) {
            for (n, p) in mk() {
                let mut c = C::mk(s);
                c.set_offset(at);
                // the raw consumers count bytes wherever it stands
                let raw = n.starts_with("consume");
                let valid = at <= s.len() && (raw || !C::CHARS || s.is_char_boundary(at));
                let r = guarded(|| (c.try_mat(&p).map(|v| (v.beg, v.len)), c.offset()));
                l.states += 1;
                l.traces += 1;
                let key = format!("{n} on {} {s:?} at {at}", C::NAME);
                match r {
                    Err(e) => rep.violation(&key, &format!("{key}: {e}")),
                    Ok((Err(_), o)) => {
                        l.failed += 1;
                        if o != at {
                            rep.violation(&key, &format!("{key}: fails but moves to {o}"));
                        }
                    }
                    Ok((Ok((b, len)), o)) => {
                        l.matched += 1;
                        l.outcomes.insert(hash64(&(n, len)));
                        if valid {
                            if b != at || o != b + len || o > s.len() {
                                rep.violation(&key, &format!("{key}: matches ({b}, {len}) and stands at {o}"));
                            }
                        } else if len != 0 || o != at {
                            rep.violation(&key, &format!("{key}: matches ({b}, {len}) at a position that is not in the input, and stands at {o}"));
                        }
                    }
                }
            }
        }
    });
}

pub fn p22(rep: &Rep) {
    let q = rep.quick();
    rep.note("moving backwards before the begin or forwards beyond the largest position is excluded (documented as arithmetic on the position)");
    let texts = ["", "a", "ab", "é", "aé", "éa", "好", "a好b", "𝄞", "é好𝄞a", "a\u{301}\u{0}b", "\r\n x"];
    reads::<Cs>(rep, &texts);
    reads::<Bs>(rep, &texts);
    reads::<Pc>(rep, &texts);
    reads::<Pb>(rep, &texts);
    reads::<Pp>(rep, &texts);
    let long: Vec<&'static str> = ["abcdefg", "é", "a好𝄞", "𝄞"]
        .iter()
        .flat_map(|c| [40usize, 300, 70000].map(|n| &*c.repeat(n / c.chars().count()).leak()))
        .collect();
    far::<Cs>(rep, &long);
    far::<Bs>(rep, &long);
    far::<Pc>(rep, &long);
    far::<Pb>(rep, &long);
    let huge: Vec<_> = ["", "ab", "aé", "好a", "𝄞"].map(|t| (t, mc_core::huge::huge(t))).into();
    beyond::<Cs>(rep, &huge);
    beyond::<Bs>(rep, &huge);
    beyond::<Pc>(rep, &huge);
    beyond::<Pb>(rep, &huge);
    let d = if q { 5 } else { 6 };
    moves::<Cs>(rep, d);
    moves::<Bs>(rep, d);
    moves::<Pc>(rep, d);
    moves::<Pb>(rep, d);
    moves::<Pp>(rep, d);
    leaves::<Cs>(rep, &texts, || pats!('a', 'b', "a"));
    leaves::<Pc>(rep, &texts, || pats!('é', 'a', "é"));
    leaves::<Bs>(rep, &texts, || pats!(b'a', b'b', b"a".as_slice()));
    leaves::<Pb>(rep, &texts, || pats!(b'b', b'a', b"b".as_slice()));
    // contexts with the ready-made skip patterns read the same
    rep.explore("ready-made skipping contexts", &texts, |rep, s, l| {
        let s: &'static str = s;
        for at in dom(s) {
            macro_rules! one {
                ($n:literal, $chars:expr, $c:expr) => {{
                    let r = guarded(|| {
                        let mut c = $c;
                        c.set_offset(at);
                        same("offset".into(), (c.offset(), c.len(), c.is_empty()), (at, s.len(), s.is_empty()))?;
                        same("orig".into(), c.orig().map(|v| AsRef::<[u8]>::as_ref(v)), oob(rest(s, $chars, at)))?;
                        same("items".into(), c.peek().map(|i| i.map(|(k, v)| (k, v as u32)).collect()), oob(items(s, $chars, at)))?;
                        let d = c.clone();
                        c.set_offset(at / 2);
                        same("copy".into(), (c.offset(), d.offset()), (at / 2, at))?;
                        Ok::<u64, String>(hash64(&($n, s, at)))
                    });
                    report(rep, l, format!("{} on {s:?} at {at}", $n), r);
                }};
            }
            one!("skip_whitespace", true, CharsCtx::new(s).skip_whitespace());
            one!("skip_ascii_whitespace", true, CharsCtx::new(s).skip_ascii_whitespace());
            one!("bytes skip_ascii_whitespace", false, BytesCtx::new(s.as_bytes()).skip_ascii_whitespace());
        }
    });
}
