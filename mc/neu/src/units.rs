//! P10: every unit decides exactly its class.

use mc_core::{Local, Rep, guarded, hash64};
use neure::neu::*;
use neure::ctx::*;
use neure::prelude::*;
use std::ops::Bound;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub struct Unit<T: 'static> {
    pub name: String,
    pub unit: Rc<dyn Neu<T>>,
    pub want: Rc<dyn Fn(&T) -> bool>,
}

impl<T> Clone for Unit<T> {
    fn clone(&self) -> Self {
        Unit {
            name: self.name.clone(),
            unit: self.unit.clone(),
            want: self.want.clone(),
        }
    }
}

pub fn u<T: 'static>(
    name: impl Into<String>,
    unit: impl Neu<T> + 'static,
    want: impl Fn(&T) -> bool + 'static,
) -> Unit<T> {
    Unit {
        name: name.into(),
        unit: Rc::new(unit),
        want: Rc::new(want),
    }
}

// the documented ASCII classes, written out
fn a_upper(c: u32) -> bool {
    (0x41..=0x5a).contains(&c)
}
fn a_lower(c: u32) -> bool {
    (0x61..=0x7a).contains(&c)
}
fn a_digit(c: u32) -> bool {
    (0x30..=0x39).contains(&c)
}
fn a_graph(c: u32) -> bool {
    (0x21..=0x7e).contains(&c)
}
fn a_alnum(c: u32) -> bool {
    a_upper(c) || a_lower(c) || a_digit(c)
}
fn a_hex(c: u32) -> bool {
    a_digit(c) || (0x41..=0x46).contains(&c) || (0x61..=0x66).contains(&c)
}
fn a_ctl(c: u32) -> bool {
    c < 0x20 || c == 0x7f
}
fn a_space(c: u32) -> bool {
    c == 0x20 || c == 0x09 || c == 0x0a || c == 0x0c || c == 0x0d
}
fn digit_of(c: u32, radix: u32) -> bool {
    let v = if a_digit(c) {
        c - 0x30
    } else if a_lower(c) {
        c - 0x61 + 10
    } else if a_upper(c) {
        c - 0x41 + 10
    } else {
        return false;
    };
    v < radix
}

macro_rules! both {
    ($v:ident, $t:ty, $($f:ident => $w:expr),* $(,)?) => { $(
        let w: fn(u32) -> bool = $w;
        $v.push(u(stringify!($f), $f::<$t>(), move |c: &$t| w(*c as u32)));
        $v.push(u(concat!("!", stringify!($f)), !$f::<$t>(), move |c: &$t| !w(*c as u32)));
    )* };
}

macro_rules! chars {
    ($v:ident, $($f:expr, $n:literal => $w:expr),* $(,)?) => { $(
        $v.push(u($n, $f, $w));
        $v.push(u(concat!("!", $n), !$f, |c: &char| !($w)(c)));
    )* };
}

macro_rules! ascii_classes {
    ($v:ident, $t:ty) => {
        both!($v, $t,
            ascii => |c| c < 128,
            ascii_alphabetic => |c| a_upper(c) || a_lower(c),
            ascii_alphanumeric => a_alnum,
            ascii_control => a_ctl,
            ascii_digit => a_digit,
            ascii_graphic => a_graph,
            ascii_hexdigit => a_hex,
            ascii_lowercase => a_lower,
            ascii_punctuation => |c| a_graph(c) && !a_alnum(c),
            ascii_uppercase => a_upper,
            ascii_whitespace => a_space,
            word => |c| a_alnum(c) || c == 0x5f,
            always => |_| true,
            never => |_| false,
        );
    };
}

pub fn char_classes() -> Vec<Unit<char>> {
    let mut v = vec![];
    chars!(v,
        alphabetic(), "alphabetic" => |c: &char| c.is_alphabetic(),
        alphanumeric(), "alphanumeric" => |c: &char| c.is_alphabetic() || c.is_numeric(),
        control(), "control" => |c: &char| c.is_control(),
        lowercase(), "lowercase" => |c: &char| c.is_lowercase(),
        uppercase(), "uppercase" => |c: &char| c.is_uppercase(),
        numeric(), "numeric" => |c: &char| c.is_numeric(),
        whitespace(), "whitespace" => |c: &char| c.is_whitespace(),
        wild(), "wild" => |c: &char| *c != '\n',
        digit(2), "digit2" => |c: &char| digit_of(*c as u32, 2),
        digit(10), "digit10" => |c: &char| digit_of(*c as u32, 10),
        digit(16), "digit16" => |c: &char| digit_of(*c as u32, 16),
        digit(36), "digit36" => |c: &char| digit_of(*c as u32, 36),
    );
    ascii_classes!(v, char);
    for r in 2..=36u32 {
        v.push(u(format!("digit({r})"), digit(r), move |c: &char| digit_of(*c as u32, r)));
    }
    for c in ['a', '\0', '\u{7f}', '\u{80}', 'é', '中', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}'] {
        v.push(u(format!("{c:?}"), c, move |x: &char| *x == c));
        v.push(u(format!("equal({c:?})"), equal(c), move |x: &char| *x == c));
        v.push(u(format!("!equal({c:?})"), !equal(c), move |x: &char| *x != c));
        v.push(u(format!("not({c:?})"), neure::neu::not(c), move |x: &char| *x != c));
    }
    v.push(u("closure", |c: &char| (*c as u32) % 3 == 1, |c: &char| (*c as u32) % 3 == 1));
    v
}

pub fn byte_classes() -> Vec<Unit<u8>> {
    let mut v = vec![];
    ascii_classes!(v, u8);
    for c in [0u8, 1, b'a', 127, 128, 254, 255] {
        v.push(u(format!("{c:?}"), c, move |x: &u8| *x == c));
        v.push(u(format!("equal({c:?})"), equal(c), move |x: &u8| *x == c));
        v.push(u(format!("!equal({c:?})"), !equal(c), move |x: &u8| *x != c));
        v.push(u(format!("not({c:?})"), neure::neu::not(c), move |x: &u8| *x != c));
    }
    v.push(u("closure", |c: &u8| *c % 3 == 1, |c: &u8| *c % 3 == 1));
    v
}

fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

/// Every form of range and set over `pts`.
fn sets<T>(pts: &[T], v: &mut Vec<Unit<T>>)
where
    T: Copy + PartialOrd + std::fmt::Debug + 'static,
{
    let bounds: Vec<Bound<T>> = std::iter::once(Bound::Unbounded)
        .chain(pts.iter().map(|p| Bound::Included(*p)))
        .chain(pts.iter().map(|p| Bound::Excluded(*p)))
        .collect();
    let lo = |b: Bound<T>, x: &T| match b {
        Bound::Included(p) => *x >= p,
        Bound::Excluded(p) => *x > p,
        Bound::Unbounded => true,
    };
    let hi = |b: Bound<T>, x: &T| match b {
        Bound::Included(p) => *x <= p,
        Bound::Excluded(p) => *x < p,
        Bound::Unbounded => true,
    };
    for &b in &bounds {
        for &e in &bounds {
            let w = move |x: &T| lo(b, x) && hi(e, x);
            let n = format!("({b:?},{e:?})");
            v.push(u(format!("bounds{n}"), (b, e), w));
            let (rb, re) = (leak(b), leak(e));
            v.push(u(format!("refbounds{n}"), (rb.as_ref(), re.as_ref()), w));
            v.push(u(format!("CRange::new{n}"), CRange::new(b, e), w));
            v.push(u(format!("range{n}"), range((b, e)), w));
            v.push(u(format!("!range{n}"), !range((b, e)), move |x: &T| !w(x)));
            v.push(u(format!("CRange::clone_from{n}"), CRange::clone_from((b, e)), w));
        }
    }
    v.push(u("CRange::default", CRange::<T>::default(), |_| true));
    v.push(u("..", .., |_: &T| true));
    v.push(u("range(..)", range::<T>(..), |_: &T| true));
    for &p in pts {
        let r = leak(p);
        v.push(u(format!("{p:?}.."), p.., move |x: &T| *x >= p));
        v.push(u(format!("&{p:?}.."), r.., move |x: &T| *x >= p));
        v.push(u(format!("..{p:?}"), ..p, move |x: &T| *x < p));
        v.push(u(format!("..&{p:?}"), ..r, move |x: &T| *x < p));
        v.push(u(format!("..={p:?}"), ..=p, move |x: &T| *x <= p));
        v.push(u(format!("..=&{p:?}"), ..=r, move |x: &T| *x <= p));
        v.push(u(format!("range({p:?}..)"), range(p..), move |x: &T| *x >= p));
        v.push(u(format!("range(..{p:?})"), range(..p), move |x: &T| *x < p));
        v.push(u(format!("range(..={p:?})"), range(..=p), move |x: &T| *x <= p));
        v.push(u(
            format!("range(core ..={p:?})"),
            range(core::range::RangeToInclusive { last: p }),
            move |x: &T| *x <= p,
        ));
        v.push(u(
            format!("range(core {p:?}..)"),
            range(core::range::RangeFrom { start: p }),
            move |x: &T| *x >= p,
        ));
        for &q in pts {
            let s = leak(q);
            v.push(u(format!("{p:?}..{q:?}"), p..q, move |x: &T| *x >= p && *x < q));
            v.push(u(format!("&{p:?}..&{q:?}"), r..s, move |x: &T| *x >= p && *x < q));
            v.push(u(format!("{p:?}..={q:?}"), p..=q, move |x: &T| *x >= p && *x <= q));
            v.push(u(format!("&{p:?}..=&{q:?}"), r..=s, move |x: &T| *x >= p && *x <= q));
            v.push(u(format!("range({p:?}..{q:?})"), range(p..q), move |x: &T| *x >= p && *x < q));
            v.push(u(format!("range({p:?}..={q:?})"), range(p..=q), move |x: &T| *x >= p && *x <= q));
            v.push(u(
                format!("range(core {p:?}..{q:?})"),
                range(core::range::Range { start: p, end: q }),
                move |x: &T| *x >= p && *x < q,
            ));
            v.push(u(
                format!("range(core {p:?}..={q:?})"),
                range(core::range::RangeInclusive { start: p, last: q }),
                move |x: &T| *x >= p && *x <= q,
            ));
            let s2: &'static [T] = Vec::leak(vec![p, q]);
            v.push(u(format!("[{p:?},{q:?}]"), [p, q], move |x: &T| *x == p || *x == q));
            v.push(u(format!("&[{p:?},{q:?}]"), s2, move |x: &T| *x == p || *x == q));
            v.push(u(format!("vec[{p:?},{q:?}]"), vec![p, q], move |x: &T| *x == p || *x == q));
        }
        v.push(u(format!("[{p:?}]"), [p], move |x: &T| *x == p));
        v.push(u(format!("vec[{p:?}]"), vec![p], move |x: &T| *x == p));
    }
    v.push(u("[]", [] as [T; 0], |_| false));
    v.push(u("vec[]", Vec::<T>::new(), |_| false));
    let all: Vec<T> = pts.to_vec();
    let a2 = all.clone();
    v.push(u("vec all", all, move |x: &T| a2.iter().any(|p| p == x)));
}

/// Boxed, counted and cell forms of a unit.
fn wrapped<T: Copy + 'static + std::fmt::Debug>(
    n: &str,
    unit: impl Neu<T> + Copy + 'static,
    w: impl Fn(&T) -> bool + Copy + 'static,
    v: &mut Vec<Unit<T>>,
) {
    let b: Box<dyn Neu<T>> = Box::new(unit);
    v.push(u(format!("Box<dyn {n}>"), b, w));
    v.push(u(format!("Rc {n}"), Rc::new(unit), w));
    let r: Rc<dyn Neu<T>> = Rc::new(unit);
    v.push(u(format!("Rc<dyn {n}>"), r, w));
    v.push(u(format!("Arc {n}"), Arc::new(unit), w));
    let r: Arc<dyn Neu<T>> = Arc::new(unit);
    v.push(u(format!("Arc<dyn {n}>"), r, w));
    v.push(u(format!("Cell {n}"), std::cell::Cell::new(unit), w));
    v.push(u(format!("RefCell {n}"), std::cell::RefCell::new(unit), w));
    v.push(u(format!("Mutex {n}"), Mutex::new(unit), w));
    v.push(u(format!("Rc<RefCell<Box<dyn {n}>>>"), {
        let b: Box<dyn Neu<T>> = Box::new(unit);
        Rc::new(std::cell::RefCell::new(b))
    }, w));
}

pub fn char_wrapped() -> Vec<Unit<char>> {
    let mut v = vec![];
    wrapped("é", 'é', |c: &char| *c == 'é', &mut v);
    wrapped("a", 'a', |c: &char| *c == 'a', &mut v);
    wrapped("word", word::<char>(), |c: &char| a_alnum(*c as u32) || *c == '_', &mut v);
    wrapped("!é", neure::neu::not::<char, _>('é'), |c: &char| *c != 'é', &mut v);
    wrapped("é|a", or::<char, _, _>('é', 'a'), |c: &char| *c == 'é' || *c == 'a', &mut v);
    v
}

fn byte_wrapped() -> Vec<Unit<u8>> {
    let mut v = vec![];
    wrapped("0x80", 0x80u8, |c: &u8| *c == 0x80, &mut v);
    wrapped("word", word::<u8>(), |c: &u8| a_alnum(*c as u32) || *c == b'_', &mut v);
    wrapped("!a", neure::neu::not::<u8, _>(b'a'), |c: &u8| *c != b'a', &mut v);
    v
}

/// All combinations of two units, through every way to combine.
pub fn combine<T: 'static + std::fmt::Debug>(l: &Unit<T>, r: &Unit<T>) -> Vec<Unit<T>> {
    let (lw, rw) = (l.want.clone(), r.want.clone());
    let (a, b) = (lw.clone(), rw.clone());
    let andw: Rc<dyn Fn(&T) -> bool> = Rc::new(move |x| a(x) && b(x));
    let (a, b) = (lw.clone(), rw.clone());
    let orw: Rc<dyn Fn(&T) -> bool> = Rc::new(move |x| a(x) || b(x));
    let mk = |n: &str, unit: Rc<dyn Neu<T>>, w: &Rc<dyn Fn(&T) -> bool>, neg: bool| Unit {
        name: format!("{n}({},{})", l.name, r.name),
        unit,
        want: if neg {
            let w = w.clone();
            Rc::new(move |x: &T| !w(x))
        } else {
            w.clone()
        },
    };
    let (lu, ru) = (&l.unit, &r.unit);
    vec![
        mk("and", Rc::new(and::<T, _, _>(lu.clone(), ru.clone())), &andw, false),
        mk("or", Rc::new(or::<T, _, _>(lu.clone(), ru.clone())), &orw, false),
        mk("nand", Rc::new(neure::neu::not::<T, _>(and::<T, _, _>(lu.clone(), ru.clone()))), &andw, true),
        mk("nor", Rc::new(!or::<T, _, _>(lu.clone(), ru.clone())), &orw, true),
        mk(".and", Rc::new(NeuOp::<T>::and(lu.clone(), ru.clone())), &andw, false),
        mk(".or", Rc::new(NeuOp::<T>::or(lu.clone(), ru.clone())), &orw, false),
    ]
}

pub fn negate<T: 'static + std::fmt::Debug>(l: &Unit<T>) -> Unit<T> {
    let w = l.want.clone();
    Unit {
        name: format!("not({})", l.name),
        unit: Rc::new(NeuOp::<T>::not(l.unit.clone())),
        want: Rc::new(move |x| !w(x)),
    }
}

/// Characters at which some class may change, and their neighbours.
fn char_points(cls: &[&Unit<char>], dense: u32) -> Vec<char> {
    let mut v = vec![];
    let mut last: Vec<bool> = vec![];
    let mut prev = None;
    for i in 0..=0x10ffffu32 {
        let Some(c) = char::from_u32(i) else { continue };
        // the reference classes decide where the classes change
        let cur: Vec<bool> = cls.iter().map(|k| (k.want)(&c)).collect();
        if i < dense || cur != last {
            if let Some(p) = prev
                && v.last() != Some(&p)
            {
                v.push(p);
            }
            v.push(c);
        }
        last = cur;
        prev = Some(c);
    }
    v.push('\u{10ffff}');
    v
}

fn verdict<T: std::fmt::Debug>(rep: &Rep, n: &str, x: &T, want: bool, got: Result<bool, String>, l: &mut Local) {
    l.states += 1;
    l.traces += 1;
    l.transitions += 1;
    if want {
        l.matched += 1;
    } else {
        l.failed += 1;
    }
    if got != Ok(want) {
        rep.violation(
            &format!("{n}:{x:?}"),
            &format!("unit {n} on {x:?}: expected {want}, got {got:?}"),
        );
    }
}

/// What a unit accepts through matching: the item alone, twice, and at the end.
fn through_match<T, C>(rep: &Rep, k: &Unit<T>, items: &[T], mk: impl Fn(&[T]) -> (C, usize, usize), l: &mut Local)
where
    T: 'static + Copy + std::fmt::Debug,
    C: Match<'static, Item = T>,
{
    for x in items {
        if rep.stopped() {
            return;
        }
        let want = (k.want)(x);
        let got = guarded(|| {
            let (mut c, one, _) = mk(&[*x]);
            let once: Once<C, _, T> = Once::new(k.unit.clone(), EmptyCond);
            let a = c.try_mat(&once).ok() == Some(Span::new(0, one));
            let (mut c, _, _) = mk(&[*x]);
            let count: Between<1, 1, C, _> = Between::new(k.unit.clone(), EmptyCond);
            let b = c.is_mat(&count);
            let (mut c, _, len) = mk(&[*x, *x]);
            let two: Between<2, 2, C, _> = Between::new(k.unit.clone(), EmptyCond);
            let d = c.try_mat(&two).ok() == Some(Span::new(0, len));
            let (mut c, _, len) = mk(&[*x, *x]);
            c.set_offset(len);
            let e = c.is_mat(&once);
            (a, b, d, e)
        });
        verdict(
            rep,
            &format!("{} through once, count, count twice, and at the end", k.name),
            x,
            true,
            got.and_then(|g| {
                if g == (want, want, want, false) {
                    Ok(true)
                } else {
                    Err(format!("{g:?} instead of {:?}", (want, want, want, false)))
                }
            }),
            l,
        );
    }
}

pub fn leak_str(s: &[char]) -> (CharsCtx<'static>, usize, usize) {
    let t: String = s.iter().collect();
    let one = s.first().map(|c| c.len_utf8()).unwrap_or(0);
    let n = t.len();
    thread_local! {
        static POOL: std::cell::RefCell<std::collections::HashMap<String, &'static str>> = Default::default();
    }
    let r = POOL.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(r) = p.get(&t) {
            return *r;
        }
        let r: &'static str = String::leak(t.clone());
        p.insert(t, r);
        r
    });
    (CharsCtx::new(r), one, n)
}

pub fn leak_bytes(s: &[u8]) -> (BytesCtx<'static>, usize, usize) {
    thread_local! {
        static POOL: std::cell::RefCell<std::collections::HashMap<Vec<u8>, &'static [u8]>> = Default::default();
    }
    let r = POOL.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(r) = p.get(s) {
            return *r;
        }
        let r: &'static [u8] = Vec::leak(s.to_vec());
        p.insert(s.to_vec(), r);
        r
    });
    (BytesCtx::new(r), s.len().min(1), s.len())
}

/// Many members in no order: each is in, all others are out.
fn big_sets(rep: &Rep) {
    let sizes: Vec<usize> = (3..=70).chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 5000]).collect();
    // spread out, in an order that is neither rising nor falling, first and last not extreme
    fn mix(i: usize, n: usize) -> usize {
        let mut k = n / 3 | 1;
        fn gcd(a: usize, b: usize) -> usize {
            if b == 0 { a } else { gcd(b, a % b) }
        }
        while gcd(k, n) != 1 {
            k += 2;
        }
        (i * k + n / 2) % n
    }
    fn arrays<T: Copy + PartialEq + std::fmt::Debug + 'static>(v: &[T]) -> Option<Rc<dyn Neu<T>>> {
        macro_rules! a {
            ($($n:literal)*) => {
                match v.len() {
                    $($n => Some(Rc::new(<[T; $n]>::try_from(v).unwrap()) as Rc<dyn Neu<T>>),)*
                    _ => None,
                }
            };
        }
        a!(3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 31 32 33 34 40 48 63 64 65 100 127 128 129 200 255 256 257 300 512 513 1000 1025 5000)
    }
    fn check<T: Copy + PartialEq + std::fmt::Debug + 'static>(rep: &Rep, v: Vec<T>, out: &[T], l: &mut Local) {
        let s: &'static [T] = Vec::leak(v.clone());
        let mut forms: Vec<(&str, Rc<dyn Neu<T>>)> = vec![
            ("slice", Rc::new(s)),
            ("vector", Rc::new(v.clone())),
            ("not slice", Rc::new(neure::neu::not::<T, _>(s))),
            ("slice or nothing", Rc::new(or::<T, _, _>(s, never()))),
        ];
        forms.extend(arrays(&v).map(|a| ("array", a)));
        for (n, k) in forms {
            let neg = n.starts_with("not");
            for (i, x) in v.iter().enumerate() {
                verdict(rep, &format!("{n} of {} members, member {i}", v.len()), x, !neg, guarded(|| k.is_match(x)), l);
            }
            for x in out {
                if !v.contains(x) {
                    verdict(rep, &format!("{n} of {} members, none of them", v.len()), x, neg, guarded(|| k.is_match(x)), l);
                }
            }
        }
    }
    rep.explore("large sets", &sizes, |rep, n, l| {
        let n = *n;
        let chars: Vec<char> = (0..n).map(|i| char::from_u32(0x100 + 3 * mix(i, n) as u32).unwrap()).collect();
        let out: Vec<char> = (0..0x100 + 3 * n as u32 + 9).step_by(if n > 600 { 7 } else { 1 }).filter_map(char::from_u32).chain(['\u{ffff}', '\u{10100}', '\u{10ffff}']).collect();
        check(rep, chars.clone(), &out, l);
        // with repeats, and with a member far away last
        let twice: Vec<char> = chars.iter().chain(chars.iter()).copied().collect();
        check(rep, twice, &out, l);
        let mut far = chars;
        far.push('😀');
        check(rep, far, &out, l);
        let all: Vec<u8> = (0..=255).collect();
        let bytes: Vec<u8> = (0..n).map(|i| (mix(i, n) * 3 % 251) as u8).collect();
        check(rep, bytes, &all, l);
        l.outcomes.insert(hash64(&n));
    });
}

pub fn p10(rep: &Rep) {
    rep.note("the Unicode classes are those of the char methods the unit documentation names; the ASCII classes, word, digit and wild are written out independently");
    let n_cls = char_classes().len();
    // every class on every character
    rep.explore_n("char classes, all of Unicode", n_cls, |rep, i, l| {
        let k = &char_classes()[i];
        for x in 0..=0x10ffffu32 {
            let Some(c) = char::from_u32(x) else { continue };
            let w = (k.want)(&c);
            let g = k.unit.is_match(&c);
            l.states += 1;
            l.traces += 1;
            l.transitions += 1;
            if w { l.matched += 1 } else { l.failed += 1 }
            if g != w {
                verdict(rep, &k.name, &c, w, Ok(g), l);
                if rep.stopped() {
                    return;
                }
            }
        }
        l.outcomes.insert(hash64(&k.name));
        rep.sample(|| format!("{} on all of Unicode", k.name));
    });
    rep.explore_n("byte classes and combinations", byte_classes().len(), |rep, i, l| {
        let b = byte_classes();
        let mut ks = vec![b[i].clone(), negate(&b[i])];
        for k in &b {
            for c in combine(&b[i], k) {
                ks.push(negate(&c));
                ks.push(c);
            }
        }
        let all: Vec<u8> = (0..=255).collect();
        for (n, k) in ks.iter().enumerate() {
            for x in &all {
                verdict(rep, &k.name, x, (k.want)(x), guarded(|| k.unit.is_match(x)), l);
            }
            l.outcomes.insert(hash64(&k.name));
            if n < 30 || !rep.quick() {
                through_match(rep, k, &all, leak_bytes, l);
            }
        }
    });
    // ranges and sets in every form
    let bp: Vec<u8> = if rep.quick() { vec![0, 1, 97, 127, 128, 255] } else { vec![0, 1, 2, 97, 98, 127, 128, 129, 254, 255] };
    let nb = {
        let mut v = vec![];
        sets(&bp, &mut v);
        v.len()
    };
    rep.explore_n("byte ranges and sets", nb.div_ceil(64), |rep, i, l| {
        let mut v = vec![];
        sets(&bp, &mut v);
        v.extend(byte_wrapped());
        let all: Vec<u8> = (0..=255).collect();
        let end = if (i + 1) * 64 >= nb { v.len() } else { (i + 1) * 64 };
        for k in &v[i * 64..end] {
            for k in [k.clone(), negate(k)] {
                for x in &all {
                    verdict(rep, &k.name, x, (k.want)(x), guarded(|| k.unit.is_match(x)), l);
                }
                l.outcomes.insert(hash64(&k.name));
                through_match(rep, &k, &all[90..140], leak_bytes, l);
            }
        }
    });
    let cp: Vec<char> = if rep.quick() {
        vec!['\0', 'a', '\u{7f}', 'é', '\u{d7ff}', '\u{e000}', '\u{10ffff}']
    } else {
        vec!['\0', 'a', 'b', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']
    };
    let nc = {
        let mut v = vec![];
        sets(&cp, &mut v);
        v.len()
    };
    let mut around: Vec<char> = vec![];
    for c in &cp {
        for d in -2i32..=2 {
            if let Some(x) = u32::try_from(*c as i32 + d).ok().and_then(char::from_u32) {
                around.push(x);
            }
        }
    }
    around.extend(['m', '中', '😀', '\u{3000}']);
    around.sort();
    around.dedup();
    rep.explore_n("char ranges and sets", nc.div_ceil(64), |rep, i, l| {
        let mut v = vec![];
        sets(&cp, &mut v);
        let end = if (i + 1) * 64 >= nc {
            v.extend(char_wrapped());
            v.len()
        } else {
            (i + 1) * 64
        };
        for k in &v[i * 64..end] {
            for k in [k.clone(), negate(k)] {
                for x in &around {
                    verdict(rep, &k.name, x, (k.want)(x), guarded(|| k.unit.is_match(x)), l);
                }
                l.outcomes.insert(hash64(&k.name));
                through_match(rep, &k, &around, leak_str, l);
            }
        }
    });
    big_sets(rep);
    // boolean combinations of character classes where any class changes
    let named = char_classes();
    let named: Vec<&Unit<char>> = named.iter().filter(|k| k.name != "closure").collect();
    let pts = char_points(&named, if rep.quick() { 0x180 } else { 0x3000 });
    let pts: Vec<char> = if rep.quick() {
        pts.iter().copied().enumerate().filter(|(i, c)| (*c as u32) < 0x180 || i % 7 == 0).map(|(_, c)| c).collect()
    } else {
        pts
    };
    rep.note(format!("boolean combinations of character classes are compared on {} characters around the changes of any class (all of Unicode for the classes themselves)", pts.len()));
    rep.explore_n("char combinations", n_cls, |rep, i, l| {
        let b = char_classes();
        for k in &b {
            for c in combine(&b[i], k) {
                let wants = &c.want;
                for x in &pts {
                    let w = wants(x);
                    let g = c.unit.is_match(x);
                    l.states += 1;
                    l.traces += 1;
                    l.transitions += 1;
                    if w { l.matched += 1 } else { l.failed += 1 }
                    if g != w {
                        verdict(rep, &c.name, x, w, Ok(g), l);
                        if rep.stopped() {
                            return;
                        }
                    }
                }
                l.outcomes.insert(hash64(&c.name));
            }
        }
    });
    // nested combinations with their effect on matching, multi-byte literals included
    let n1 = nest1().len();
    rep.explore_n("nested combinations through matching", n1, |rep, i, l| {
        let base = nest1();
        let items = ['a', 'b', 'é', 'ß', '中', '😀'];
        for k in &base {
            for c in combine(&base[i], k) {
                for c in [negate(&c), c] {
                    for x in &items {
                        verdict(rep, &c.name, x, (c.want)(x), guarded(|| c.unit.is_match(x)), l);
                    }
                    through_match(rep, &c, &items, leak_str, l);
                    l.outcomes.insert(hash64(&c.name));
                }
            }
        }
    });
}

/// Leaves and their combinations of depth one.
pub fn nest1() -> Vec<Unit<char>> {
    let mut leaves: Vec<Unit<char>> = vec![];
    for c in ['a', 'é', '中', '😀'] {
        leaves.push(u(format!("{c:?}"), c, move |x: &char| *x == c));
    }
    leaves.push(u("always", always::<char>(), |_| true));
    leaves.push(u("never", never::<char>(), |_| false));
    leaves.push(u("a..=é", 'a'..='é', |x: &char| *x >= 'a' && *x <= 'é'));
    leaves.push(u("[é,中]", ['é', '中'], |x: &char| *x == 'é' || *x == '中'));
    let mut v = leaves.clone();
    for a in &leaves {
        v.push(negate(a));
        for b in &leaves {
            v.extend(combine(a, b).into_iter().take(3));
        }
    }
    v
}
