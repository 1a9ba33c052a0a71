//! Everything but pattern terms: units, conversions, stores, readers.

use crate::seen;
use mc_core::{Local, Rep, guarded};
use neure::ctx::*;
use neure::map::{self, FallibleMap};
use neure::neu::*;
use neure::span::{ArrayStorer, Span};

fn unit<T: std::fmt::Debug>(l: &mut Local, u: impl Neu<T>, items: &[T]) {
    for c in items {
        let r = guarded(|| u.is_match(c));
        let ok = r == Ok(true);
        seen(l, r, ok);
    }
}

macro_rules! both {
    ($l:ident, $i:ident, $t:ty, $($f:ident)*) => { $(
        unit($l, $f::<$t>(), $i);
        unit($l, !$f::<$t>(), $i);
    )* };
}
macro_rules! classes {
    ($l:ident, $i:ident, $t:ty) => {
        both!($l, $i, $t, ascii ascii_alphabetic ascii_alphanumeric ascii_control ascii_digit ascii_graphic
            ascii_hexdigit ascii_lowercase ascii_punctuation ascii_uppercase ascii_whitespace word always never);
    };
}

fn chars(l: &mut Local, i: &[char]) {
    classes!(l, i, char);
    unit(l, alphabetic(), i);
    unit(l, alphanumeric(), i);
    unit(l, control(), i);
    unit(l, lowercase(), i);
    unit(l, uppercase(), i);
    unit(l, numeric(), i);
    unit(l, whitespace(), i);
    unit(l, wild(), i);
    for r in 2..=36 {
        unit(l, digit(r), i);
    }
    unit(l, 'a'..'z', i);
    unit(l, 'a'..='z', i);
    unit(l, 'a'.., i);
    unit(l, ..'z', i);
    unit(l, ..='z', i);
    unit(l, .., i);
    unit(l, ['a', 'é'], i);
    unit(l, &['a', 'é'][..], i);
    unit(l, 'a', i);
    unit(l, range('b'..='é'), i);
    unit(l, equal('a').or('b').and(not('b')), i);
    unit(l, |c: &char| *c > 'm', i);
    unit(l, std::cell::Cell::new('a'), i);
    unit(l, std::cell::RefCell::new('a'), i);
    unit(l, (std::ops::Bound::Excluded('a'), std::ops::Bound::Included('c')), i);
    unit(l, neure::neu!(['a' - 'f']), i);
    unit(l, neure::neu!([^ 'a' - 'f']), i);
    unit(l, neure::neu!(), i);
}

#[cfg(feature = "alloc")]
fn chars_more(l: &mut Local, i: &[char]) {
    unit(l, vec!['a', 'c'], i);
    unit(l, std::rc::Rc::new('a'), i);
    unit(l, std::sync::Arc::new('a'), i);
    unit(l, Box::new('a') as Box<dyn Neu<char>>, i);
}

fn bytes(l: &mut Local, i: &[u8]) {
    classes!(l, i, u8);
    unit(l, b'a'..b'z', i);
    unit(l, b'a'..=b'z', i);
    unit(l, b'a'.., i);
    unit(l, ..b'z', i);
    unit(l, ..=b'z', i);
    unit(l, .., i);
    unit(l, [b'a', 200], i);
    unit(l, &[b'a', 200][..], i);
    unit(l, b'a', i);
    unit(l, range(b'b'..=200), i);
    unit(l, equal(b'a').or(b'b').and(not(b'b')), i);
}

fn conv<I: Copy, O: std::fmt::Debug>(l: &mut Local, m: impl FallibleMap<I, O>, v: &[I]) {
    for x in v {
        let r = guarded(|| m.try_map(*x));
        let ok = matches!(r, Ok(Ok(_)));
        seen(l, r, ok);
    }
}

macro_rules! nums {
    ($l:ident, $texts:ident, $raw:ident, $($t:ty)*) => { $(
        conv($l, map::from_str::<$t>(), $texts);
        conv($l, map::from_le_bytes::<$t>(), $raw);
        conv($l, map::from_be_bytes::<$t>(), $raw);
        conv($l, map::from_ne_bytes::<$t>(), $raw);
    )* };
}

macro_rules! radix {
    ($l:ident, $texts:ident, $($t:ty)*) => { $(
        for r in [2, 8, 10, 16, 36] {
            conv($l, map::from_str_radix::<$t>(r), $texts);
        }
    )* };
}

fn maps(l: &mut Local, texts: &[&'static str], raw: &[&'static [u8]]) {
    nums!(l, texts, raw, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    radix!(l, texts, u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    conv(l, map::from_str::<bool>(), texts);
    conv(l, map::from_str::<char>(), texts);
    conv(l, map::from_str::<f64>(), texts);
    conv(l, map::from_utf8::<&str>(), raw);
    let pairs: Vec<(&str, &str)> = texts.iter().flat_map(|a| texts.iter().take(8).map(move |b| (*a, *b))).collect();
    conv(l, map::select0(), &pairs);
    conv(l, map::select1(), &pairs);
    conv(l, map::select_eq(), &pairs);
    conv(l, map::select_neq(), &pairs);
    let all: Vec<u8> = (0..=255).collect();
    conv::<u8, u32>(l, map::into::<u32>(), &all);
    conv::<u8, i8>(l, map::try_into::<i8>(), &all);
    conv(l, map::bounded(10u8, 200), &all);
}

#[cfg(feature = "alloc")]
fn maps_more(l: &mut Local, raw: &[&'static [u8]]) {
    conv(l, map::from_utf8::<String>(), raw);
    conv(l, map::from_utf8_lossy::<std::borrow::Cow<'static, str>>(), raw);
}

/// All sequences of operations on a store.
fn store(l: &mut Local, first: usize, depth: usize) {
    type St = ArrayStorer<2, 2>;
    const OPS: usize = 8;
    let op = |s: &mut St, o: usize| match o {
        0 => drop(s.set_span(0, 0, Span::new(0, 1))),
        1 => drop(s.set_span(0, 1, Span::new(1, 2))),
        2 => drop(s.set_span(1, 0, Span::new(2, 0))),
        3 => drop(s.set_span(1, 1, Span::new(3, 9))),
        4 => drop(s.clr_span(0)),
        5 => drop(s.clr_span(1)),
        6 => drop(s.clr_span(7)),
        _ => drop(s.reset()),
    };
    let n = OPS.pow(depth as u32 - 1);
    for k in 0..n {
        let r = guarded(|| {
            let mut s = St::new();
            op(&mut s, first);
            let mut x = k;
            for _ in 1..depth {
                op(&mut s, x % OPS);
                x /= OPS;
            }
            let mut seen = vec![];
            for id in 0..3 {
                seen.push(format!("{} {:?} {:?}", s.contain(id), s.spans(id), s.spans_iter(id).map(|i| i.collect::<Vec<_>>())));
                for at in 0..3 {
                    seen.push(format!("{:?} {:?}", s.span(id, at), s.slice("abcd", id, at)));
                }
                seen.push(format!("{:?}", s.slice_iter("abcd", id).map(|i| i.collect::<Vec<_>>())));
            }
            (seen, s.len(), s.is_empty())
        });
        seen(l, r, true);
    }
}

fn look<C: Context<'static> + Clone>(l: &mut Local, c: C, n: usize)
where
    C::Orig<'static>: std::fmt::Debug,
    C::Item: std::fmt::Debug,
{
    for k in (0..n + 3).chain([usize::MAX]) {
        let r = guarded(|| (c.orig_at(k), c.peek_at(k).map(|i| i.collect::<Vec<_>>()), c.clone_at(k).map(|c| c.orig())));
        let ok = matches!(&r, Ok((Ok(_), ..)));
        seen(l, r, ok);
        for m in (0..n + 3).chain([usize::MAX]) {
            let r = guarded(|| c.orig_sub(k, m));
            let ok = matches!(&r, Ok(Ok(_)));
            seen(l, r, ok);
        }
    }
}

/// Runs of more items than small limits allow.
fn runs<C: crate::term::Hc>(rep: &Rep) {
    use crate::term::*;
    let q = rep.quick();
    let mut t: Vec<T> = (0..LEAVES).map(T::L).collect();
    for o in 0..ONE {
        for a in [0, 5, 7, 9] {
            t.push(T::A(o, Box::new(T::L(a))));
        }
    }
    for o in 0..TWO {
        for (a, b) in [(0, 1), (7, 1), (1, 0)] {
            t.push(T::B(o, Box::new(T::L(a)), Box::new(T::L(b))));
        }
    }
    let ns: &[usize] = if q { &[40, 257, 1030] } else { &[33, 40, 129, 257, 513, 1030, 2049] };
    let of = |n: usize| ["a".repeat(n), "ab".repeat(n), "a".repeat(n) + "b", " ".repeat(n) + "a", "é".repeat(n)].map(|s| &*s.leak());
    let i: Vec<&'static str> = ns.iter().flat_map(|n| of(*n)).collect();
    let longest: Vec<&'static str> = if q { &[5000][..] } else { &[5000, 33000, 66000] }.iter().flat_map(|n| of(*n)).chain([&*"a".repeat(66000).leak()]).collect();
    rep.explore(&format!("long runs / {}", C::NAME), &t, |_, t, l| {
        let p = build::<C>(t);
        let run = matches!(t, T::L(5..=10 | 15 | 17..=22));
        for s in i.iter().chain(longest.iter().filter(|_| run)) {
            let mut ok = false;
            let r = guarded(|| {
                let mut c = C::mk(s);
                let r = c.try_mat(&p);
                ok = r.is_ok();
                (r, c.offset())
            });
            seen(l, r, ok);
            let r = guarded(|| {
                let mut c = C::mk(s);
                let r = c.ctor_handler(&p, Hd::default());
                ok = r.is_ok();
                (mc_core::hash64(&r.ok()), c.offset())
            });
            seen(l, r, ok);
            if s.len() < 100 {
                let r = guarded(|| {
                    let mut c = C::mk(s);
                    let v: Vec<Span> = c.find_all::<Span>(p.clone()).collect();
                    (v.len(), v.last().copied(), c.offset())
                });
                seen(l, r, true);
            }
        }
    });
}

pub fn run(rep: &Rep, inputs: &[&'static str]) {
    runs::<crate::term::Cs>(rep);
    runs::<crate::term::Bs>(rep);
    runs::<crate::term::Pc>(rep);
    let cs: Vec<char> = if rep.quick() {
        (0..0x300).chain(0xfff0..0x10010).chain(0x10fff0..0x110000).filter_map(char::from_u32).collect()
    } else {
        (0..0x110000).filter_map(char::from_u32).collect()
    };
    let parts: Vec<&[char]> = cs.chunks(512).collect();
    rep.explore("units of characters", &parts, |_, p, l| chars(l, p));
    #[cfg(feature = "alloc")]
    rep.explore("units of characters with an allocator", &parts, |_, p, l| chars_more(l, p));
    let bs: Vec<u8> = (0..=255).collect();
    rep.explore("units of bytes", &[bs], |_, p, l| bytes(l, p));
    let mut texts = crate::strings(&['0', '1', '9', 'a', '-'], 3);
    texts.extend(["255", "256", "65535", "65536", "true", "é", "1e3", "z", "+7", "340282366920938463463374607431768211456"]);
    let raw: Vec<&'static [u8]> = {
        let bytes = [0u8, 1, 0x7f, 0x80, 0xc3, 0xa9, 0xff];
        let mut v: Vec<Vec<u8>> = vec![vec![]];
        let mut last = v.clone();
        for _ in 0..3 {
            last = last.iter().flat_map(|s| bytes.iter().map(move |b| [&s[..], &[*b]].concat())).collect();
            v.extend(last.iter().cloned());
        }
        for n in 4..20 {
            v.push((0..n).map(|i| 0x81 + i as u8 * 7).collect());
        }
        v.into_iter().map(|v| &*v.leak()).collect()
    };
    rep.explore("conversions", &[()], |_, _, l| maps(l, &texts, &raw));
    #[cfg(feature = "alloc")]
    rep.explore("conversions with an allocator", &[()], |_, _, l| maps_more(l, &raw));
    let firsts: Vec<usize> = (0..8).collect();
    let depth = if rep.quick() { 4 } else { 6 };
    rep.explore("stores", &firsts, |_, f, l| store(l, *f, depth));
    rep.explore("readers", inputs, |_, s, l| {
        look(l, CharsCtx::new(s), s.len());
        look(l, BytesCtx::new(s.as_bytes()), s.len());
    });
}
