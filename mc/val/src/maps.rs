//! P16: mappers against independent definitions, on every input of the stated sets.

use mc_core::{Local, Rep, guarded, hash64};
use neure::err::Error;
use neure::map::*;
use std::fmt::Debug;

pub fn strings(alpha: &[char], max: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = v.len();
        for i in from..to {
            for c in alpha {
                let s = format!("{}{c}", v[i]);
                v.push(s);
            }
        }
        from = to;
    }
    v
}

/// Compare one result with the reference; a panic is a violation as well.
pub fn same<O: PartialEq + Debug>(rep: &Rep, l: &mut Local, what: impl Fn() -> String, want: Result<O, Error>, f: impl FnOnce() -> Result<O, Error>) {
    l.states += 1;
    l.traces += 1;
    l.transitions += 1;
    let got = guarded(f);
    if want.is_ok() { l.matched += 1 } else { l.failed += 1 }
    if got.as_ref() != Ok(&want) {
        let w = what();
        rep.violation(&w, &format!("{w}: expected {want:?}, got {got:?}"));
    }
}

/// Numbers as sign and magnitude, so that the reference needs no parsing code of the library.
pub trait Int: Copy + PartialEq + Debug + 'static {
    const NAME: &'static str;
    const POS: u128;
    const NEG: u128;
    fn of(neg: bool, mag: u128) -> Self;
}

macro_rules! int {
    ($($t:ty)*) => {$(
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const POS: u128 = <$t>::MAX as u128;
            const NEG: u128 = if <$t>::MIN == 0 { 0 } else { <$t>::MAX as u128 + 1 };
            fn of(neg: bool, mag: u128) -> Self {
                if neg { (0 as $t).wrapping_sub(mag as $t) } else { mag as $t }
            }
        }
    )*};
}
int!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);

fn parse_int<T: Int>(s: &str, radix: u32) -> Result<T, Error> {
    let b = s.as_bytes();
    let (neg, d) = match b.first() {
        Some(b'+') => (false, &b[1..]),
        Some(b'-') if T::NEG > 0 => (true, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() {
        return Err(Error::FromStr);
    }
    let mut mag = 0u128;
    for c in d {
        let v = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'z' => c - b'a' + 10,
            b'A'..=b'Z' => c - b'A' + 10,
            _ => 255,
        } as u32;
        if v >= radix {
            return Err(Error::FromStr);
        }
        mag = mag
            .checked_mul(radix as u128)
            .and_then(|m| m.checked_add(v as u128))
            .ok_or(Error::FromStr)?;
    }
    if mag > if neg { T::NEG } else { T::POS } {
        return Err(Error::FromStr);
    }
    Ok(T::of(neg, mag))
}

fn digits(mut m: u128, radix: u32, upper: bool) -> String {
    let mut v = vec![];
    loop {
        let d = (m % radix as u128) as u8;
        v.push(match d {
            0..=9 => b'0' + d,
            _ if upper => b'A' + d - 10,
            _ => b'a' + d - 10,
        });
        m /= radix as u128;
        if m == 0 {
            break;
        }
    }
    v.reverse();
    String::from_utf8(v).unwrap()
}

/// Texts around the limits of the type, in one radix.
fn edges<T: Int>(radix: u32) -> Vec<String> {
    let mut v = vec![];
    for m in [T::POS, T::NEG, u64::MAX as u128, i64::MAX as u128, 255, 127, 1, 0] {
        for d in -2i32..=2 {
            let Some(m) = (if d < 0 { m.checked_sub(-d as u128) } else { m.checked_add(d as u128) }) else { continue };
            for upper in [false, true] {
                let t = digits(m, radix, upper);
                for pre in ["", "+", "-", "00", "-0", "+-", " ", "_"] {
                    for post in ["", "0", " ", "z", ".", "\u{0}"] {
                        v.push(format!("{pre}{t}{post}"));
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn ints<T: Int + std::str::FromStr>(rep: &Rep) {
    let quick = rep.quick();
    let mut items = strings(&['+', '-', '0', '1', '2', '7', '9', 'a', ' ', 'é'], if quick { 4 } else { 6 });
    items.extend(edges::<T>(10));
    for n in LONG {
        for (a, b) in [("0", "7"), ("0", ""), ("-0", "5"), ("+0", "9"), ("0", "128"), ("0", "x"), ("9", ""), (" ", "1"), ("1", " ")] {
            // the last character of the front is repeated
            let (sign, d) = a.split_at(a.len() - 1);
            items.push(format!("{sign}{}{b}", d.repeat(n)));
        }
    }
    rep.explore_n(&format!("from_str {}", T::NAME), items.len().div_ceil(500), |rep, i, l| {
        let m = from_str::<T>();
        let own = FromStr::<T>::default();
        for s in &items[i * 500..items.len().min(i * 500 + 500)] {
            if rep.stopped() {
                return;
            }
            let w = parse_int::<T>(s, 10);
            l.outcomes.insert(hash64(&format!("{w:?}")));
            same(rep, l, || format!("from_str::<{}>({s:?})", T::NAME), w, || m.try_map(s.as_str()));
            same(rep, l, || format!("from_str::<{}>(String {s:?})", T::NAME), w, || own.clone().try_map(s.clone()));
        }
    });
}

fn radix<T: Int + TryFromStrRadix>(rep: &Rep) {
    let quick = rep.quick();
    let short = strings(&['+', '-', '0', '1', '9', 'a', 'F', 'g', 'z', 'Z', ' ', 'é'], if quick { 2 } else { 3 });
    rep.explore_n(&format!("from_str_radix {}", T::NAME), 35, |rep, i, l| {
        let r = i as u32 + 2;
        let m = from_str_radix::<T>(r);
        if m.radix() != r {
            rep.violation(&format!("radix {r}"), "the radix does not read back");
        }
        for s in short.iter().chain(&edges::<T>(r)) {
            if rep.stopped() {
                return;
            }
            let w = parse_int::<T>(s, r);
            same(rep, l, || format!("from_str_radix::<{}>({r}) of {s:?}", T::NAME), w, || m.clone().try_map(s.as_str()));
        }
        l.outcomes.insert(hash64(&r));
    });
}

/// A number read from bytes in one order: the reference assembles it bit by bit.
trait Raw: Copy + 'static {
    const NAME: &'static str;
    const SIZE: usize;
    fn of(bits: u128) -> Self;
    fn bits(self) -> u128;
}

macro_rules! raw {
    ($($t:ty, $n:literal);*) => {$(
        impl Raw for $t {
            const NAME: &'static str = stringify!($t);
            const SIZE: usize = $n;
            fn of(bits: u128) -> Self { bits as $t }
            fn bits(self) -> u128 {
                // every bit of the value, without sign extension
                let mut b = 0u128;
                for k in 0..$n * 8 {
                    if self >> k & 1 != 0 { b |= 1u128 << k }
                }
                b
            }
        }
    )*};
}
raw!(i8, 1; u8, 1; i16, 2; u16, 2; i32, 4; u32, 4; i64, 8; u64, 8; i128, 16; u128, 16; isize, 8; usize, 8);
impl Raw for f32 {
    const NAME: &'static str = "f32";
    const SIZE: usize = 4;
    fn of(bits: u128) -> Self {
        f32::from_bits(bits as u32)
    }
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}
impl Raw for f64 {
    const NAME: &'static str = "f64";
    const SIZE: usize = 8;
    fn of(bits: u128) -> Self {
        f64::from_bits(bits as u64)
    }
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}

/// Lengths around which a buffer or a counter might change.
const LONG: [usize; 13] = [15, 16, 17, 31, 33, 63, 65, 127, 129, 255, 256, 257, 1000];

/// Byte strings of every length up to `size + 2`: each position with every value
/// on three backgrounds, and every pair of positions over the telling values.
fn raws(size: usize, quick: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    if size <= 2 {
        v.push(vec![]);
        for a in 0..=255u8 {
            v.push(vec![a]);
            for b in 0..=255u8 {
                v.push(vec![a, b]);
                if a % 16 == b % 16 {
                    v.push(vec![a, b, a ^ 0x5a]);
                }
            }
        }
        return v;
    }
    for len in LONG {
        v.push((0..len).map(|k| (k * 37 + 1) as u8).collect());
    }
    let tell = if quick { vec![0x00, 0x80, 0xff] } else { vec![0x00u8, 0x01, 0x7f, 0x80, 0xff] };
    for len in 0..=size + 2 {
        for bg in [0u8, 0xff, 0x11] {
            v.push(vec![bg; len]);
            for p in 0..len {
                for x in 0..=255u8 {
                    let mut b = vec![bg; len];
                    b[p] = x;
                    v.push(b);
                }
                for q in 0..p {
                    for &x in &tell {
                        for &y in &tell {
                            let mut b = vec![bg; len];
                            b[p] = x;
                            b[q] = y;
                            v.push(b);
                        }
                    }
                }
            }
        }
        v.push((0..len as u8).map(|k| k + 1).collect());
        v.push((0..len as u8).map(|k| 0xf0 - k).collect());
    }
    v.sort();
    v.dedup();
    v
}

fn order<T: Raw>(rep: &Rep)
where
    FromLeBytes<T>: for<'a> FallibleMap<&'a [u8], T>,
    FromBeBytes<T>: for<'a> FallibleMap<&'a [u8], T>,
    FromNeBytes<T>: for<'a> FallibleMap<&'a [u8], T>,
{
    let items = raws(T::SIZE, rep.quick());
    rep.explore_n(&format!("from bytes {}", T::NAME), items.len().div_ceil(2000), |rep, i, l| {
        let (le, be, ne) = (from_le_bytes::<T>(), from_be_bytes::<T>(), from_ne_bytes::<T>());
        for (n, (a, b)) in [(le.size(), le.out_size()), (be.size(), be.out_size()), (ne.size(), ne.out_size())]
            .into_iter()
            .map(|(a, b)| (T::NAME, (a, b)))
        {
            if (a, b) != (T::SIZE, T::SIZE) {
                rep.violation(&format!("size {n}"), &format!("{n} has size {a} and out_size {b}"));
            }
        }
        for s in &items[i * 2000..items.len().min(i * 2000 + 2000)] {
            if rep.stopped() {
                return;
            }
            let (mut wl, mut wb) = (None, None);
            if s.len() >= T::SIZE {
                let (mut x, mut y) = (0u128, 0u128);
                for k in 0..T::SIZE {
                    x |= (s[k] as u128) << (8 * k);
                    y = y << 8 | s[k] as u128;
                }
                (wl, wb) = (Some(x), Some(y));
            }
            let wn = if cfg!(target_endian = "little") { wl } else { wb };
            l.outcomes.insert(hash64(&wb));
            same(rep, l, || format!("from_le_bytes::<{}>({s:?})", T::NAME), wl.ok_or(Error::FromLeBytes), || {
                le.try_map(s.as_slice()).map(T::bits)
            });
            same(rep, l, || format!("from_be_bytes::<{}>({s:?})", T::NAME), wb.ok_or(Error::FromBeBytes), || {
                FromBeBytes::<T>::default().try_map(s.as_slice()).map(T::bits)
            });
            same(rep, l, || format!("from_ne_bytes::<{}>({s:?})", T::NAME), wn.ok_or(Error::FromNeBytes), || {
                ne.clone().try_map(s.as_slice()).map(T::bits)
            });
            debug_assert!(wl.is_none_or(|w| T::of(w).bits() == w));
        }
    });
}

/// Length of the well-formed sequence at the start, or of the part to replace.
fn utf8_step(b: &[u8]) -> Result<usize, usize> {
    let cont = |k: usize, lo: u8, hi: u8| b.get(k).is_some_and(|c| (lo..=hi).contains(c));
    let (n, lo, hi) = match b[0] {
        0..=0x7f => return Ok(1),
        0xc2..=0xdf => (2, 0x80, 0xbf),
        0xe0 => (3, 0xa0, 0xbf),
        0xed => (3, 0x80, 0x9f),
        0xe1..=0xef => (3, 0x80, 0xbf),
        0xf0 => (4, 0x90, 0xbf),
        0xf1..=0xf3 => (4, 0x80, 0xbf),
        0xf4 => (4, 0x80, 0x8f),
        _ => return Err(1),
    };
    if !cont(1, lo, hi) {
        return Err(1);
    }
    for k in 2..n {
        if !cont(k, 0x80, 0xbf) {
            return Err(k);
        }
    }
    Ok(n)
}

fn utf8(rep: &Rep) {
    let quick = rep.quick();
    let tell = [
        0x00u8, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3,
        0xf4, 0xf5, 0xff,
    ];
    let small = [0x41u8, 0x80, 0x90, 0xa0, 0xbf, 0xc3, 0xe2, 0xed, 0xf0, 0xf4];
    let mut items: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..=255u8 {
        items.push(vec![a]);
        for b in 0..=255u8 {
            items.push(vec![a, b]);
        }
    }
    fn all(alpha: &[u8], n: usize) -> Vec<Vec<u8>> {
        (0..n).fold(vec![vec![]], |v, _| {
            v.iter().flat_map(|p| alpha.iter().map(move |b| [&p[..], &[*b]].concat())).collect()
        })
    }
    items.extend(all(&tell, 3));
    items.extend(all(&tell, 4));
    items.extend(all(&small, 5));
    // long runs of every width, with one wrong byte in every place of interest
    for n in LONG {
        for c in ["a", "é", "好", "𝄞"] {
            let v = c.repeat(n).into_bytes();
            for k in [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, v.len() / 2, v.len() - 2, v.len() - 1] {
                for b in [0x80u8, 0xc3, 0xff] {
                    if k < v.len() {
                        let mut v = v.clone();
                        v[k] = b;
                        items.push(v);
                    }
                }
            }
            items.push(v[..v.len() - 1].to_vec());
            items.push(v);
        }
    }
    if !quick {
        items.extend(all(&small, 6));
        items.extend(all(&tell, 5));
    }
    for b in 0..=255u8 {
        // a mark in front, behind and twice
        items.push(vec![0xef, 0xbb, 0xbf, b]);
        items.push(vec![b, 0xef, 0xbb, 0xbf]);
        items.push(vec![0xef, 0xbb, 0xbf, 0xef, 0xbb, 0xbf, b]);
    }
    every_char(rep);
    let ch = 5000;
    rep.explore_n("from_utf8", items.len().div_ceil(ch), |rep, i, l| {
        for s in &items[i * ch..items.len().min(i * ch + ch)] {
            if rep.stopped() {
                return;
            }
            one_utf8(rep, l, s);
        }
    });
    rep.explore_n("from_utf8, every three bytes", 0x10000, |rep, i, l| {
        for c in 0..=255u8 {
            one_utf8(rep, l, &vec![(i >> 8) as u8, i as u8, c]);
        }
    });
}

fn one_utf8(rep: &Rep, l: &mut Local, s: &Vec<u8>) {
    let mut ok = true;
    let mut lossy: Vec<u8> = vec![];
    let mut k = 0;
    while k < s.len() {
        match utf8_step(&s[k..]) {
            Ok(n) => {
                lossy.extend(&s[k..k + n]);
                k += n;
            }
            Err(n) => {
                ok = false;
                lossy.extend([0xef, 0xbf, 0xbd]);
                k += n;
            }
        }
    }
    let w = if ok { Ok(s.clone()) } else { Err(Error::Utf8Error) };
    l.outcomes.insert(hash64(&lossy));
    same(rep, l, || format!("from_utf8::<&str>({s:x?})"), w.clone(), || {
        let m = from_utf8::<&str>();
        m.try_map(s.as_slice()).map(|t| t.as_bytes().to_vec())
    });
    same(rep, l, || format!("from_utf8::<String>({s:x?})"), w, || {
        let m = FromUtf8::<String>::default().clone();
        m.try_map(s.as_slice()).map(|t| t.into_bytes())
    });
    same(rep, l, || format!("from_utf8_lossy({s:x?})"), Ok(lossy), || {
        let m = from_utf8_lossy::<std::borrow::Cow<str>>().clone();
        m.try_map(s.as_slice()).map(|t| t.into_owned().into_bytes())
    });
}

/// Every character, alone, in front of and behind others, as text in every form.
fn every_char(rep: &Rep) {
    const CH: usize = 0x1000;
    rep.explore_n("every character", 0x110000 / CH, |rep, i, l| {
        for c in (i * CH..(i + 1) * CH).filter_map(|c| char::from_u32(c as u32)) {
            if rep.stopped() {
                return;
            }
            for s in [format!("{c}"), format!("{c}7"), format!("7{c}"), format!("{c}{c}")] {
                let b = s.as_bytes();
                let w = Ok(s.clone());
                same(rep, l, || format!("from_utf8::<&str>({s:?})"), w.clone(), || {
                    from_utf8::<&str>().try_map(b).map(|t| t.to_owned())
                });
                same(rep, l, || format!("from_utf8::<String>({s:?})"), w.clone(), || from_utf8::<String>().try_map(b));
                same(rep, l, || format!("from_utf8_lossy({s:?})"), w.clone(), || {
                    from_utf8_lossy::<std::borrow::Cow<str>>().try_map(b).map(|t| t.into_owned())
                });
                same(rep, l, || format!("from_str::<String>({s:?})"), w, || from_str::<String>().try_map(s.as_str()));
                let mut it = s.chars();
                let wc = match (it.next(), it.next()) {
                    (Some(c), None) => Ok(c),
                    _ => Err(Error::FromStr),
                };
                same(rep, l, || format!("from_str::<char>({s:?})"), wc, || from_str::<char>().try_map(s.as_str()));
                // only decimal digits and a sign make numbers
                let n = |d: char| d.to_digit(10).map(|d| d as i64);
                let wi = match s.chars().collect::<Vec<_>>()[..] {
                    [a] => n(a),
                    ['-', a] => n(a).map(|a| -a),
                    ['+', a] => n(a),
                    [a, b] => n(a).zip(n(b)).map(|(a, b)| 10 * a + b),
                    _ => None,
                }
                .ok_or(Error::FromStr);
                same(rep, l, || format!("from_str::<i64>({s:?})"), wi, || from_str::<i64>().try_map(s.as_str()));
            }
        }
    });
}

fn texts(rep: &Rep) {
    // targets other than integers
    let mut items = strings(&['t', 'r', 'u', 'e', 'é', '1', '.', '-'], if rep.quick() { 5 } else { 6 });
    items.extend(["false", "False", "TRUE", " true", "true ", "nan", "inf", "-inf", "1e400", "1e-400", "1e3", "+.5", "5.", "e5", "0x1"].map(String::from));
    rep.explore_n("from_str of other types", items.len().div_ceil(500), |rep, i, l| {
        for s in &items[i * 500..items.len().min(i * 500 + 500)] {
            if rep.stopped() {
                return;
            }
            let wb = match s.as_str() {
                "true" => Ok(true),
                "false" => Ok(false),
                _ => Err(Error::FromStr),
            };
            same(rep, l, || format!("from_str::<bool>({s:?})"), wb, || from_str::<bool>().try_map(s.as_str()));
            let mut it = s.chars();
            let wc = match (it.next(), it.next()) {
                (Some(c), None) => Ok(c),
                _ => Err(Error::FromStr),
            };
            same(rep, l, || format!("from_str::<char>({s:?})"), wc, || from_str::<char>().try_map(s.as_str()));
            same(rep, l, || format!("from_str::<String>({s:?})"), Ok(s.clone()), || from_str::<String>().try_map(s.as_str()));
            // the standard library defines floating point texts
            let wf = s.parse::<f64>().map(|f| f.to_bits()).map_err(|_| Error::FromStr);
            same(rep, l, || format!("from_str::<f64>({s:?})"), wf, || from_str::<f64>().try_map(s.as_str()).map(|f: f64| f.to_bits()));
            let wf = s.parse::<f32>().map(|f| f.to_bits()).map_err(|_| Error::FromStr);
            same(rep, l, || format!("from_str::<f32>({s:?})"), wf, || from_str::<f32>().try_map(s.as_str()).map(|f: f32| f.to_bits()));
        }
    });
}

fn narrow<A: Int + TryInto<B>, B: Int + TryFrom<A>>(rep: &Rep, l: &mut Local, vals: &[(bool, u128)]) {
    for &(neg, mag) in vals {
        if mag > if neg { A::NEG } else { A::POS } {
            continue;
        }
        let a = A::of(neg, mag);
        let w = if mag > if neg { B::NEG } else { B::POS } { Err(Error::TryInto) } else { Ok(B::of(neg, mag)) };
        same(rep, l, || format!("try_into::<{}>({a:?} as {})", B::NAME, A::NAME), w, || try_into::<B>().try_map(a));
    }
}

fn conversions(rep: &Rep) {
    let mut vals: Vec<(bool, u128)> = (0..=70000u128).flat_map(|m| [(false, m), (true, m)]).filter(|v| *v != (true, 0)).collect();
    for bits in 17..128u32 {
        for d in -2i128..=2 {
            let m = ((1u128 << bits) as i128).wrapping_add(d) as u128;
            vals.push((false, m));
            vals.push((true, m));
        }
    }
    vals.push((false, u128::MAX));
    let ch = 4000;
    rep.explore_n("into and try_into", vals.len().div_ceil(ch), |rep, i, l| {
        let v = &vals[i * ch..vals.len().min(i * ch + ch)];
        macro_rules! grid {
            ($($a:ty: $($b:ty)*);*) => {$($(narrow::<$a, $b>(rep, l, v);)*)*};
        }
        grid!(i8: u8 u16 u32 u64 u128 usize i16 i64; i16: i8 u8 u16 u64 usize i32; i32: i8 i16 u8 u16 u32 u64 usize i64;
              i64: i8 i16 i32 u8 u16 u32 u64 usize isize; u64: i8 i16 i32 i64 u8 u16 u32 u128 usize; u8: i8 u16 i32 u64; u16: i8 u8 i16 u32;
              u32: i8 u8 i16 u16 i32 u64; i128: i64 u64 u128 i8; u128: u64 i128 u8; usize: u8 u32 u64 i64);
        for &(neg, mag) in v {
            if !neg && mag <= 255 {
                let a = mag as u8;
                same(rep, l, || format!("into u64 {a}"), Ok(mag as u64), || into::<u64>().try_map(a));
                same(rep, l, || format!("into char {a}"), Ok(char::from_u32(a as u32).unwrap()), || into::<char>().try_map(a));
                same(rep, l, || format!("into i16 {a}"), Ok(mag as i16), || IntoMapper::<i16>::default().clone().try_map(a));
                same(rep, l, || format!("into Option {a}"), Ok(Some(a)), || into::<Option<u8>>().try_map(a));
            }
            l.outcomes.insert(hash64(&(neg, mag)));
        }
    });
    let n = 0x120000usize / 4096;
    rep.explore_n("try_into char", n, |rep, i, l| {
        for c in i as u32 * 4096..(i as u32 + 1) * 4096 {
            let w = match c {
                0..0xd800 | 0xe000..0x110000 => Ok(c),
                _ => Err(Error::TryInto),
            };
            same(rep, l, || format!("try_into::<char>({c:x})"), w, || {
                TryIntoMapper::<char>::default().clone().try_map(c).map(|c: char| c as u32)
            });
        }
    });
}

fn choose(rep: &Rep) {
    rep.explore_n("bounded", 9 * 9, |rep, i, l| {
        let (a, b) = (i as i32 / 9 - 4, i as i32 % 9 - 4);
        let m = bounded(a, b);
        for v in -6..=6 {
            let w = if a <= v && v < b { Ok(v) } else { Err(Error::Bounded) };
            l.outcomes.insert(hash64(&(a, b, v)));
            same(rep, l, || format!("bounded({a}, {b}) of {v}"), w, || m.try_map(v));
            same(rep, l, || format!("bounded({a}, {b}) copy of {v}"), w, || Bounded::new(a, b).clone().try_map(v));
        }
        let f = |k: i32| [f64::NEG_INFINITY, -1.5, -0.0, 0.0, f64::MIN_POSITIVE, 1.5, f64::INFINITY, f64::NAN, 2.0][(k + 4) as usize];
        let m = bounded(f(a), f(b));
        for v in -4..=4 {
            let (x, y, v) = (f(a), f(b), f(v));
            let w = if x <= v && v < y { Ok(v.to_bits()) } else { Err(Error::Bounded) };
            same(rep, l, || format!("bounded({x}, {y}) of {v}"), w, || m.try_map(v).map(f64::to_bits));
        }
        let f = |k: i32| ["", "a", "aa", "ab", "b", "é", "\u{0}", "A", "z"][(k + 4) as usize];
        let m = bounded(f(a), f(b));
        for v in -4..=4 {
            let (x, y, v) = (f(a).as_bytes(), f(b).as_bytes(), f(v));
            let w = if x <= v.as_bytes() && v.as_bytes() < y { Ok(v) } else { Err(Error::Bounded) };
            same(rep, l, || format!("bounded text of {v:?}"), w, || m.try_map(v));
        }
    });
    rep.explore_n("limits of bounded", 5, |rep, i, l| {
        let p = [i64::MIN, -1, 0, 1, i64::MAX];
        for b in p {
            for v in p {
                let a = p[i];
                let w = if a <= v && v < b { Ok(v) } else { Err(Error::Bounded) };
                same(rep, l, || format!("bounded({a}, {b}) of {v}"), w, || bounded(a, b).try_map(v));
            }
        }
    });
    rep.explore_n("selectors", 8 * 8, |rep, i, l| {
        let (a, b) = (i / 8, i % 8);
        let s = |k: usize| ["", "a", "b", "aa", "ab", "é", "A", "\u{0}"][k];
        let f = |k: usize| [0.0f64, -0.0, 1.0, f64::NAN, f64::INFINITY, -1.0, 2.0, 0.5][k];
        let eq = a == b;
        same(rep, l, || format!("select0 {a} {b}"), Ok(a), || Select0::default().try_map((a, s(b))));
        same(rep, l, || format!("select1 {a} {b}"), Ok(s(b)), || Select1::default().try_map((a, s(b))));
        same(rep, l, || format!("select0 of one type {a} {b}"), Ok(s(a)), || select0().try_map((s(a), s(b))));
        same(rep, l, || format!("select1 of one type {a} {b}"), Ok(s(b)), || select1().try_map((s(a), s(b))));
        let t = (s(a).to_string(), s(b));
        let w = |ok: bool, e: Error| if ok { Ok(t.clone()) } else { Err(e) };
        same(rep, l, || format!("select_eq {:?}", t), w(eq, Error::SelectEq), || select_eq().try_map(t.clone()));
        same(rep, l, || format!("select_neq {:?}", t), w(!eq, Error::SelectNeq), || select_neq().try_map(t.clone()));
        let t = (f(a), f(b));
        let feq = t.0 == t.1;
        let bits = |t: (f64, f64)| (t.0.to_bits(), t.1.to_bits());
        let w = |ok: bool, e: Error| if ok { Ok(bits(t)) } else { Err(e) };
        same(rep, l, || format!("select_eq {t:?}"), w(feq, Error::SelectEq), || SelectEq::default().try_map(t).map(bits));
        same(rep, l, || format!("select_neq {t:?}"), w(!feq, Error::SelectNeq), || SelectNeq::default().try_map(t).map(bits));
        l.outcomes.insert(hash64(&(a, b)));
    });
}

fn defaults(rep: &Rep) {
    let items = strings(&['-', '0', '1', '9', 'a'], 5);
    rep.explore_n("with_default", items.len().div_ceil(200), |rep, i, l| {
        for s in &items[i * 200..items.len().min(i * 200 + 200)] {
            for via in 0..3 {
                let calls = std::cell::Cell::new(0u32);
                let f = || {
                    calls.set(calls.get() + 1);
                    -77i32
                };
                let w = parse_int::<i32>(s, 10);
                l.outcomes.insert(hash64(&w.ok()));
                same(rep, l, || format!("with_default via {via} of {s:?}"), Ok(w.unwrap_or(-77)), || match via {
                    0 => with_default(f, from_str::<i32>()).try_map(s.as_str()),
                    1 => {
                        // the helper's type parameters are those of the mapper
                        WithDefaultHelper::<&str, i32>::with_default(from_str::<i32>(), f).try_map(s.as_str())
                    }
                    _ => WithDefault::new(f, from_str::<i32>()).clone().try_map(s.as_str()),
                });
                if calls.get() != w.is_err() as u32 {
                    rep.violation(
                        &format!("with_default calls {s:?}"),
                        &format!("the default was made {} times for {s:?} where the mapper gives {w:?}", calls.get()),
                    );
                }
            }
        }
    });
    rep.explore_n("sizes and plain mappers", 40, |rep, i, l| {
        let n = i;
        same(rep, l, || format!("fixed_size({n})"), Ok((n, "abc")), || {
            let m = fixed_size(n);
            let size = FallibleMap::<&str, &str>::out_size(&m.clone());
            Ok((size, m.try_map("abc")?))
        });
        same(rep, l, || format!("FixedSize::new({n})"), Ok((n, i)), || {
            let m = FixedSize::new(n);
            let size = FallibleMap::<usize, usize>::out_size(&m);
            Ok((size, m.try_map(i)?))
        });
        same(rep, l, || format!("with_default keeps the size {n}"), Ok(n), || {
            let m = with_default::<usize, usize, _, _>(|| 0, fixed_size(n));
            Ok(m.out_size())
        });
        same(rep, l, || format!("mapper {n}"), Ok(n * 3 + 1), || mapper(|x: usize| x * 3 + 1).try_map(n));
        same(rep, l, || format!("FuncMapper {n}"), Ok(n * 3 + 1), || FuncMapper::new(|x: usize| x * 3 + 1).clone().try_map(n));
        let f = |x: usize| if x % 2 == 0 { Ok(x / 2) } else { Err(Error::Uid(x)) };
        same(rep, l, || format!("closure {n}"), f(n), || f.try_map(n));
        macro_rules! size {
            ($($m:expr, $i:ty, $o:ty, $w:expr);* $(;)?) => {$(
                same(rep, l, || format!("out_size of {}", stringify!($m)), Ok::<usize, Error>($w), || Ok(FallibleMap::<$i, $o>::out_size(&$m)));
            )*};
        }
        size!(from_str::<u16>(), &str, u16, 2; from_str_radix::<i64>(7), &str, i64, 8; into::<u32>(), u8, u32, 4;
            try_into::<u8>(), u32, u8, 1; select0(), (u8, u32), u8, 1; select1(), (u8, u32), u32, 4; select_eq(), (u16, u16), (u16, u16), 4;
            bounded(1u8, 2), u8, u8, 1; mapper(|x: u8| x as u64), u8, u64, 8; from_utf8::<&str>(), &'static [u8], &'static str, 16);
        l.outcomes.insert(hash64(&n));
    });
}

pub fn p16(rep: &Rep) {
    rep.note("a radix outside 2..=36 is refused by the standard library's parser with a panic and is outside the property; floating point texts are defined by the standard library");
    rep.note("reading a number from bytes uses the first bytes it needs: fewer are an error, more are left alone");
    macro_rules! each {
        ($f:ident: $($t:ty)*) => {$($f::<$t>(rep);)*};
    }
    each!(ints: i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
    each!(radix: i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
    each!(order: i8 u8 i16 u16 i32 u32 i64 u64 f32 f64 i128 u128 isize usize);
    utf8(rep);
    texts(rep);
    conversions(rep);
    choose(rep);
    defaults(rep);
    crate::chain::chains(rep);
}
