//! P20: the pattern macros against the sets and counts their notation denotes.

use crate::maps::strings;
use mc_core::{Local, Rep, guarded, hash64};
use neure::ctx::*;
use neure::neu::*;
use neure::prelude::*;
use neure::regex;
use neure::{escape_strval, neu};

type Cs = CharsCtx<'static>;
type Bs = BytesCtx<'static>;

/// What one use did: the span and the extracted bytes, or nothing; and the final offset.
type Seen = (Option<(usize, usize)>, usize, Option<Vec<u8>>, usize);
type Run = Box<dyn Fn(&'static [u8], usize) -> Seen + Send + Sync>;

struct Case {
    name: String,
    min: usize,
    max: usize,
    text: bool,
    want: fn(u32) -> bool,
    run: Run,
}

struct UnitCase {
    name: String,
    text: bool,
    want: fn(u32) -> bool,
    run: Box<dyn Fn(u32) -> bool + Send + Sync>,
}

fn st(b: &'static [u8]) -> &'static str {
    std::str::from_utf8(b).expect("text inputs are text")
}

macro_rules! run_text {
    ($e:expr) => {
        Box::new(|s: &'static [u8], at: usize| {
            let mut c = Cs::new(st(s)).with_offset(at);
            let m = c.try_mat(&$e).ok().map(|s| (s.beg(), s.len()));
            let mut d = Cs::new(st(s)).with_offset(at);
            let v = d.ctor::<_, &'static str>(&$e).ok().map(|t| t.as_bytes().to_vec());
            (m, c.offset(), v, d.offset())
        })
    };
}
macro_rules! run_bytes {
    ($e:expr) => {
        Box::new(|s: &'static [u8], at: usize| {
            let mut c = Bs::new(s).with_offset(at);
            let m = c.try_mat(&$e).ok().map(|s| (s.beg(), s.len()));
            let mut d = Bs::new(s).with_offset(at);
            let v = d.ctor::<_, &'static [u8]>(&$e).ok().map(|t| t.to_vec());
            (m, c.offset(), v, d.offset())
        })
    };
}

const INF: usize = usize::MAX;

macro_rules! quantified {
    ($v:ident, $text:literal, $runner:ident, $want:expr, [$($t:tt)*]) => {
        quantified!(@ $v, $text, $runner, $want, [$($t)*];
            ["" () 1 1] ["?" (?) 0 1] ["*" (*) 0 INF] ["+" (+) 1 INF]
            ["{0}" ({0}) 0 0] ["{1}" ({1}) 1 1] ["{2}" ({2}) 2 2] ["{3}" ({3}) 3 3]
            ["{0,}" ({0,}) 0 INF] ["{1,}" ({1,}) 1 INF] ["{2,}" ({2,}) 2 INF]
            ["{0,2}" ({0,2}) 0 2] ["{1,1}" ({1,1}) 1 1] ["{1,3}" ({1,3}) 1 3] ["{2,3}" ({2,3}) 2 3] ["{2,4}" ({2, 4}) 2 4]);
    };
    (@ $v:ident, $text:literal, $runner:ident, $want:expr, $t:tt; $([$q:literal $qt:tt $min:expr, $max:expr])*) => {};
    (@ $v:ident, $text:literal, $runner:ident, $want:expr, $t:tt; $([$q:literal $qt:tt $min:tt $max:tt])*) => {
        $(quantified!(# $v, $text, $runner, $want, $t, $q, $qt, $min, $max);)*
    };
    (# $v:ident, $text:literal, $runner:ident, $want:expr, [$($t:tt)*], $q:literal, ($($qt:tt)*), $min:tt, $max:tt) => {
        $v.push(Case {
            name: format!("regex!({}{})", stringify!($($t)*), $q),
            min: $min,
            max: $max,
            text: $text,
            want: $want,
            run: $runner!(neure::regex!($($t)* $($qt)*)),
        });
    };
}

/// A notation for both macros: the unit and every quantified pattern of it.
macro_rules! text {
    ($v:ident, $u:ident, $want:expr, $($t:tt)*) => {
        quantified!($v, true, run_text, |c| { let w: fn(char) -> bool = $want; w(char::from_u32(c).unwrap()) }, [$($t)*]);
        $u.push(UnitCase {
            name: format!("neu!({})", stringify!($($t)*)),
            text: true,
            want: |c| { let w: fn(char) -> bool = $want; w(char::from_u32(c).unwrap()) },
            run: Box::new(|c| Neu::<char>::is_match(&neu!($($t)*), &char::from_u32(c).unwrap())),
        });
    };
}
macro_rules! bytes {
    ($v:ident, $u:ident, $want:expr, $($t:tt)*) => {
        quantified!($v, false, run_bytes, |c| { let w: fn(u8) -> bool = $want; w(c as u8) }, [$($t)*]);
        $u.push(UnitCase {
            name: format!("neu!({}) on bytes", stringify!($($t)*)),
            text: false,
            want: |c| { let w: fn(u8) -> bool = $want; w(c as u8) },
            run: Box::new(|c| Neu::<u8>::is_match(&neu!($($t)*), &(c as u8))),
        });
    };
}

fn cases() -> (Vec<Case>, Vec<UnitCase>) {
    let mut v = vec![];
    let mut u = vec![];
    // nothing is whitespace; the unit without anything is in the probe
    quantified!(v, true, run_text, |c| char::from_u32(c).unwrap().is_whitespace(), []);
    text!(v, u, |c| !c.is_whitespace(), ^);
    text!(v, u, |c| c != '\n', .);
    text!(v, u, |c| c == 'a', 'a');
    text!(v, u, |c| c == 'é', 'é');
    text!(v, u, |c| c == 'a', a);
    text!(v, u, |c| c == 'é', é);
    text!(v, u, |c| ('b'..='y').contains(&c), ['b' - 'y']);
    text!(v, u, |c| ('b'..='y').contains(&c), [b - y]);
    text!(v, u, |c| !('b'..='y').contains(&c), [^'b' - 'y']);
    text!(v, u, |c| !('b'..='y').contains(&c), [^b - y]);
    text!(v, u, |c| c == 'b', ['b' - 'b']);
    text!(v, u, |c| c == 'b', [b - b]);
    text!(v, u, |c| ('b'..='é').contains(&c), ['b' - 'é']);
    text!(v, u, |c| ('b'..='é').contains(&c), [b - é]);
    text!(v, u, |c| c.is_ascii_lowercase() || c.is_ascii_uppercase(), ['a'-'z' 'A'-'Z']);
    text!(v, u, |c| c.is_ascii_lowercase() || c.is_ascii_uppercase(), [a - z A - Z]);
    text!(v, u, |c| !(c.is_ascii_lowercase() || c.is_ascii_uppercase()), [^'a'-'z' 'A'-'Z']);
    text!(v, u, |c| !(c.is_ascii_lowercase() || c.is_ascii_uppercase()), [^a - z A - Z]);
    text!(v, u, |c| matches!(c, '0'..='4' | 'b'..='y' | 'B'..='Y'), ['0'-'4' 'b'-'y' 'B'-'Y']);
    text!(v, u, |c| matches!(c, 'c'..='d' | 'b'..='y' | 'B'..='Y'), [c - d b - y B - Y]);
    text!(v, u, |c| !matches!(c, '0'..='4' | 'b'..='y' | 'B'..='Y'), [^'0'-'4' 'b'-'y' 'B'-'Y']);
    text!(v, u, |c| !matches!(c, 'c'..='d' | 'b'..='y' | 'B'..='Y'), [^c - d b - y B - Y]);
    text!(v, u, |c| matches!(c, 'a' | 'z'), ['a' 'z']);
    text!(v, u, |c| matches!(c, 'a' | 'z'), [a z]);
    text!(v, u, |c| !matches!(c, 'a' | 'z'), [^ 'a' 'z']);
    text!(v, u, |c| !matches!(c, 'a' | 'z'), [^ a z]);
    text!(v, u, |c| c == 'a', ['a']);
    text!(v, u, |c| c == 'a', [a]);
    text!(v, u, |c| c != 'a', [^ 'a']);
    text!(v, u, |c| c != 'a', [^ a]);
    text!(v, u, |c| matches!(c, 'a' | 'é' | '"' | '\n'), ['a' 'é' '"' '\n']);
    text!(v, u, |c| matches!(c, 'a' | 'é' | 'z'), [a é z]);
    text!(v, u, |c| !matches!(c, 'a' | 'é' | '"' | '\n'), [^ 'a' 'é' '"' '\n']);
    text!(v, u, |c| !matches!(c, 'a' | 'é' | 'z'), [^ a é z]);
    text!(v, u, |c| matches!(c, 'b'..='y' | 'é' | ' '), ('b'..='y', 'é', ' '));
    text!(v, u, |c| c == 'é', ('é'));
    text!(v, u, |c| c.is_ascii_digit() || c == 'a', (digit(10), 'a'));
    text!(v, u, |c| c.is_ascii_digit() || !c.is_whitespace() && c != 'z', (neu!(['0' - '9']), neu!(^).and(neu!([^ z]))));
    bytes!(v, u, |c| c == b'a', b'a');
    bytes!(v, u, |c| c == 0xff, b'\xff');
    bytes!(v, u, |c| (b'b'..=b'y').contains(&c), [b'b' - b'y']);
    bytes!(v, u, |c| !(b'b'..=b'y').contains(&c), [^b'b' - b'y']);
    bytes!(v, u, |c| c >= 0x80, [b'\x80' - b'\xff']);
    bytes!(v, u, |_| true, [b'\x00' - b'\xff']);
    bytes!(v, u, |c| c.is_ascii_alphabetic(), [b'a'-b'z' b'A'-b'Z']);
    bytes!(v, u, |c| !c.is_ascii_alphabetic(), [^b'a'-b'z' b'A'-b'Z']);
    bytes!(v, u, |c| matches!(c, b'a' | b'z'), [b'a' b'z']);
    bytes!(v, u, |c| !matches!(c, b'a' | b'z'), [^ b'a' b'z']);
    bytes!(v, u, |c| c == b'z', [b'z']);
    bytes!(v, u, |c| c != b'z', [^ b'z']);
    bytes!(v, u, |c| matches!(c, b'a' | b'b'..=b'y' | 0xff), (b'a', b'b'..=b'y', b'\xff'));
    bytes!(v, u, |c| c.is_ascii_alphabetic() || c == b'_', (u8::is_ascii_alphabetic, b'_'));
    (v, u)
}

fn check(rep: &Rep, l: &mut Local, name: &str, s: &'static [u8], at: usize, end: Option<usize>, run: &Run) {
    l.states += 1;
    l.traces += 2;
    let want: Seen = match end {
        Some(e) => (Some((at, e - at)), e, Some(s[at..e].to_vec()), e),
        None => (None, at, None, at),
    };
    let got = guarded(|| run(s, at));
    if end.is_some() { l.matched += 1 } else { l.failed += 1 }
    l.transitions += 2 * (1 + end.map_or(0, |e| e - at)) as u64;
    if got.as_ref() != Ok(&want) {
        let t = String::from_utf8_lossy(s);
        rep.violation(
            &format!("{name}:{s:x?}@{at}"),
            &format!("{name} on {t:?} ({s:x?}) from {at}: expected span, offset, value, offset {want:?}, got {got:?}"),
        );
    }
}

struct Esc {
    name: &'static str,
    text: bool,
    quote: char,
    prefix: char,
    set: fn(char) -> bool,
    bare: Run,
    closed: Run,
}

fn escapes() -> Vec<Esc> {
    let mut v: Vec<Esc> = vec![];
    macro_rules! esc {
        ($text:literal, $runner:ident, $q:literal, $p:literal, $e:expr, $quoted:literal, $set:expr) => {
            v.push(Esc {
                name: stringify!($q $p $e),
                text: $text,
                quote: $q as u32 as u8 as char,
                prefix: $p as u32 as u8 as char,
                set: $set,
                bare: $runner!(escape_strval!($q, $p, $e)),
                closed: $runner!(escape_strval!($q, $p, $e).enclose($quoted, $quoted).pat()),
            });
        };
    }
    macro_rules! both {
        ($($q:literal $bq:literal, $p:literal $bp:literal, $e:expr, $be:expr, $s:literal $bs:literal, $set:expr;)*) => {$(
            esc!(true, run_text, $q, $p, $e, $s, $set);
            esc!(false, run_bytes, $bq, $bp, $be, $bs, $set);
        )*};
    }
    both! {
        '"' b'"', '\\' b'\\', ['\\', '"'], [b'\\', b'"'], "\"" b"\"", |c| matches!(c, '\\' | '"');
        '"' b'"', '\\' b'\\', ['\\', '"', 'n'], [b'\\', b'"', b'n'], "\"" b"\"", |c| matches!(c, '\\' | '"' | 'n');
        '"' b'"', '\\' b'\\', '"', b'"', "\"" b"\"", |c| c == '"';
        '"' b'"', '\\' b'\\', ['n', 'a'], [b'n', b'a'], "\"" b"\"", |c| matches!(c, 'a' | 'n');
        '"' b'"', '\\' b'\\', neu!(['a' - 'n']), neu!([b'a' - b'n']), "\"" b"\"", |c| ('a'..='n').contains(&c);
        '"' b'"', '"' b'"', '"', b'"', "\"" b"\"", |c| c == '"';
        'a' b'a', '\\' b'\\', ['a'], [b'a'], "a" b"a", |c| c == 'a';
        'n' b'n', 'a' b'a', ['n', 'a', '\\'], [b'n', b'a', b'\\'], "n" b"n", |c| matches!(c, 'n' | 'a' | '\\');
    }
    v
}

/// The unit without anything, in a program of its own.
fn probe(rep: &Rep, l: &mut Local) {
    let dir = mc_core::verif().join("mc/probe");
    let out = std::process::Command::new("cargo")
        .args(["run", "--offline", "--locked", "-q"])
        .current_dir(&dir)
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            eprintln!("cannot run cargo: {e}");
            std::process::exit(2);
        }
    };
    if !out.status.success() {
        let e = String::from_utf8_lossy(&out.stderr).into_owned();
        if e.contains("could not compile `neure`") || e.contains("failed to ") && !e.contains("could not compile") {
            eprintln!("the program using neu!() could not be tried: {e}");
            std::process::exit(2);
        }
        rep.violation("neu!()", &format!("a program using neu!() does not build or run: {e}"));
        return;
    }
    let got: Vec<u32> = String::from_utf8_lossy(&out.stdout).lines().map(|h| u32::from_str_radix(h, 16).expect("a number")).collect();
    let want: Vec<u32> = (0..0x110000).filter(|c| char::from_u32(*c).is_some_and(char::is_whitespace)).collect();
    l.states += 0x10f800;
    l.traces += 0x10f800;
    if got != want {
        rep.violation("neu!()", &format!("neu!() accepts {got:x?}, not {want:x?}"));
    }
}

/// Repetitions around sizes at which counters or buffers might change.
const LONG: [usize; 12] = [15, 16, 17, 31, 33, 64, 127, 129, 255, 256, 257, 1000];

pub fn p20(rep: &Rep) {
    let quick = rep.quick();
    rep.note("an item that starts no allowed escape is an ordinary item of a quoted string, the prefix included: that is how the macro is defined");
    rep.explore_n("neu!()", 1, |rep, _, l| probe(rep, l));
    let (cases, units) = cases();
    // units: every item there is
    let step = 0x4000u32;
    let per = (0x110000 / step) as usize;
    rep.explore_n("units, every item", units.len() * per, |rep, i, l| {
        let (u, at) = (&units[i / per], (i % per) as u32 * step);
        if !u.text && at > 0 {
            return;
        }
        for c in at..if u.text { at + step } else { 256 } {
            if u.text && char::from_u32(c).is_none() {
                continue;
            }
            l.states += 1;
            l.traces += 1;
            l.transitions += 1;
            let want = (u.want)(c);
            let got = (u.run)(c);
            if want { l.matched += 1 } else { l.failed += 1 }
            if got != want {
                rep.violation(&format!("{}:{c:x}", u.name), &format!("{} on item {c:#x}: expected {want}, got {got}", u.name));
            }
        }
        l.outcomes.insert(hash64(&(i, l.matched)));
    });
    let alpha: &[char] = &['a', 'b', 'y', 'z', 'B', 'Z', '0', 'é', ' ', '\n'];
    let texts: Vec<&'static [u8]> = strings(alpha, if quick { 4 } else { 5 })
        .into_iter()
        // runs, longer than every bound
        .chain(alpha.iter().flat_map(|c| (4..8).flat_map(move |n| ["", "a", "é"].map(|e| str::repeat(&c.to_string(), n) + e))))
        .chain(alpha.iter().flat_map(|c| LONG.into_iter().flat_map(move |n| ["", "a", "é"].map(|e| str::repeat(&c.to_string(), n) + e))))
        .map(|s| &*Box::leak(s.into_bytes().into_boxed_slice()))
        .collect();
    let alpha_b = [b'a', b'b', b'y', b'z', b'B', b'_', b'1', 0xff, 0x80];
    let mut byteses: Vec<&'static [u8]> = vec![&[]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..if quick { 4 } else { 5 } {
        last = last.iter().flat_map(|p| alpha_b.iter().map(move |b| [&p[..], &[*b]].concat())).collect();
        byteses.extend(last.iter().map(|s| &*Box::leak(s.clone().into_boxed_slice())));
    }
    for b in alpha_b {
        for n in (4..8).chain(LONG) {
            byteses.push(Box::leak(vec![b; n].into_boxed_slice()));
        }
    }
    rep.explore("patterns", &cases, |rep, case, l| {
        for s in if case.text { &texts } else { &byteses } {
            if rep.stopped() {
                return;
            }
            for at in 0..=s.len().min(2) {
                if case.text && !st(s).is_char_boundary(at) {
                    continue;
                }
                let mut n = 0;
                let mut e = at;
                while n < case.max && e < s.len() {
                    let (c, w) = if case.text {
                        let c = st(&s[e..]).chars().next().unwrap();
                        (c as u32, c.len_utf8())
                    } else {
                        (s[e] as u32, 1)
                    };
                    if !(case.want)(c) {
                        break;
                    }
                    n += 1;
                    e += w;
                }
                let end = (n >= case.min).then_some(e);
                l.outcomes.insert(hash64(&(s, end)));
                check(rep, l, &case.name, s, at, end, &case.run);
            }
        }
        rep.sample(|| format!("{} between {} and {}", case.name, case.min, case.max));
    });
    let quoted: Vec<&'static [u8]> = strings(&['"', '\\', 'n', 'a', 'é'], if quick { 8 } else { 10 })
        .into_iter()
        // long ones, of one or two kinds of parts
        .chain(["a", "\\n", "\\\"", "\\\\", "é", "a\\n", "\\\\a"].into_iter().flat_map(|p| {
            LONG.into_iter().flat_map(move |n| {
                ["", "\"", "\\", "\\\"", "a\"a"].into_iter().flat_map(move |e| ["", "\""].map(|q| format!("{q}{}{e}", p.repeat(n))))
            })
        }))
        .map(|s| &*Box::leak(s.into_bytes().into_boxed_slice()))
        .collect();
    let esc = escapes();
    let ch = 2000;
    let parts = quoted.len().div_ceil(ch);
    rep.explore_n("quoted strings", esc.len() * parts, |rep, i, l| {
        let e = &esc[i / parts];
        let p = i % parts;
        for s in &quoted[p * ch..quoted.len().min(p * ch + ch)] {
            if rep.stopped() {
                return;
            }
            let t: Vec<(usize, char)> = st(s).char_indices().collect();
            let body = |mut k: usize| {
                // position in items; bytes of a longer character are ordinary items
                loop {
                    match (t.get(k), t.get(k + 1)) {
                        (Some((_, c)), Some((_, d))) if *c == e.prefix && (e.set)(*d) => k += 2,
                        (Some((_, c)), _) if *c != e.quote => k += 1,
                        _ => return k,
                    }
                }
            };
            let pos = |k: usize| t.get(k).map_or(s.len(), |x| x.0);
            check(rep, l, &format!("escape_strval {} text={}", e.name, e.text), s, 0, Some(pos(body(0))), &e.bare);
            let is_quote = |k: usize| t.get(k).is_some_and(|x| x.1 == e.quote);
            let end = if is_quote(0) && is_quote(body(1)) { Some(pos(body(1) + 1)) } else { None };
            let name = format!("enclosed escape_strval {} text={}", e.name, e.text);
            l.outcomes.insert(hash64(&(s, end)));
            check(rep, l, &name, s, 0, end, &e.closed);
        }
    });
}
