//! P16, second part: mappers inside patterns, alone and in chains.

use crate::maps::{same, strings};
use mc_core::{Rep, hash64};
use neure::ctor::CtorOps;
use neure::ctx::*;
use neure::err::Error;
use neure::map::*;
use neure::neu::*;
use neure::regex;

type Bs = BytesCtx<'static>;
type Cs = CharsCtx<'static>;

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// Steps of a chain of integer mappers, none of which commutes with another.
const STEPS: usize = 7;
fn step(k: usize) -> Box<dyn Fn(i64) -> Result<i64, Error>> {
    match k {
        0 => Box::new(|x| Ok(x * 2)),
        1 => Box::new(|x| Ok(x + 3)),
        2 => Box::new(|x| if x % 2 == 0 { Ok(x / 2) } else { Err(Error::Uid(1)) }),
        3 => Box::new(|x| bounded(-3, 30).try_map(x)),
        4 => Box::new(|x| try_into::<u8>().try_map(x).map(|v: u8| v as i64)),
        5 => Box::new(|x| if x < 10 { Err(Error::Uid(2)) } else { Ok(-x) }),
        _ => Box::new(|x| bounded(5, 9).with_default(|| 100).try_map(x)),
    }
}

/// The same steps written out.
fn told(k: usize, x: i64) -> Result<i64, Error> {
    Ok(match k {
        0 => x * 2,
        1 => x + 3,
        2 if x % 2 != 0 => return Err(Error::Uid(1)),
        2 => x / 2,
        3 if !(-3..30).contains(&x) => return Err(Error::Bounded),
        4 if !(0..=255).contains(&x) => return Err(Error::TryInto),
        3 | 4 => x,
        5 if x < 10 => return Err(Error::Uid(2)),
        5 => -x,
        _ if (5..9).contains(&x) => x,
        _ => 100,
    })
}

pub fn chains(rep: &Rep) {
    let quick = rep.quick();
    let nums = strings(&['1', '0', '7', '+'], if quick { 3 } else { 4 });
    let n = if quick { 3 } else { 4 };
    let total = (0..=n).map(|k| STEPS.pow(k)).sum::<usize>();
    rep.explore_n("chains of mappers", total, |rep, mut i, l| {
        let mut len = 0;
        while i >= STEPS.pow(len) {
            i -= STEPS.pow(len);
            len += 1;
        }
        let ks: Vec<usize> = (0..len).scan(i, |i, _| {
            let k = *i % STEPS;
            *i /= STEPS;
            Some(k)
        }).collect();
        for s in &nums {
            for before in ["", "é"] {
                if rep.stopped() {
                    return;
                }
                let text = leak(&format!("{before}{s}x"));
                let mut w = str::parse::<i64>(s).map_err(|_| Error::FromStr);
                for k in &ks {
                    w = w.and_then(|x| told(*k, x));
                }
                let end = if w.is_ok() { before.len() + s.len() } else { before.len() };
                l.outcomes.insert(hash64(&format!("{w:?}")));
                // the value with the position it leaves, or the error with the old position
                let w = w.map(|x| (x, end));
                let p = || ['0', '1', '7', '+'].many0();
                let run = |pat: &dyn Fn(&mut Cs) -> Result<i64, Error>| {
                    let mut c = CharsCtx::new(text).with_offset(before.len());
                    let r = pat(&mut c);
                    if r.is_err() && c.offset() != before.len() {
                        return Err(Error::Uid(777));
                    }
                    r.map(|x| (x, c.offset()))
                };
                macro_rules! chain {
                    ($c:ident, $p:expr) => { $c.ctor(&$p) };
                }
                let whole = |ks: Vec<usize>| move |x: &'static str| {
                    ks.iter().try_fold(from_str::<i64>().try_map(x)?, |x, k| step(*k).try_map(x))
                };
                let all = ks.clone();
                same(rep, l, || format!("mappers {ks:?} one after the other on {text:?}"), w, || run(&|c| whole(all.clone())(c.ctor(&p())?)
                    .inspect_err(|_| { c.set_offset(before.len()); })));
                let one = whole(ks.clone());
                same(rep, l, || format!("mappers {ks:?} in one closure on {text:?}"), w, || run(&|c| chain!(c, CtorOps::<Cs>::try_map::<_, &'static str>(p(), &one))));
                let all = ks.clone();
                same(rep, l, || format!("mappers {ks:?} in a chain on {text:?}"), w, || run(&|c| {
                    let q = CtorOps::<Cs>::try_map::<_, &'static str>(p(), from_str::<i64>());
                    macro_rules! m {
                        ($q:expr, $k:expr) => { CtorOps::<Cs>::try_map::<_, i64>($q, step(all[$k])) };
                    }
                    match all.len() {
                        0 => chain!(c, q),
                        1 => chain!(c, m!(q, 0)),
                        2 => chain!(c, m!(m!(q, 0), 1)),
                        3 => chain!(c, m!(m!(m!(q, 0), 1), 2)),
                        _ => chain!(c, m!(m!(m!(m!(q, 0), 1), 2), 3)),
                    }
                }));
                if all.len() == 1 {
                    same(rep, l, || format!("mapper {ks:?} put in by map_to on {text:?}"), w, || run(&|c| {
                        let q = CtorOps::<Cs>::try_map::<_, &'static str>(p(), from_str::<i64>());
                        let q = CtorOps::<Cs>::map::<_, i64>(q, |_: i64| 0i64);
                        chain!(c, q.map_to::<_, i64>(step(all[0])))
                    }));
                }
                if all.iter().all(|k| *k < 2) {
                    // steps that cannot fail, through `map`
                    let f = |k: usize| move |x: i64| told(k, x).unwrap();
                    same(rep, l, || format!("map {ks:?} in a chain on {text:?}"), w, || run(&|c| {
                        let q = CtorOps::<Cs>::try_map::<_, &'static str>(p(), from_str::<i64>());
                        macro_rules! m {
                            ($q:expr, $k:expr) => { CtorOps::<Cs>::map::<_, i64>($q, f(all[$k])) };
                        }
                        match all.len() {
                            0 => chain!(c, q),
                            1 => chain!(c, m!(q, 0)),
                            2 => chain!(c, m!(m!(q, 0), 1)),
                            3 => chain!(c, m!(m!(m!(q, 0), 1), 2)),
                            _ => chain!(c, m!(m!(m!(m!(q, 0), 1), 2), 3)),
                        }
                    }));
                }
            }
        }
    });
    pairs(rep);
    fields(rep);
}

/// Selecting from what two patterns gave.
fn pairs(rep: &Rep) {
    let words = strings(&['a', 'b'], 2);
    let n = words.len();
    rep.explore_n("selecting from pairs", n * n * 3, |rep, i, l| {
        let (a, b, sep) = (&words[i % n], &words[i / n % n], [",", "", ";"][i / n / n]);
        let text = leak(&format!("!{a}{sep}{b}."));
        let first: &'static str = leak(a);
        let p = || first;
        let q = || ['a', 'b'].many0();
        let (end, split) = (1 + a.len() + sep.len() + b.len(), sep == ",");
        let ab = (&text[1..1 + a.len()], &text[end - b.len()..end]);
        l.outcomes.insert(hash64(&ab));
        macro_rules! go {
            ($name:literal, $ok:expr, $end:expr, $want:expr, $e:expr) => {{
                let w = if $ok { $want.map(|v| (v, $end)) } else { Err(Error::Fail) };
                same(rep, l, || format!("{} on {text:?}", $name), w, || {
                    let mut c = CharsCtx::new(text).with_offset(1);
                    let r = c.ctor(&$e);
                    if r.is_err() && c.offset() != 1 {
                        return Err(Error::Uid(777));
                    }
                    // which error a missing separator gives is left open
                    if !$ok && r.is_err() { Err(Error::Fail) } else { r.map(|v| (v, c.offset())) }
                });
            }};
        }
        type S = &'static str;
        // directly one after the other the second reads what follows, which a separator makes nothing
        let joined = if sep.is_empty() { (ab, end) } else { ((ab.0, ""), 1 + a.len()) };
        macro_rules! three {
            ($name:literal, $ok:expr, $v:expr, $e:expr) => {
                let (ab, end): ((S, S), usize) = $v;
                let eq = || if ab.0 == ab.1 { Ok(ab) } else { Err(Error::SelectEq) };
                let ne = || if ab.0 != ab.1 { Ok(ab) } else { Err(Error::SelectNeq) };
                go!($name, $ok, end, Ok(ab), $e);
                go!($name, $ok, end, Ok(ab.0), $e._0::<(S, S)>());
                go!($name, $ok, end, Ok(ab.1), $e._1::<(S, S)>());
                go!($name, $ok, end, eq(), $e._eq::<S, S>());
                go!($name, $ok, end, ne(), CtorOps::<Cs>::try_map::<_, (S, S)>($e, select_neq()));
                go!($name, $ok, end, Ok(ab.1), CtorOps::<Cs>::try_map::<_, (S, S)>($e._eq::<S, S>().map_to::<_, (S, S)>(mapper(|v: (S, S)| v)), select1()));
            };
        }
        macro_rules! cp {
            ($m:ident($($a:expr),*)) => { CtorOps::<Cs>::$m($($a),*) };
        }
        three!("then", true, joined, cp!(then(p(), q())));
        three!("sep_once", split, (ab, end), cp!(sep_once(p(), ",", q())));
        // the second is optional: read only when the test matches
        let opt = || CtorOps::<Cs>::if_then(p(), ",", q());
        let w = (ab.0, if split { Some(ab.1) } else { None });
        let stop = if split { end } else { 1 + a.len() };
        for k in 0..3 {
            same(rep, l, || format!("if_then selecting {k} on {text:?}"), Ok((if k == 1 { None } else { Some(w.0) }, if k == 0 { None } else { w.1 }, stop)), || {
                let mut c = CharsCtx::new(text).with_offset(1);
                let (x, y) = match k {
                    0 => (Some(c.ctor(&opt()._0::<(S, Option<S>)>())?), None),
                    1 => (None, c.ctor(&opt()._1::<(S, Option<S>)>())?),
                    _ => {
                        let (x, y) = c.ctor(&opt())?;
                        (Some(x), y)
                    }
                };
                Ok((x, y, c.offset()))
            });
        }
    });
}

/// Numbers read from a byte stream field by field.
fn fields(rep: &Rep) {
    let sizes = [1usize, 2, 4, 8];
    // a record of up to three fields, each of a size and an order
    let forms: Vec<Vec<(usize, bool)>> = {
        let one: Vec<(usize, bool)> = sizes.iter().flat_map(|s| [(*s, false), (*s, true)]).collect();
        let mut v: Vec<Vec<(usize, bool)>> = vec![];
        for a in &one {
            v.push(vec![*a]);
            for b in &one {
                v.push(vec![*a, *b]);
                for c in &one {
                    v.push(vec![*a, *b, *c]);
                }
            }
        }
        v
    };
    let data: &'static [u8] = Box::leak((0..40u8).map(|k| k.wrapping_mul(37) ^ 0xa5).collect::<Vec<u8>>().into_boxed_slice());
    rep.explore("records of numbers", &forms, |rep, form, l| {
        let need: usize = form.iter().map(|f| f.0).sum();
        for start in 0..4 {
            for have in need.saturating_sub(3)..need + 3 {
                if rep.stopped() {
                    return;
                }
                let mut want = vec![];
                let mut at = start;
                let mut ok = true;
                for &(n, big) in form {
                    if at + n > start + have {
                        ok = false;
                        break;
                    }
                    let mut x = 0u64;
                    for k in 0..n {
                        let b = data[at + if big { k } else { n - 1 - k }];
                        x = x << 8 | b as u64;
                    }
                    want.push(x);
                    at += n;
                }
                l.outcomes.insert(hash64(&want));
                let w: Result<_, Error> = Ok((want, at, ok));
                same(rep, l, || format!("record {form:?} from {start} with {have} bytes"), w, || {
                    let mut c = Bs::new(&data[..start + have]).with_offset(start);
                    let mut got = vec![];
                    for &(n, big) in form {
                        macro_rules! rd {
                            ($t:ty, $f:ident) => {
                                c.ctor(&CtorOps::<Bs>::try_map::<_, &'static [u8]>(regex::consume($f::<$t>().size()), $f::<$t>())).map(|v: $t| v as u64)
                            };
                        }
                        let r = match (n, big) {
                            (1, false) => rd!(u8, from_le_bytes),
                            (1, true) => rd!(u8, from_be_bytes),
                            (2, false) => rd!(u16, from_le_bytes),
                            (2, true) => rd!(u16, from_be_bytes),
                            (4, false) => rd!(u32, from_le_bytes),
                            (4, true) => rd!(u32, from_be_bytes),
                            (_, false) => rd!(u64, from_le_bytes),
                            (_, true) => rd!(u64, from_be_bytes),
                        };
                        match r {
                            Ok(v) => got.push(v),
                            Err(_) => return Ok((got, c.offset(), false)),
                        }
                    }
                    Ok((got, c.offset(), true))
                });
            }
        }
    });
}
