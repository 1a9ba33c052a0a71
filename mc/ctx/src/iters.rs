//! P15: iterators over captured ranges and bytes visit each item exactly once.

use crate::cx::*;
use mc_core::{Local, Rep, guarded, hash64};
use neure::iter::*;
use neure::span::*;
use std::fmt::Debug;

/// How an iterator is used.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Next,
    Nth(usize),
    /// go on with a copy, the original is drained at the end
    Copy,
    /// a copy is drained here
    Peek,
}

const OPS: [Op; 5] = [Op::Next, Op::Nth(1), Op::Nth(2), Op::Copy, Op::Peek];

/// All uses up to the depth; after every step the size hint must bound what is left.
fn uses<I, T>(rep: &Rep, name: &str, mk: &dyn Fn() -> I, len: &dyn Fn(&I) -> Option<usize>, items: &[T], depth: usize, l: &mut Local)
where
    I: Iterator<Item = T> + Clone,
    T: PartialEq + Debug + Clone + std::hash::Hash,
{
    let mut h = vec![];
    walk(rep, name, mk, len, items, depth, &mut h, l);
}

#[allow(clippy::too_many_arguments)]
fn walk<I, T>(
    rep: &Rep,
    name: &str,
    mk: &dyn Fn() -> I,
    len: &dyn Fn(&I) -> Option<usize>,
    items: &[T],
    depth: usize,
    h: &mut Vec<Op>,
    l: &mut Local,
) where
    I: Iterator<Item = T> + Clone,
    T: PartialEq + Debug + Clone + std::hash::Hash,
{
    if rep.stopped() {
        return;
    }
    let r = guarded(|| one(mk, len, items, h)).and_then(|r| r);
    l.states += 1;
    l.traces += 1;
    l.transitions += h.len() as u64;
    if items.is_empty() { l.failed += 1 } else { l.matched += 1 }
    match r {
        Ok(o) => {
            l.outcomes.insert(o);
        }
        Err(e) => {
            rep.violation(&format!("{name}:{items:?}:{h:?}"), &format!("{name} over {items:?}, used {h:?}: {e}"));
            return;
        }
    }
    if h.len() < depth {
        for op in OPS {
            h.push(op);
            walk(rep, name, mk, len, items, depth, h, l);
            h.pop();
        }
    }
}

fn one<I, T>(mk: &dyn Fn() -> I, len: &dyn Fn(&I) -> Option<usize>, items: &[T], h: &[Op]) -> Result<u64, String>
where
    I: Iterator<Item = T> + Clone,
    T: PartialEq + Debug + Clone + std::hash::Hash,
{
    let hint = |it: &I, pos: usize| {
        let left = items.len().saturating_sub(pos);
        let (lo, hi) = it.size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("size hint {lo}..{hi:?} with {left} items left"));
        }
        match len(it) {
            Some(n) if n != left => Err(format!("len {n} with {left} items left")),
            _ => Ok(()),
        }
    };
    let drain = |mut it: I, pos: usize| {
        for k in pos..items.len() {
            hint(&it, k)?;
            let v = it.next();
            if v.as_ref() != Some(&items[k]) {
                return Err(format!("item {k}: expected {:?}, got {v:?}", items[k]));
            }
        }
        for _ in 0..3 {
            hint(&it, items.len())?;
            if let Some(v) = it.next() {
                return Err(format!("yields {v:?} after the end"));
            }
        }
        Ok(())
    };
    let mut it = mk();
    let mut pos = 0;
    let mut kept: Vec<(I, usize)> = vec![];
    hint(&it, 0)?;
    for op in h {
        match *op {
            Op::Next | Op::Nth(_) => {
                let k = if let Op::Nth(k) = op { *k } else { 0 };
                let v = if let Op::Nth(k) = op { it.nth(*k) } else { it.next() };
                let w = items.get(pos + k).cloned();
                if v != w {
                    return Err(format!("{op:?} at {pos}: expected {w:?}, got {v:?}"));
                }
                pos = (pos + k + 1).min(items.len());
            }
            Op::Copy => kept.push((it.clone(), pos)),
            Op::Peek => drain(it.clone(), pos)?,
        }
        hint(&it, pos)?;
    }
    // the provided consumers agree
    let left = &items[pos.min(items.len())..];
    if it.clone().count() != left.len() || it.clone().last() != left.last().cloned() {
        return Err("count or last differ from what is left".into());
    }
    if it.clone().collect::<Vec<T>>() != left || it.clone().fold(vec![], |mut a, v| { a.push(v); a }) != left {
        return Err("collect or fold differ from what is left".into());
    }
    drain(it, pos)?;
    for (it, pos) in kept {
        drain(it, pos).map_err(|e| format!("original of a copy: {e}"))?;
    }
    Ok(hash64(&(pos, left)))
}

fn spans_for(len: usize) -> Vec<Vec<Span>> {
    // distinct ranges of "abcdefghijklmnop"
    let pool = [Span::new(3, 2), Span::new(0, 1), Span::new(5, 0), Span::new(3, 2), Span::new(1, 6), Span::new(16, 0)];
    let mut v = vec![];
    // every choice of `len` ranges out of three kinds, in order
    for code in 0..3usize.pow(len as u32) {
        let mut c = code;
        v.push((0..len).map(|k| {
            let s = pool[(c % 3 + k) % pool.len()];
            c /= 3;
            s
        }).collect());
    }
    v
}

pub fn p15(rep: &Rep) {
    let q = rep.quick();
    rep.note("slicing iterators are used with ranges that lie in the value; ranges outside are the subject of the slicing part");
    const T: &str = "abcdefghijklmnop";
    let depth = |n: usize| if q { (n + 2).min(6) } else { (n + 2).min(8) };
    // bytes with positions
    let lens: Vec<usize> = (0..=if q { 6 } else { 7 }).collect();
    rep.explore(&format!("indexed items, every use to depth {}", depth(9)), &lens, |rep, &n, l| {
        let b: Vec<u8> = (0..n).map(|k| 255 - 7 * k as u8).collect();
        let items: Vec<(usize, u8)> = b.iter().copied().enumerate().collect();
        uses(rep, "BytesIndices", &|| BytesIndices::new(&b), &|i| Some(i.len()), &items, depth(n), l);
        let w: Vec<u32> = (0..n).map(|k| 70000 + k as u32).collect();
        let items: Vec<(usize, u32)> = w.iter().copied().enumerate().collect();
        uses(rep, "BytesIndices<u32>", &|| BytesIndices::new(&w), &|i| Some(i.len()), &items, depth(n).min(4), l);
    });
    let long: Vec<u8> = (0..100_000u32).map(|k| (k % 251) as u8).collect();
    rep.explore_n("indexed items, long input", 1, |rep, _, l| {
        let mut n = 0;
        let ok = BytesIndices::new(&long).enumerate().all(|(k, (i, b))| {
            n += 1;
            k == i && long[k] == b
        });
        l.states += 1;
        l.traces += 1;
        if !ok || n != long.len() {
            rep.violation("long", "a long input is not yielded item by item");
        }
    });
    // ranges and the text they cover
    let mut lists: Vec<Vec<Span>> = (0..=if q { 4 } else { 5 }).flat_map(spans_for).collect();
    lists.push((0..9).map(|k| Span::new(k, k % 4)).collect());
    rep.explore("ranges", &lists, |rep, s, l| {
        let d = depth(s.len().min(5));
        uses(rep, "SpanIterator", &|| SpanIterator::new(s), &|_| None, s, d, l);
        let t: Vec<&str> = s.iter().map(|v| &T[v.beg..v.beg + v.len]).collect();
        uses(rep, "IteratorBySpan<str>", &|| IteratorBySpan::new(T, s), &|i| Some(i.len()), &t, d, l);
        let t: Vec<&[u8]> = t.iter().map(|t| t.as_bytes()).collect();
        uses(rep, "IteratorBySpan<[u8]>", &|| IteratorBySpan::new(T.as_bytes(), s), &|i| Some(i.len()), &t, d.min(4), l);
        if !s.is_empty() {
            let st = VecStorer::new_with(vec![vec![], s.clone()]);
            uses(rep, "VecStorer::spans_iter", &|| st.spans_iter(1).unwrap(), &|_| None, s, d.min(4), l);
            let ctx = Pb::mk(T);
            uses(rep, "VecStorer::slice_iter", &|| st.slice_iter(&ctx, 1).unwrap(), &|i| Some(i.len()), &t, d.min(4), l);
        }
        rep.sample(|| format!("{s:?}"));
    });
    // many ranges, many slots, gaps of every length between the filled ones
    let many = [31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000];
    rep.explore("many ranges", &many, |rep, &n, l| {
        let s: Vec<Span> = (0..n).map(|k| Span::new(k * 7 % 16, k % (16 - k * 7 % 16 + 1))).collect();
        uses(rep, "SpanIterator", &|| SpanIterator::new(&s), &|_| None, &s, 2, l);
        let t: Vec<&str> = s.iter().map(|v| &T[v.beg..v.beg + v.len]).collect();
        uses(rep, "IteratorBySpan<str>", &|| IteratorBySpan::new(T, &s), &|i| Some(i.len()), &t, 2, l);
        for gap in [0, 1, 2, 7, 8, 9, n / 2, n - 1] {
            for first in [0, 1, gap] {
                let slots: Vec<Option<Span>> = (0..n).map(|k| (k >= first && (k - first) % (gap + 1) == 0).then_some(s[k])).collect();
                let s: Vec<Span> = slots.iter().flatten().copied().collect();
                uses(rep, "OptionSpanIterator", &|| OptionSpanIterator::new(&slots), &|_| None, &s, 1, l);
                let t: Vec<&str> = s.iter().map(|v| &T[v.beg..v.beg + v.len]).collect();
                uses(rep, "IteratorByOptionSpan<&str>", &|| IteratorByOptionSpan::new(&T, &slots), &|i| Some(i.len()), &t, 1, l);
            }
        }
    });
    // slots, some of them empty
    let n = if q { 6 } else { 7 };
    let masks: Vec<(usize, usize)> = (0..=n).flat_map(|k| (0..1usize << k).map(move |m| (k, m))).collect();
    rep.explore("ranges with empty slots", &masks, |rep, &(k, m), l| {
        let slots: Vec<Option<Span>> = (0..k).map(|i| (m >> i & 1 == 1).then(|| Span::new(i * 2, i % 3))).collect();
        let s: Vec<Span> = slots.iter().flatten().copied().collect();
        let d = depth(s.len().min(5));
        uses(rep, "OptionSpanIterator", &|| OptionSpanIterator::new(&slots), &|_| None, &s, d, l);
        let t: Vec<&str> = s.iter().map(|v| &T[v.beg..v.beg + v.len]).collect();
        uses(rep, "IteratorByOptionSpan<&str>", &|| IteratorByOptionSpan::new(&T, &slots), &|i| Some(i.len()), &t, d, l);
        if k == 4 && m > 0 {
            let st = ArrayStorer::new_with([[None; 4], [slots[0], slots[1], slots[2], slots[3]]]);
            uses(rep, "ArrayStorer::spans_iter", &|| st.spans_iter(1).unwrap(), &|_| None, &s, d.min(4), l);
            let ctx = Pc::mk(T);
            uses(rep, "ArrayStorer::slice_iter", &|| st.slice_iter(&ctx, 1).unwrap(), &|i| Some(i.len()), &t, d.min(4), l);
        }
    });
    // slicing
    let texts = ["", "a", "é", "ab", "aé", "éa", "好", "a好b", "𝄞", "é好𝄞a", "abcdefgh"];
    rep.explore("slicing by a range", &texts, |rep, s, l| {
        let s: &'static str = s;
        let b = s.as_bytes();
        let v = b.to_vec();
        let far = [usize::MAX / 2, usize::MAX - 1, usize::MAX];
        let dom: Vec<usize> = (0..=s.len() + 2).chain(far).collect();
        for &beg in &dom {
            for &len in &dom {
                let sp = Span::new(beg, len);
                let wc = cut(s, true, beg, len);
                let wb = cut(s, false, beg, len);
                let mut all: Vec<(&str, Option<&[u8]>, Result<Option<Vec<u8>>, String>)> = vec![];
                macro_rules! t {
                    ($n:literal, $w:expr, $v:expr) => {
                        all.push(($n, $w, guarded(|| IndexBySpan::get_by_span(&$v, &sp).map(|x| AsRef::<[u8]>::as_ref(x).to_vec()))))
                    };
                }
                t!("str", wc, *s);
                t!("&str", wc, s);
                t!("[u8]", wb, *b);
                t!("&[u8]", wb, b);
                t!("Vec<u8>", wb, v);
                t!("&Vec<u8>", wb, &v);
                for at in [0, 1, s.len(), s.len() + 1] {
                    use neure::ctx::Context;
                    let (mut c, mut d, mut e, mut f) = (Cs::mk(s), Bs::mk(s), Pc::mk(s), Pb::mk(s));
                    c.set_offset(at);
                    d.set_offset(at);
                    e.set_offset(at);
                    f.set_offset(at);
                    t!("CharsCtx", wc, c);
                    t!("BytesCtx", wb, d);
                    t!("PolicyCtx<CharsCtx>", wc, e);
                    t!("PolicyCtx<BytesCtx>", wb, f);
                }
                for (n, w, r) in all {
                    l.states += 1;
                    l.traces += 1;
                    if w.is_some() { l.matched += 1 } else { l.failed += 1 }
                    if r.as_ref().map(|v| v.as_deref()) != Ok(w) {
                        rep.violation(
                            &format!("slice {n} {s:?} {beg} {len}"),
                            &format!("slice of {n} {s:?} by ({beg}, {len}): expected {w:?}, got {r:?}"),
                        );
                    }
                }
                // iterating over a range outside of the value never panics
                let list = [sp, sp];
                let opt = [Some(sp), None, Some(sp)];
                let r = guarded(|| {
                    (IteratorBySpan::new(s, &list).count(), IteratorByOptionSpan::new(b, &opt).count())
                });
                if r.is_err() {
                    rep.violation(&format!("outside {s:?} {beg} {len}"), &format!("iterating over ({beg}, {len}) of {s:?}: {r:?}"));
                }
            }
        }
    });
}
