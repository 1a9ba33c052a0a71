//! P14: span stores behave like maps from ids to ordered range lists.

use crate::cx::*;
use mc_core::{Local, Rep, guarded, hash64};
use neure::ctx::*;
use neure::neu::*;
use neure::span::*;

const TEXT: &str = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add(usize, usize),
    Clr(usize),
    Reset,
    /// capture with a pattern that matches / fails
    Cap(usize, usize, bool),
    /// go on with a copy, keep the original to compare at the end
    Copy,
    /// (growable only) reinitialise with another capacity
    Cap0(usize),
}

fn span_of(step: usize) -> Span {
    Span::new(step % 30, step % 3)
}

type M = Vec<Vec<Option<Span>>>;

fn same<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!("{what}: expected {b:?}, got {a:?}")) }
}

fn present(m: &M, id: usize) -> Vec<Span> {
    m.get(id).map(|v| v.iter().flatten().copied().collect()).unwrap_or_default()
}

/// Everything a growable store shows.
fn look_vec(s: &VecStorer, m: &M) -> Result<(), String> {
    same("len", s.len(), m.len())?;
    same("is_empty", s.is_empty(), m.is_empty())?;
    let text = TEXT;
    let ctx = CharsCtx::new(TEXT);
    for id in (0..m.len() + 2).chain([usize::MAX]) {
        let w = present(m, id);
        same("contain", s.contain(id), !w.is_empty())?;
        same("spans", s.spans(id).cloned(), (!w.is_empty()).then(|| w.clone()))?;
        same("spans_iter", s.spans_iter(id).map(|i| i.collect::<Vec<_>>()), (!w.is_empty()).then(|| w.clone()))?;
        for i in (0..w.len() + 2).chain([usize::MAX]) {
            same("span", s.span(id, i).copied(), w.get(i).copied())?;
            let t = w.get(i).map(|v| &TEXT[v.beg..v.beg + v.len]);
            same("slice", s.slice(text, id, i), t)?;
            same("slice of context", s.slice(&ctx, id, i), t)?;
            same("slice of bytes", s.slice(TEXT.as_bytes(), id, i), t.map(|t| t.as_bytes()))?;
        }
        let t: Vec<&str> = w.iter().map(|v| &TEXT[v.beg..v.beg + v.len]).collect();
        same("slice_iter", s.slice_iter(text, id).map(|i| i.collect::<Vec<_>>()), (!t.is_empty()).then_some(t))?;
    }
    Ok(())
}

fn look_arr<const A: usize, const B: usize>(s: &ArrayStorer<A, B>, m: &M) -> Result<(), String> {
    same("len", s.len(), A)?;
    same("is_empty", s.is_empty(), A == 0)?;
    let ctx = CharsCtx::new(TEXT);
    for id in (0..A + 2).chain([usize::MAX]) {
        let w = present(m, id);
        let some = !w.is_empty();
        same("contain", s.contain(id), some)?;
        same("spans", s.spans(id), if some { Some(m[id].as_slice()) } else { None })?;
        same("spans_iter", s.spans_iter(id).map(|i| i.collect::<Vec<_>>()), some.then(|| w.clone()))?;
        for i in (0..B + 2).chain([usize::MAX]) {
            let v = m.get(id).and_then(|v| v.get(i)).copied().flatten();
            same("span", s.span(id, i).copied(), v)?;
            let t = v.map(|v| &TEXT[v.beg..v.beg + v.len]);
            same("slice", s.slice(TEXT, id, i), t)?;
            same("slice of context", s.slice(&ctx, id, i), t)?;
        }
        let t: Vec<&str> = w.iter().map(|v| &TEXT[v.beg..v.beg + v.len]).collect();
        same("slice_iter", s.slice_iter(TEXT, id).map(|i| i.collect::<Vec<_>>()), some.then_some(t))?;
    }
    Ok(())
}

fn run_vec(cap: usize, ops: &[Op]) -> Result<u64, String> {
    let mut s = VecStorer::new(cap);
    let mut m: M = vec![vec![]; cap];
    let mut old: Vec<(VecStorer, M)> = vec![];
    let mut ctx = CharsCtx::new(TEXT);
    let mut at = 0;
    let a = 'a'.once();
    let z = 'z'.once();
    for (k, op) in ops.iter().enumerate() {
        match *op {
            Op::Add(id, _) => {
                let r = guarded(|| {
                    s.add_span(id, span_of(k));
                });
                same("added", r.is_ok(), id < m.len())?;
                if id < m.len() {
                    m[id].push(Some(span_of(k)));
                }
            }
            Op::Clr(id) => {
                s.clr_span(id);
                if id < m.len() {
                    m[id].clear();
                }
            }
            Op::Reset => {
                s.reset();
                m.iter_mut().for_each(|v| v.clear());
            }
            Op::Cap(id, _, ok) => {
                if ok {
                    let r = guarded(|| s.try_cap(id, &mut ctx, &a));
                    if id < m.len() {
                        same("captured", r, Ok(Ok(Span::new(at, 1))))?;
                        at += 1;
                        m[id].push(Some(Span::new(at - 1, 1)));
                        same("position after capture", ctx.offset(), at)?;
                    } else {
                        same("capture for an unknown id", r.is_ok(), false)?;
                        ctx = ctx.with_offset(at);
                    }
                } else {
                    let r = guarded(|| s.try_cap(id, &mut ctx, &z));
                    same("failing capture", r.map(|r| r.is_err()), Ok(true))?;
                    same("position after failing capture", ctx.offset(), at)?;
                }
            }
            Op::Copy => {
                let c = s.clone();
                old.push((std::mem::replace(&mut s, c), m.clone()));
            }
            Op::Cap0(n) => {
                s = s.with_capacity(n);
                m = vec![vec![]; n];
            }
        }
    }
    look_vec(&s, &m)?;
    for (s, m) in &old {
        look_vec(s, m).map_err(|e| format!("original of a copy: {e}"))?;
    }
    if ops.iter().all(|o| !matches!(o, Op::Cap0(_))) {
        let given: Vec<Vec<Span>> = (0..m.len()).map(|i| present(&m, i)).collect();
        look_vec(&VecStorer::new_with(given), &m).map_err(|e| format!("new_with: {e}"))?;
    }
    Ok(hash64(&m))
}

fn run_arr<const A: usize, const B: usize>(ops: &[Op]) -> Result<u64, String> {
    let mut s = ArrayStorer::<A, B>::new();
    let mut m: M = vec![vec![None; B]; A];
    let mut old: Vec<(ArrayStorer<A, B>, M)> = vec![];
    let mut ctx = CharsCtx::new(TEXT);
    let mut at = 0;
    let a = 'a'.once();
    let z = 'z'.once();
    for (k, op) in ops.iter().enumerate() {
        match *op {
            Op::Add(id, i) => {
                let r = guarded(|| {
                    s.set_span(id, i, span_of(k));
                });
                let ok = id < A && i < B;
                same("added", r.is_ok(), ok)?;
                if ok {
                    m[id][i] = Some(span_of(k));
                }
            }
            Op::Clr(id) => {
                s.clr_span(id);
                if id < A {
                    m[id] = vec![None; B];
                }
            }
            Op::Reset => {
                s.reset();
                m = vec![vec![None; B]; A];
            }
            Op::Cap(id, i, ok) => {
                if ok {
                    let r = guarded(|| s.try_cap(id, i, &mut ctx, &a));
                    if id < A && i < B {
                        same("captured", r, Ok(Ok(Span::new(at, 1))))?;
                        at += 1;
                        m[id][i] = Some(Span::new(at - 1, 1));
                        same("position after capture", ctx.offset(), at)?;
                    } else {
                        same("capture for an unknown slot", r.is_ok(), false)?;
                        ctx = ctx.with_offset(at);
                    }
                } else {
                    let r = guarded(|| s.try_cap(id, i, &mut ctx, &z));
                    same("failing capture", r.map(|r| r.is_err()), Ok(true))?;
                    same("position after failing capture", ctx.offset(), at)?;
                }
            }
            Op::Copy => {
                let c = s.clone();
                old.push((std::mem::replace(&mut s, c), m.clone()));
            }
            Op::Cap0(_) => {}
        }
    }
    look_arr(&s, &m)?;
    for (s, m) in &old {
        look_arr(s, m).map_err(|e| format!("original of a copy: {e}"))?;
    }
    let mut given = [[None; B]; A];
    for (i, r) in given.iter_mut().enumerate() {
        for (j, v) in r.iter_mut().enumerate() {
            *v = m[i][j];
        }
    }
    look_arr(&ArrayStorer::new_with(given), &m).map_err(|e| format!("new_with: {e}"))?;
    look_arr(&ArrayStorer::<A, B>::default(), &vec![vec![None; B]; A]).map_err(|e| format!("default: {e}"))?;
    Ok(hash64(&m))
}

/// Every history over the alphabet up to the depth, one work item per first two operations.
fn histories(rep: &Rep, name: &str, alpha: &[Op], depth: usize, run: impl Fn(&[Op]) -> Result<u64, String> + Sync) {
    let n = alpha.len();
    rep.explore_n(&format!("{name}, histories of {depth} operations out of {n}"), n * n, |rep, i, l| {
        let mut h = vec![alpha[i / n], alpha[i % n]];
        if i == 0 {
            check(rep, name, &[], &run, l);
        }
        if i % n == 0 {
            check(rep, name, &h[..1], &run, l);
        }
        walk(rep, name, alpha, depth, &mut h, &run, l);
    });
}

fn check(rep: &Rep, name: &str, h: &[Op], run: &(impl Fn(&[Op]) -> Result<u64, String> + Sync), l: &mut Local) {
    l.states += 1;
    l.traces += 1;
    l.transitions += h.len() as u64;
    match guarded(|| run(h)).and_then(|r| r) {
        Ok(o) => {
            l.matched += 1;
            l.outcomes.insert(o);
        }
        Err(e) => rep.violation(&format!("{name}:{h:?}"), &format!("{name} after {h:?}: {e}")),
    }
}

fn walk(
    rep: &Rep,
    name: &str,
    alpha: &[Op],
    depth: usize,
    h: &mut Vec<Op>,
    run: &(impl Fn(&[Op]) -> Result<u64, String> + Sync),
    l: &mut Local,
) {
    if rep.stopped() {
        return;
    }
    check(rep, name, h, run, l);
    if h.len() == 3 {
        rep.sample(|| format!("{name}: {h:?}"));
    }
    if h.len() < depth {
        for op in alpha {
            h.push(*op);
            walk(rep, name, alpha, depth, h, run, l);
            h.pop();
        }
    }
}

fn arr_alpha(a: usize, b: usize, oob: bool) -> Vec<Op> {
    let mut v = vec![];
    for id in 0..a {
        for i in 0..b {
            v.push(Op::Add(id, i));
        }
        v.push(Op::Clr(id));
    }
    if a > 0 && b > 0 {
        v.push(Op::Cap(a - 1, b - 1, true));
        v.push(Op::Cap(0, 0, false));
    }
    v.push(Op::Reset);
    v.push(Op::Copy);
    if oob {
        v.extend([Op::Add(a, 0), Op::Add(0, b), Op::Clr(a), Op::Cap(a, 0, true), Op::Cap(0, b, true)]);
    }
    v
}

fn arr<const A: usize, const B: usize>(rep: &Rep, quick: bool) {
    let name = format!("fixed store {A}x{B}");
    let x = arr_alpha(A, B, true);
    let d = match x.len() {
        0..=9 => 6,
        10..=12 => 5,
        _ => 4,
    };
    histories(rep, &name, &x, d + !quick as usize, run_arr::<A, B>);
    let x = arr_alpha(A, B, false);
    let d = match x.len() {
        0..=4 => 8,
        5..=6 => 7,
        7..=9 => 6,
        _ => 5,
    };
    histories(rep, &name, &x, d + !quick as usize, run_arr::<A, B>);
}

/// Histories of the form: fill `n` slots with a stride, clear one id, fill again,
/// reset; everything the store shows is compared several times on the way.
fn long_vec(rep: &Rep) {
    let caps = [1usize, 2, 5, 16, 17, 33, 64, 100, 255, 256, 257, 300];
    let adds = [0usize, 1, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 400, 600];
    let mut items = vec![];
    for c in caps {
        for a in adds {
            for stride in [0, 1, 3] {
                items.push((c, a, stride));
            }
        }
    }
    rep.explore("growable store, long histories", &items, |rep, &(cap, adds, stride), l| {
        let clear = adds % cap;
        let mut h: Vec<Op> = (0..adds).map(|k| Op::Add(k * stride % cap, 0)).collect();
        check(rep, "long growable store", &h, &|h: &[Op]| run_vec(cap, h), l);
        h.push(Op::Copy);
        h.push(Op::Clr(clear));
        h.extend((0..20).map(|k| Op::Add((clear + k) % cap, 0)));
        h.push(Op::Cap(cap - 1, 0, true));
        check(rep, "long growable store", &h, &|h: &[Op]| run_vec(cap, h), l);
        h.push(Op::Reset);
        h.push(Op::Add(0, 0));
        check(rep, "long growable store", &h, &|h: &[Op]| run_vec(cap, h), l);
    });
}

fn long_arr<const A: usize, const B: usize>(rep: &Rep) {
    let mut items = vec![];
    for stride in [1, 3, 7, A * B - 1] {
        for n in [0, 1, A * B / 2, A * B - 1, A * B] {
            for clear in [0, A / 2, A - 1] {
                items.push((stride, n, clear));
            }
        }
    }
    let name = format!("fixed store {A}x{B}, long histories");
    rep.explore(&name, &items, |rep, &(stride, n, clear), l| {
        let slot = |k: usize| Op::Add(k * stride % (A * B) / B, k * stride % (A * B) % B);
        let mut h: Vec<Op> = (0..n).map(slot).collect();
        check(rep, &name, &h, &|h: &[Op]| run_arr::<A, B>(h), l);
        h.push(Op::Copy);
        h.push(Op::Clr(clear));
        h.extend((0..B).step_by(2).map(|i| Op::Add(clear, i)));
        h.push(Op::Cap(A - 1, B - 1, true));
        check(rep, &name, &h, &|h: &[Op]| run_arr::<A, B>(h), l);
        h.push(Op::Reset);
        h.push(Op::Add(0, B - 1));
        check(rep, &name, &h, &|h: &[Op]| run_arr::<A, B>(h), l);
    });
}

pub fn p14(rep: &Rep) {
    let q = rep.quick();
    long_vec(rep);
    long_arr::<1, 33>(rep);
    long_arr::<1, 70>(rep);
    long_arr::<70, 1>(rep);
    long_arr::<20, 20>(rep);
    long_arr::<3, 300>(rep);
    long_arr::<300, 3>(rep);
    rep.note("adding to an id that does not exist is reported by a panic, as documented; everything stored before must survive it");
    for cap in 0..4usize {
        let mut x = vec![Op::Reset, Op::Copy];
        for id in 0..cap {
            x.push(Op::Add(id, 0));
            x.push(Op::Clr(id));
        }
        if cap > 0 {
            x.push(Op::Cap(cap - 1, 0, true));
            x.push(Op::Cap(0, 0, false));
        }
        let d = if cap <= 1 { 7 } else if cap == 2 { 6 } else { 6 };
        let name = format!("growable store of {cap}");
        histories(rep, &name, &x, d + !q as usize, |h| run_vec(cap, h));
        x.extend([Op::Add(cap, 0), Op::Clr(cap), Op::Cap(cap, 0, true), Op::Cap0(cap + 1), Op::Cap0(0)]);
        histories(rep, &name, &x, if q { 5 } else { 6 }, |h| run_vec(cap, h));
    }
    arr::<0, 0>(rep, q);
    arr::<1, 0>(rep, q);
    arr::<0, 2>(rep, q);
    arr::<1, 1>(rep, q);
    arr::<1, 3>(rep, q);
    arr::<2, 2>(rep, q);
    arr::<3, 1>(rep, q);
    arr::<2, 3>(rep, q);
    arr::<3, 2>(rep, q);
    // stores made by a context
    rep.explore_n("stores made by a context", 5, |rep, n, l| {
        let m: M = vec![vec![]; n];
        for (k, s) in [
            CharsCtx::new(TEXT).span_storer(n),
            BytesCtx::new(TEXT.as_bytes()).span_storer(n),
            Pc::mk(TEXT).span_storer(n),
            VecStorer::default().with_capacity(n),
        ]
        .iter()
        .enumerate()
        {
            l.states += 1;
            l.traces += 1;
            l.matched += 1;
            if let Err(e) = look_vec(s, &m) {
                rep.violation(&format!("span_storer {k} {n}"), &e);
            }
        }
    });
    // merging: every chain of ranges that starts no earlier than the first
    let n = if q { 8 } else { 11 };
    rep.explore_n("merging ranges", n * n, |rep, i, l| {
        let a = Span::new(i / n, i % n);
        let far = usize::MAX - 64;
        for off in [0, far] {
            for b1 in a.beg..n + 2 {
                for l1 in 0..n {
                    for b2 in a.beg..n + 2 {
                        for l2 in 0..n {
                            let (x, y, z) = (
                                Span::new(a.beg + off, a.len),
                                Span::new(b1 + off, l1),
                                Span::new(b2 + off, l2),
                            );
                            let r = guarded(|| {
                                let mut s = x;
                                s.add_assign(y);
                                let one = s;
                                s.add_assign(z);
                                let mut t = x;
                                t.add_assign(y).add_assign(z);
                                (one, s, t, y, z)
                            });
                            let e1 = (x.beg + x.len).max(y.beg + y.len);
                            let e2 = e1.max(z.beg + z.len);
                            let w1 = Span::new(x.beg, e1 - x.beg);
                            let w2 = Span::new(x.beg, e2 - x.beg);
                            l.states += 1;
                            l.traces += 1;
                            l.matched += 1;
                            if r != Ok((w1, w2, w2, y, z)) {
                                rep.violation(
                                    &format!("merge {x:?} {y:?} {z:?}"),
                                    &format!("merging {y:?} and {z:?} into {x:?}: expected {w1:?} then {w2:?}, got {r:?}"),
                                );
                            }
                            if (w1.beg(), w1.len(), w1.is_empty()) != (w1.beg, w1.len, w1.len == 0) {
                                rep.violation(&format!("fields {w1:?}"), "accessors differ from the fields");
                            }
                        }
                    }
                }
            }
        }
    });
    // the text a range covers, through every context
    fn orig<C: Cx>(rep: &Rep, texts: &[&'static str]) {
        rep.explore(&format!("text of a range / {}", C::NAME), texts, |rep, s, l| {
            for at in 0..=s.len() + 1 {
                let mut c = C::mk(s);
                c.set_offset(at);
                for b in (0..=s.len() + 2).chain([usize::MAX - 1, usize::MAX]) {
                    for n in (0..=s.len() + 2).chain([usize::MAX - 1, usize::MAX]) {
                        let r = guarded(|| Span::new(b, n).orig(&c).map(C::bytes).ok());
                        let w = cut(s, C::CHARS, b, n);
                        l.states += 1;
                        l.traces += 1;
                        if w.is_some() { l.matched += 1 } else { l.failed += 1 }
                        if r != Ok(w) {
                            rep.violation(
                                &format!("orig {} {s:?} {b} {n} {at}", C::NAME),
                                &format!("{} {s:?} at {at}: text of ({b}, {n}) should be {w:?}, got {r:?}", C::NAME),
                            );
                        }
                    }
                }
            }
        });
    }
    let t = ["", "a", "é", "aéb", "好a𝄞", "abcdef"];
    orig::<Cs>(rep, &t);
    orig::<Bs>(rep, &t);
    orig::<Pc>(rep, &t);
    orig::<Pb>(rep, &t);
}
