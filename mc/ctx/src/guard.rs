//! P21: the rollback guard restores its starting position exactly when told to.

use crate::cx::*;
use mc_core::{Rep, guarded, hash64};
use neure::ctx::*;
use neure::err::Error;
use neure::span::Span;
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// match one item / two items / nothing, or fail at once / after one item
    Mat(u8),
    /// hand over a result
    Ret(bool),
    Reset,
    Inc(usize),
    Set(usize),
    Push,
    Pop,
    /// leave everything through a panic
    Panic,
}

/// The reference: one frame per live guard.
#[derive(Default)]
struct Model {
    frames: Vec<(usize, bool)>,
    at: usize,
}

struct Run {
    m: Model,
    err: Option<String>,
}

impl Run {
    fn want<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, k: usize, got: T, want: T) {
        if got != want && self.err.is_none() {
            self.err = Some(format!("{what} after operation {k}: expected {want:?}, got {got:?}"));
        }
    }
    fn leave(&mut self) {
        let (beg, flag) = self.m.frames.pop().unwrap();
        if flag {
            self.m.at = beg;
        }
    }
}

struct Boom;

/// A pattern of the given kind that ignores the text.
fn pat<C: Cx>(kind: u8) -> impl Fn(&mut C) -> Result<Span, Error> {
    move |c: &mut C| {
        mc_core::step();
        let beg = c.offset();
        match kind {
            0..=2 => {
                c.inc(kind as usize);
                Ok(Span::new(beg, kind as usize))
            }
            3 => Err(Error::Uid(3)),
            _ => {
                c.inc(1);
                Err(Error::Uid(4))
            }
        }
    }
}

fn go<C: Cx>(c: &mut C, s: &'static str, ops: &[Op], mut k: usize, run: &RefCell<Run>) -> usize {
    {
        let mut r = run.borrow_mut();
        let at = r.m.at;
        r.m.frames.push((at, false));
    }
    {
        let mut g = CtxGuard::new(c);
        while k < ops.len() {
            let op = ops[k];
            k += 1;
            match op {
                Op::Mat(kind) => {
                    let got = g.try_mat(&pat::<C>(kind)).ok().map(|v| (v.beg, v.len));
                    let mut r = run.borrow_mut();
                    let at = r.m.at;
                    let want = (kind < 3).then_some((at, kind as usize));
                    r.want("match", k, got, want);
                    if kind < 3 {
                        r.m.at += kind as usize;
                    } else {
                        r.m.frames.last_mut().unwrap().1 = true;
                    }
                }
                Op::Ret(ok) => {
                    let v: Result<u32, Error> = if ok { Ok(7) } else { Err(Error::Uid(9)) };
                    let got = g.process_ret(v.clone());
                    let mut r = run.borrow_mut();
                    r.want("processed result", k, format!("{got:?}"), format!("{v:?}"));
                    if !ok {
                        r.m.frames.last_mut().unwrap().1 = true;
                    }
                }
                Op::Reset => {
                    g.reset();
                    let mut r = run.borrow_mut();
                    r.m.at = r.m.frames.last().unwrap().0;
                }
                Op::Inc(n) => {
                    let v = g.inc(n);
                    let mut r = run.borrow_mut();
                    let beg = r.m.frames.last().unwrap().0;
                    // the begin of the attempt and the range advanced over are the same here
                    if r.m.at == beg {
                        r.want("range of inc", k, (v.beg, v.len), (beg, n));
                    }
                    r.m.at += n;
                }
                Op::Set(n) => {
                    g.ctx().set_offset(n);
                    run.borrow_mut().m.at = n;
                }
                Op::Push => k = go(g.ctx(), s, ops, k, run),
                Op::Pop => break,
                Op::Panic => {
                    std::panic::resume_unwind(Box::new(Boom));
                }
            }
            let mut r = run.borrow_mut();
            let at = r.m.at;
            let beg = r.m.frames.last().unwrap().0;
            r.want("begin", k, g.beg(), beg);
            r.want("end", k, g.end(), at);
            r.want("len", k, g.len(), s.len());
            r.want("is_empty", k, g.is_empty(), s.is_empty());
            r.want("peek", k, g.peek().ok().map(C::items), items(s, C::CHARS, at));
            r.want("peek_at", k, g.peek_at(1).ok().map(C::items), items(s, C::CHARS, 1));
            r.want("offset of the context", k, g.ctx().offset(), at);
        }
    }
    let mut r = run.borrow_mut();
    r.leave();
    let at = r.m.at;
    r.want("position after release", k, c.offset(), at);
    k
}

fn history<C: Cx>(s: &'static str, start: usize, ops: &[Op]) -> Result<u64, String> {
    let mut c = C::mk(s);
    c.set_offset(start);
    let run = RefCell::new(Run { m: Model { frames: vec![], at: start }, err: None });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut k = 0;
        loop {
            k = go(&mut c, s, ops, k, &run);
            if k >= ops.len() {
                break;
            }
        }
    }));
    let mut run = run.into_inner();
    if let Err(e) = r {
        if !e.is::<Boom>() {
            std::panic::resume_unwind(e);
        }
        while !run.m.frames.is_empty() {
            run.leave();
        }
        let at = run.m.at;
        run.want("position after unwinding", ops.len(), c.offset(), at);
    }
    match run.err {
        None => Ok(hash64(&(c.offset(), ops.len()))),
        Some(e) => Err(e),
    }
}

fn explore<C: Cx>(rep: &Rep, alpha: &[Op], depth: usize, texts: &[(&'static str, usize)]) {
    let n = alpha.len();
    let name = format!("{}: guard histories of up to {depth} operations out of {n}", C::NAME);
    rep.explore_n(&name, n * n, |rep, i, l| {
        let mut stack = vec![vec![alpha[i / n], alpha[i % n]]];
        if i % n == 0 {
            stack.push(vec![alpha[i / n]]);
        }
        let full = |h: &Vec<Op>| h.len() == 1 || h.contains(&Op::Panic) || h.len() >= depth;
        while let Some(h) = stack.pop() {
            if rep.stopped() {
                return;
            }
            if h[..h.len() - 1].contains(&Op::Panic) {
                continue;
            }
            // more pops than pushes start a fresh guard in the same context
            for &(s, start) in texts {
                let r = guarded(|| history::<C>(s, start, &h)).and_then(|r| r);
                l.states += 1;
                l.traces += 1;
                l.transitions += h.len() as u64;
                let fails = h.iter().any(|o| matches!(o, Op::Mat(3..) | Op::Ret(false)));
                if fails { l.failed += 1 } else { l.matched += 1 }
                match r {
                    Ok(o) => {
                        l.outcomes.insert(o);
                    }
                    Err(e) => rep.violation(
                        &format!("{}:{s:?}@{start}:{h:?}", C::NAME),
                        &format!("{} context on {s:?} at {start}, guard operations {h:?}: {e}", C::NAME),
                    ),
                }
            }
            rep.sample(|| format!("{h:?}"));
            if !full(&h) {
                for op in alpha {
                    let mut g = h.clone();
                    g.push(*op);
                    stack.push(g);
                }
            }
        }
    });
}

pub fn p21(rep: &Rep) {
    let q = rep.quick();
    rep.note("the range returned by inc is compared while the guard has not moved");
    use Op::*;
    let full = [Mat(0), Mat(1), Mat(2), Mat(3), Mat(4), Ret(true), Ret(false), Reset, Inc(1), Set(1), Set(3), Push, Pop, Panic];
    let t = [("aéb", 0), ("ab", 1)];
    let d = if q { 5 } else { 6 };
    explore::<Cs>(rep, &full, d, &t);
    explore::<Bs>(rep, &full, d, &t);
    explore::<Pc>(rep, &full, d, &t);
    explore::<Pb>(rep, &full, d, &t);
    explore::<Pp>(rep, &full, d, &t);
    let core = [Mat(1), Mat(4), Ret(false), Reset, Push, Pop];
    let t = [("abcdefg", 0), ("abcdefg", 3)];
    let d = if q { 8 } else { 9 };
    explore::<Cs>(rep, &core, d, &t);
    if !q {
        explore::<Pb>(rep, &core, d, &t);
    }
    let nest = [Mat(1), Mat(3), Push, Pop];
    explore::<Cs>(rep, &nest, if q { 10 } else { 12 }, &t[1..]);
    explore::<Pp>(rep, &nest, if q { 10 } else { 12 }, &t[1..]);
}
