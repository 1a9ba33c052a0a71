//! Reference semantics: a direct PEG interpreter over byte positions.

use std::cell::RefCell;
use crate::{A, Ast, DynFn, Leaf, SIZES, Test, U, V};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Skip {
    None,
    /// runs of ' '
    Space,
    /// runs of '-'
    Dash,
    /// an optional single 'b'-free prefix: runs of "<>" pairs
    Pairs,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Fault {
    /// the handler rejects a leaf with exactly this range
    pub handler: Option<(u32, u32)>,
    /// mappers reject a value whose first leaf is this range
    pub mapper: Option<(u32, u32)>,
}

pub struct Model<'i> {
    pub s: &'i [u8],
    pub text: Option<&'i str>,
    pub skip: Skip,
    pub fault: Fault,
    /// bodies of the enclosing recursive patterns
    env: RefCell<Vec<A>>,
}

impl<'i> Model<'i> {
    pub fn new(s: &'i str, chars: bool, skip: Skip, fault: Fault) -> Self {
        Model {
            s: s.as_bytes(),
            text: if chars { Some(s) } else { None },
            skip,
            fault,
            env: Default::default(),
        }
    }

    /// Item at a position and its width.
    fn item(&self, p: usize) -> Option<(char, usize)> {
        if p >= self.s.len() {
            return None;
        }
        match self.text {
            Some(t) => {
                let c = t.get(p..)?.chars().next()?;
                Some((c, c.len_utf8()))
            }
            None => Some((self.s[p] as char, 1)),
        }
    }

    pub fn skip_from(&self, mut p: usize) -> usize {
        match self.skip {
            Skip::None => {}
            Skip::Space => {
                while p < self.s.len() && self.s[p] == b' ' {
                    p += 1;
                }
            }
            Skip::Dash => {
                while p < self.s.len() && self.s[p] == b'-' {
                    p += 1;
                }
            }
            Skip::Pairs => {
                while self.s[p..].starts_with(b"<>") {
                    p += 2;
                }
            }
        }
        p
    }

    /// Accept in the byte world: a class over chars is applied to the Latin-1
    /// reading of the byte, which is how the byte units of the family are built.
    fn acc(&self, u: U, c: char) -> bool {
        u.accepts(c)
    }

    fn run(&self, u: U, p: usize, max: usize) -> (usize, usize) {
        let mut q = p;
        let mut n = 0;
        while n < max {
            match self.item(q) {
                Some((c, w)) if self.acc(u, c) => {
                    q += w;
                    n += 1;
                }
                _ => break,
            }
        }
        (n, q)
    }

    /// Leaf at `p` (before skipping): (begin, end).
    fn leaf(&self, l: Leaf, p: usize) -> Option<(usize, usize)> {
        let p = self.skip_from(p);
        let e = match l {
            Leaf::Lit(t) => {
                if self.s[p..].starts_with(t.as_bytes()) {
                    p + t.len()
                } else {
                    return None;
                }
            }
            Leaf::Once(u) => {
                let (n, q) = self.run(u, p, 1);
                if n < 1 {
                    return None;
                }
                q
            }
            Leaf::Opt(u) => self.run(u, p, 1).1,
            Leaf::Many0(u) => self.run(u, p, usize::MAX).1,
            Leaf::Many1(u) => {
                let (n, q) = self.run(u, p, usize::MAX);
                if n < 1 {
                    return None;
                }
                q
            }
            Leaf::Times(u, lo, hi) => {
                let (n, q) = self.run(u, p, hi);
                if n < lo {
                    return None;
                }
                q
            }
            Leaf::Start => {
                if p != 0 {
                    return None;
                }
                p
            }
            Leaf::End => {
                if p != self.s.len() {
                    return None;
                }
                p
            }
            Leaf::Empty | Leaf::Unit => p,
            Leaf::Fail => return None,
            Leaf::ConsumeAll => self.s.len(),
            Leaf::Consume(n) => {
                if self.s.len() - p < n {
                    return None;
                }
                p + n
            }
        };
        Some((p, e))
    }

    fn test(&self, t: Test, p: usize) -> Option<bool> {
        match t {
            Test::True => Some(true),
            Test::False => Some(false),
            Test::Err => None,
            Test::NextA => Some(self.s[p..].starts_with(b"a")),
            Test::Even => Some(p % 2 == 0),
        }
    }

    pub fn dyn_text(&self, d: DynFn, b: usize, e: usize) -> Option<Vec<u8>> {
        match d {
            DynFn::Same => Some(self.s[b..e].to_vec()),
            DynFn::CountB => Some(vec![b'b'; e - b]),
            DynFn::FailOnB => {
                if &self.s[b..e] == b"b" {
                    None
                } else {
                    Some(vec![])
                }
            }
        }
    }

    /// Pure matching: end position.
    pub fn rx(&self, a: &Ast, p: usize) -> Option<usize> {
        use Ast::*;
        match a {
            Fix(_, a) => {
                self.env.borrow_mut().push(a.clone());
                let r = self.rx(a, p);
                self.env.borrow_mut().pop();
                r
            }
            Rec => {
                let a = self.env.borrow().last().cloned().expect("recursive body");
                self.rx(&a, p)
            }
            L(l) => self.leaf(*l, p).map(|v| v.1),
            Pat(a) | Map(a) => self.rx(a, p),
            Opt(a) => Some(self.rx(a, p).unwrap_or(p)),
            Not(a) => match self.rx(a, p) {
                Some(_) => None,
                None => Some(p),
            },
            Peek(a) => self.rx(a, p).map(|_| p),
            Ws(k, a) => match k {
                crate::Ws::Skip | crate::Ws::SkipAscii => {
                    self.rx(a, p).map(|e| self.run(U::Ws, self.skip_from(e), usize::MAX).1)
                }
                _ => {
                    let e = self.run(U::Ws, self.skip_from(p), usize::MAX).1;
                    self.rx(a, e)
                }
            },
            Repeat(r, a) => {
                let mut n = 0;
                let mut q = p;
                while r.hi().is_none_or(|h| n < h) {
                    match self.rx(a, q) {
                        Some(e) => {
                            q = e;
                            n += 1;
                        }
                        None => break,
                    }
                }
                r.contains(n).then_some(q)
            }
            Repeat2(i, a) => {
                let (lo, hi) = SIZES[*i];
                let mut n = 0;
                let mut q = p;
                while n < hi {
                    match self.rx(a, q) {
                        Some(e) => {
                            q = e;
                            n += 1;
                        }
                        None => break,
                    }
                }
                (n >= lo).then_some(q)
            }
            Collect(m, a) => {
                let mut n = 0;
                let mut q = p;
                while let Some(e) = self.rx(a, q) {
                    q = e;
                    n += 1;
                }
                (n >= *m).then_some(q)
            }
            Then(a, b) | Then0(a, b) | Then1(a, b) | Suffix(a, b) => {
                self.rx(a, p).and_then(|e| self.rx(b, e))
            }
            Prefix(a, b) => self.rx(b, p).and_then(|e| self.rx(a, e)),
            Or(a, b) => self.rx(a, p).or_else(|| self.rx(b, p)),
            Ltm(a, b) => match (self.rx(a, p), self.rx(b, p)) {
                (Some(x), Some(y)) => Some(x.max(y)),
                (x, y) => x.or(y),
            },
            Sep(s, m, a, b) | SepCollect(s, m, a, b) => self.sep_rx(*s, *m, None, a, b, p),
            Sep2(s, i, a, b) => self.sep_rx(*s, SIZES[*i].0, Some(SIZES[*i].1), a, b, p),
            Enclose(a, l, r) => self
                .rx(l, p)
                .and_then(|e| self.rx(a, e))
                .and_then(|e| self.rx(r, e)),
            SepOnce(l, s, r) => self
                .rx(l, p)
                .and_then(|e| self.rx(s, e))
                .and_then(|e| self.rx(r, e)),
            IfThen(l, t, r) => {
                let e = self.rx(l, p)?;
                match self.rx(t, e) {
                    Some(e) => self.rx(r, e),
                    None => Some(e),
                }
            }
            IfElse(t, a, b) => {
                if self.test(*t, p)? {
                    self.rx(a, p)
                } else {
                    self.rx(b, p)
                }
            }
            Table(t, v) => {
                let mut best: Option<usize> = None;
                for a in v {
                    if let Some(e) = self.rx(a, p) {
                        if !t.ltm() {
                            return Some(e);
                        }
                        best = Some(best.map_or(e, |x| x.max(e)));
                    }
                }
                best
            }
            // no matching form (documented); built as a pattern that never matches
            Dyn(..) => None,
            RxDyn(a, d) => self.rx_dyn(a, *d, p).map(|r| r.1),
        }
    }

    fn sep_rx(&self, skip: bool, min: usize, max: Option<usize>, a: &Ast, b: &Ast, p: usize) -> Option<usize> {
        let mut n = 0;
        let mut end = p;
        let mut q = p;
        while max.is_none_or(|m| n < m) {
            let Some(e) = self.rx(a, q) else { break };
            match self.rx(b, e) {
                Some(e2) => {
                    n += 1;
                    q = e2;
                    end = e2;
                }
                None => {
                    if skip {
                        n += 1;
                        end = e;
                    }
                    break;
                }
            }
        }
        (n >= min).then_some(end)
    }

    fn handle(&self, b: usize, e: usize, log: &mut Vec<(u32, u32)>) -> Option<V> {
        let sp = (b as u32, (e - b) as u32);
        log.push(sp);
        if self.fault.handler == Some(sp) {
            None
        } else {
            Some(V::S(sp.0, sp.1))
        }
    }

    /// Range of the second part of a pattern built at run time.
    fn rx_dyn(&self, a: &Ast, d: DynFn, p: usize) -> Option<(usize, usize)> {
        let b = self.skip_from(p);
        let e = self.rx(a, p)?.max(b);
        let t = self.dyn_text(d, b, e)?;
        let q = self.skip_from(e);
        self.s[q..].starts_with(&t).then_some((q, q + t.len()))
    }

    /// Construction: value and end position.
    pub fn ct(&self, a: &Ast, p: usize, log: &mut Vec<(u32, u32)>) -> Option<(V, usize)> {
        use Ast::*;
        match a {
            Fix(_, a) => {
                self.env.borrow_mut().push(a.clone());
                let r = self.ct(a, p, log);
                self.env.borrow_mut().pop();
                r
            }
            Rec => {
                let a = self.env.borrow().last().cloned().expect("recursive body");
                self.ct(&a, p, log)
            }
            L(l) => {
                let (b, e) = self.leaf(*l, p)?;
                Some((self.handle(b, e, log)?, e))
            }
            Pat(a) => {
                let b = self.skip_from(p);
                let e = self.rx(a, p)?.max(b);
                Some((V::T(7, Box::new(self.handle(b, e, log)?)), e))
            }
            Opt(a) => match self.ct(a, p, log) {
                Some((v, e)) => Some((V::O(Some(Box::new(v))), e)),
                None => Some((V::O(None), p)),
            },
            Map(a) => {
                let (v, e) = self.ct(a, p, log)?;
                if self.fault.mapper.is_some() && v.first() == self.fault.mapper {
                    return None;
                }
                Some((V::T(1, Box::new(v)), e))
            }
            Not(_) | Peek(_) => {
                self.rx(a, p)?;
                let b = self.skip_from(p);
                Some((self.handle(b, b, log)?, b))
            }
            Ws(k, a) => match k {
                crate::Ws::Skip | crate::Ws::SkipAscii => {
                    let (v, e) = self.ct(a, p, log)?;
                    Some((v, self.run(U::Ws, self.skip_from(e), usize::MAX).1))
                }
                _ => {
                    let e = self.run(U::Ws, self.skip_from(p), usize::MAX).1;
                    self.ct(a, e, log)
                }
            },
            Repeat(r, a) => {
                let mut vs = vec![];
                let mut q = p;
                while r.hi().is_none_or(|h| vs.len() < h) {
                    match self.ct(a, q, log) {
                        Some((v, e)) => {
                            q = e;
                            vs.push(v);
                        }
                        None => break,
                    }
                }
                r.contains(vs.len()).then_some((V::L(vs), q))
            }
            Repeat2(i, a) => {
                let (lo, hi) = SIZES[*i];
                let mut vs = vec![];
                let mut q = p;
                while vs.len() < hi {
                    match self.ct(a, q, log) {
                        Some((v, e)) => {
                            q = e;
                            vs.push(Some(v));
                        }
                        None => break,
                    }
                }
                if vs.len() < lo {
                    return None;
                }
                vs.resize(hi, None);
                Some((V::F(vs), q))
            }
            Collect(m, a) => {
                let mut vs = vec![];
                let mut q = p;
                while let Some((v, e)) = self.ct(a, q, log) {
                    q = e;
                    vs.push(v);
                }
                (vs.len() >= *m).then_some((V::L(vs), q))
            }
            Then0(a, b) => {
                let (x, e) = self.ct(a, p, log)?;
                let (_, e) = self.ct(b, e, log)?;
                Some((x, e))
            }
            Then1(a, b) => {
                let (_, e) = self.ct(a, p, log)?;
                self.ct(b, e, log)
            }
            Then(a, b) => {
                let (x, e) = self.ct(a, p, log)?;
                let (y, e) = self.ct(b, e, log)?;
                Some((V::P(Box::new(x), Box::new(y)), e))
            }
            Suffix(a, b) => {
                let (v, e) = self.ct(a, p, log)?;
                Some((v, self.rx(b, e)?))
            }
            Prefix(a, b) => {
                let e = self.rx(b, p)?;
                self.ct(a, e, log)
            }
            Or(a, b) => self.ct(a, p, log).or_else(|| self.ct(b, p, log)),
            Ltm(a, b) => match (self.ct(a, p, log), self.ct(b, p, log)) {
                (Some(x), Some(y)) => Some(if y.1 > x.1 { y } else { x }),
                (x, y) => x.or(y),
            },
            Sep(s, m, a, b) | SepCollect(s, m, a, b) => {
                let (vs, e) = self.sep_ct(*s, *m, None, a, b, p, log)?;
                Some((V::L(vs), e))
            }
            Sep2(s, i, a, b) => {
                let (lo, hi) = SIZES[*i];
                let (vs, e) = self.sep_ct(*s, lo, Some(hi), a, b, p, log)?;
                let mut vs: Vec<_> = vs.into_iter().map(Some).collect();
                vs.resize(hi, None);
                Some((V::F(vs), e))
            }
            Enclose(a, l, r) => {
                let e = self.rx(l, p)?;
                let (v, e) = self.ct(a, e, log)?;
                Some((v, self.rx(r, e)?))
            }
            SepOnce(l, s, r) => {
                let (x, e) = self.ct(l, p, log)?;
                let e = self.rx(s, e)?;
                let (y, e) = self.ct(r, e, log)?;
                Some((V::P(Box::new(x), Box::new(y)), e))
            }
            IfThen(l, t, r) => {
                let (x, e) = self.ct(l, p, log)?;
                match self.rx(t, e) {
                    Some(e) => {
                        let (y, e) = self.ct(r, e, log)?;
                        Some((V::P(Box::new(x), Box::new(V::O(Some(Box::new(y))))), e))
                    }
                    None => Some((V::P(Box::new(x), Box::new(V::O(None))), e)),
                }
            }
            IfElse(t, a, b) => {
                if self.test(*t, p)? {
                    self.ct(a, p, log)
                } else {
                    self.ct(b, p, log)
                }
            }
            Table(t, v) => {
                let mut best: Option<(V, usize)> = None;
                for (i, a) in v.iter().enumerate() {
                    if let Some((x, e)) = self.ct(a, p, log) {
                        let x = if t.pair() {
                            V::T(100 + i as u32, Box::new(x))
                        } else {
                            x
                        };
                        if !t.ltm() {
                            return Some((x, e));
                        }
                        if best.as_ref().is_none_or(|b| e > b.1) {
                            best = Some((x, e));
                        }
                    }
                }
                best
            }
            RxDyn(a, d) => {
                let (b, e) = self.rx_dyn(a, *d, p)?;
                Some((self.handle(b, e, log)?, e))
            }
            Dyn(a, d) => {
                let (x, e) = self.ct(a, p, log)?;
                let (b, l) = x.first().unwrap_or((e as u32, 0));
                let t = self.dyn_text(*d, b as usize, (b + l) as usize)?;
                let q = self.skip_from(e);
                if !self.s[q..].starts_with(&t) {
                    return None;
                }
                let y = self.handle(q, q + t.len(), log)?;
                Some((V::P(Box::new(x), Box::new(y)), q + t.len()))
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn sep_ct(
        &self,
        skip: bool,
        min: usize,
        max: Option<usize>,
        a: &Ast,
        b: &Ast,
        p: usize,
        log: &mut Vec<(u32, u32)>,
    ) -> Option<(Vec<V>, usize)> {
        let mut vs = vec![];
        let mut end = p;
        let mut q = p;
        while max.is_none_or(|m| vs.len() < m) {
            let Some((v, e)) = self.ct(a, q, log) else {
                break;
            };
            match self.rx(b, e) {
                Some(e2) => {
                    vs.push(v);
                    q = e2;
                    end = e2;
                }
                None => {
                    if skip {
                        vs.push(v);
                        end = e;
                    }
                    break;
                }
            }
        }
        (vs.len() >= min).then_some((vs, end))
    }
}
