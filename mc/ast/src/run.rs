//! Executes one term on the real library and observes it.

use crate::build::{Bx, Hc, Hd, MAP_REJECT, build};
use crate::model::{Fault, Model, Skip};
use crate::{Ast, V};
use mc_core::{guarded, set_budget};
use neure::ctx::{Assert, MatchExt};

/// More leaf steps than any terminating term of the explored sizes makes.
pub const BUDGET: u64 = 200_000;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Rx {
    pub span: Option<(usize, usize)>,
    pub at: usize,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Ct {
    pub val: Option<V>,
    pub at: usize,
}

pub struct Pat<C: Hc> {
    pub p: Bx<C>,
}

impl<C: Hc> Pat<C> {
    pub fn new(a: &Ast) -> Self {
        Pat { p: build::<C>(a) }
    }

    pub fn rx(&self, s: &'static str, at: usize, skip: Skip) -> Result<Rx, String> {
        guarded(|| {
            let mut c = C::mk(s, skip);
            c.set_offset(at);
            set_budget(BUDGET);
            let r = c.try_mat(&self.p);
            Rx {
                span: r.ok().map(|s| (s.beg(), s.len())),
                at: c.offset(),
            }
        })
    }

    /// The ends of the successful direct calls of `parse`, `try_parse` and `construct`.
    pub fn direct(&self, s: &'static str, at: usize) -> Result<(Option<usize>, Option<usize>, Option<usize>), String> {
        use neure::ctor::Ctor;
        use neure::regex::Regex;
        guarded(|| {
            set_budget(3 * BUDGET);
            let mut c = C::mk(s, Skip::None);
            c.set_offset(at);
            let x = self.p.parse(&mut c).then(|| c.offset());
            let mut c = C::mk(s, Skip::None);
            c.set_offset(at);
            let y = self.p.try_parse(&mut c).ok().map(|_| c.offset());
            let mut c = C::mk(s, Skip::None);
            c.set_offset(at);
            let mut h = Hd { log: vec![], reject: None };
            let z = self.p.construct(&mut c, &mut h).ok().map(|_| c.offset());
            (x, y, z)
        })
    }

    /// Direct calls of `try_parse` and `construct`: success and position afterwards.
    pub fn called(&self, s: &'static str, at: usize, fault: Fault) -> Result<[(bool, usize); 2], String> {
        use neure::ctor::Ctor;
        use neure::regex::Regex;
        guarded(|| {
            set_budget(2 * BUDGET);
            let mut c = C::mk(s, Skip::None);
            c.set_offset(at);
            let x = (self.p.try_parse(&mut c).is_ok(), c.offset());
            let mut c = C::mk(s, Skip::None);
            c.set_offset(at);
            MAP_REJECT.with(|m| m.set(fault.mapper));
            let mut h = Hd { log: vec![], reject: fault.handler };
            let y = self.p.construct(&mut c, &mut h).is_ok();
            MAP_REJECT.with(|m| m.set(None));
            [x, (y, c.offset())]
        })
    }

    pub fn is_mat(&self, s: &'static str, at: usize, skip: Skip) -> Result<(bool, usize), String> {
        guarded(|| {
            let mut c = C::mk(s, skip);
            c.set_offset(at);
            set_budget(BUDGET);
            (c.is_mat(&self.p), c.offset())
        })
    }

    pub fn assert(&self, s: &'static str, at: usize, skip: Skip) -> Result<(bool, usize), String> {
        guarded(|| {
            let mut c = C::mk(s, skip);
            c.set_offset(at);
            set_budget(BUDGET);
            let r = c.try_assert(&self.p).unwrap_or(false);
            (r, c.offset())
        })
    }

    pub fn ct(
        &self,
        s: &'static str,
        at: usize,
        skip: Skip,
        fault: Fault,
        log: &mut Vec<(u32, u32)>,
    ) -> Result<Ct, String> {
        guarded(|| {
            let mut c = C::mk(s, skip);
            c.set_offset(at);
            set_budget(BUDGET);
            MAP_REJECT.with(|m| m.set(fault.mapper));
            let mut h = Hd {
                log: std::mem::take(log),
                reject: fault.handler,
            };
            // the handler is handed over by value; keep its log through a closure
            let r = {
                let hr = &mut h;
                construct_with(&mut c, &self.p, hr)
            };
            MAP_REJECT.with(|m| m.set(None));
            *log = h.log;
            Ct { val: r, at: c.offset() }
        })
    }
}

/// The public entry point takes the handler by value: give it a clone that
/// shares nothing and read the log back through a wrapper pattern.
fn construct_with<C: Hc>(c: &mut C, p: &Bx<C>, h: &mut Hd) -> Option<V> {
    use neure::ctor::Ctor;
    use neure::err::Error;
    use neure::regex::Regex;
    use neure::span::Span;
    use std::cell::RefCell;

    struct Keep<'p, C>(&'p Bx<C>, RefCell<&'p mut Vec<(u32, u32)>>);
    impl<C> Regex<C> for Keep<'_, C> {
        fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
            self.0.try_parse(c)
        }
    }
    impl<C> Ctor<C, V, Hd> for Keep<'_, C> {
        fn construct(&self, c: &mut C, h: &mut Hd) -> Result<V, Error> {
            let r = self.0.construct(c, h);
            **self.1.borrow_mut() = std::mem::take(&mut h.log);
            r
        }
    }
    let first = Hd {
        log: std::mem::take(&mut h.log),
        reject: h.reject,
    };
    let keep = Keep(p, RefCell::new(&mut h.log));
    c.ctor_handler(&keep, first).ok()
}

pub fn model<'i, C: Hc>(s: &'i str, skip: Skip, fault: Fault) -> Model<'i> {
    Model::new(s, C::CHARS, skip, fault)
}
