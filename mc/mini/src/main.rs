//! One exploration that exists in every build configuration. It judges nothing:
//! what was observed on every item goes into a digest, and the digests of the
//! configurations are compared (see `cfg`).

mod probes;
mod term;

use mc_core::{Local, Rep, guarded, hash64};
use term::*;

fn strings(alpha: &[char], max: usize) -> Vec<&'static str> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|s| alpha.iter().map(move |c| format!("{s}{c}"))).collect();
        all.extend(last.iter().cloned());
    }
    all.into_iter().map(|s| &*s.leak()).collect()
}

pub fn seen<T: std::fmt::Debug>(l: &mut Local, r: Result<T, String>, ok: bool) {
    l.states += 1;
    l.traces += 1;
    if ok { l.matched += 1 } else { l.failed += 1 }
    let t = format!("{r:?}");
    let h = hash64(&t);
    if let Some(v) = &mut l.trace {
        v.push(t);
    }
    l.digest = l.digest.rotate_left(9) ^ h;
    l.outcomes.insert(h);
}

/// Match, assert, construct and search with one pattern.
fn drive<C: Hc>(p: &Bx<C>, inputs: &[&'static str], l: &mut Local) {
    for s in inputs {
        let starts = if s.len() > 1 && s.is_char_boundary(1) { 2 } else { 1 };
        for at in 0..starts {
            let mk = || {
                let mut c = C::mk(s);
                c.set_offset(at);
                c
            };
            let mut ok = false;
            let r = guarded(|| {
                let mut c = mk();
                let r = c.try_mat(p);
                ok = r.is_ok();
                (r, c.offset())
            });
            seen(l, r, ok);
            let r = guarded(|| {
                let mut c = mk();
                let mut h = Hd::default();
                let r = neure::ctor::Ctor::construct(p, &mut c, &mut h);
                ok = r.is_ok();
                (r, c.offset(), h.0)
            });
            seen(l, r, ok);
            let r = guarded(|| {
                let mut c = mk();
                let r = c.ctor_handler(p, Hd::default());
                ok = r.is_ok();
                (r, c.offset())
            });
            seen(l, r, ok);
        }
        let r = guarded(|| {
            let mut c = C::mk(s);
            let v: Vec<neure::span::Span> = c.find_all::<neure::span::Span>(p.clone()).collect();
            (v, c.offset())
        });
        seen(l, r, true);
    }
}

fn terms(quick: bool) -> Vec<T> {
    let l = |i: usize| Box::new(T::L(i));
    let mut v: Vec<T> = (0..LEAVES).map(T::L).collect();
    for o in 0..ONE {
        for a in 0..LEAVES {
            v.push(T::A(o, l(a)));
        }
    }
    let some: Vec<usize> = if quick { vec![0, 1, 2, 3, 7, 12, 16] } else { (0..LEAVES).collect() };
    for o in 0..TWO {
        for &a in &some {
            for &b in &some {
                v.push(T::B(o, l(a), l(b)));
            }
        }
    }
    let few: Vec<usize> = if quick { vec![0, 1, 7] } else { vec![0, 1, 2, 3, 7, 12, 16] };
    for o in 0..THREE {
        for &a in &few {
            for &b in &few {
                for &d in &few {
                    v.push(T::C(o, l(a), l(b), l(d)));
                }
            }
        }
    }
    // one operator inside another
    for o in 0..ONE {
        for i in 0..ONE {
            for &a in &few {
                v.push(T::A(o, Box::new(T::A(i, l(a)))));
            }
        }
        for i in 0..TWO {
            for &a in &few {
                for &b in &few {
                    v.push(T::A(o, Box::new(T::B(i, l(a), l(b)))));
                    if !quick {
                        v.push(T::B(i, Box::new(T::A(o, l(a))), l(b)));
                        v.push(T::B(i, l(b), Box::new(T::A(o, l(a)))));
                    }
                }
            }
        }
    }
    v
}

/// Leaves and patterns of one operator.
#[cfg(feature = "alloc")]
fn base(rep: &Rep, terms: &[T]) -> Vec<T> {
    let leaf = |t: &T| matches!(t, T::L(_));
    let few = |t: &T| matches!(t, T::L(0 | 2 | 7));
    terms.iter().filter(|t| leaf(t) || matches!(t, T::A(_, a) if few(a) || !rep.quick() && leaf(a))).cloned().collect()
}

fn family<C: Hc>(rep: &Rep, terms: &[T], inputs: &[&'static str]) {
    rep.explore(&format!("terms / {}", C::NAME), terms, |_, t, l| drive(&build::<C>(t), inputs, l));
    #[cfg(feature = "alloc")]
    {
        let base = base(rep, terms);
        rep.explore(&format!("terms with an allocator / {}", C::NAME), &base, |_, t, l| {
            let p = build::<C>(t);
            for i in 0..more::ONE {
                drive(&more::one(i, p.clone()), inputs, l);
            }
        });
        let mut two = vec![];
        let step = if rep.quick() { 3 } else { 1 };
        for a in 0..LEAVES {
            for b in (a % step..LEAVES).step_by(step) {
                two.push((a, b));
            }
        }
        rep.explore(&format!("pairs with an allocator / {}", C::NAME), &two, |_, (a, b), l| {
            for i in 0..more::TWO {
                drive(&more::two(i, C::leaf(*a), C::leaf(*b)), inputs, l);
            }
        });
    }
    #[cfg(feature = "std")]
    {
        let base = base(rep, terms);
        rep.explore(&format!("terms with locks / {}", C::NAME), &base, |_, t, l| {
            let p = build::<C>(t);
            for i in 0..most::ONE {
                drive(&most::one(i, p.clone()), inputs, l);
            }
        });
    }
}

fn p24(rep: &Rep) {
    let quick = rep.quick();
    let terms = terms(quick);
    let mut inputs = strings(&['a', 'b'], if quick { 3 } else { 4 });
    inputs.extend(strings(&['a', ' ', 'é'], if quick { 2 } else { 3 }));
    family::<Cs>(rep, &terms, &inputs);
    family::<Bs>(rep, &terms, &inputs);
    family::<Pc>(rep, &terms, &inputs);
    probes::run(rep, &inputs);
}

fn main() {
    mc_core::main(&[("P24", p24)])
}
