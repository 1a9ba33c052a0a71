//! Exhaustive enumeration of pattern terms and inputs.

use crate::{A, Ast};
use std::sync::Arc;

pub fn l(x: crate::Leaf) -> A {
    Arc::new(Ast::L(x))
}

/// Operators of a family, by arity.
#[derive(Default, Clone)]
pub struct Ops {
    pub one: Vec<Arc<dyn Fn(A) -> Ast + Send + Sync>>,
    pub two: Vec<Arc<dyn Fn(A, A) -> Ast + Send + Sync>>,
    pub three: Vec<Arc<dyn Fn(A, A, A) -> Ast + Send + Sync>>,
}

impl Ops {
    pub fn one(mut self, f: impl Fn(A) -> Ast + Send + Sync + 'static) -> Self {
        self.one.push(Arc::new(f));
        self
    }
    pub fn two(mut self, f: impl Fn(A, A) -> Ast + Send + Sync + 'static) -> Self {
        self.two.push(Arc::new(f));
        self
    }
    pub fn three(mut self, f: impl Fn(A, A, A) -> Ast + Send + Sync + 'static) -> Self {
        self.three.push(Arc::new(f));
        self
    }
    pub fn plus(mut self, o: &Ops) -> Self {
        self.one.extend(o.one.iter().cloned());
        self.two.extend(o.two.iter().cloned());
        self.three.extend(o.three.iter().cloned());
        self
    }
}

/// All well-formed terms with exactly 1, 2, ... `max` nodes.
pub fn terms(leaves: &[A], ops: &Ops, max: usize) -> Vec<Vec<A>> {
    let mut by: Vec<Vec<A>> = vec![vec![], leaves.to_vec()];
    for n in 2..=max {
        let mut v: Vec<A> = vec![];
        let mut push = |a: Ast| {
            if a.well_formed() {
                v.push(Arc::new(a));
            }
        };
        for f in &ops.one {
            for a in &by[n - 1] {
                push(f(a.clone()));
            }
        }
        for f in &ops.two {
            for i in 1..n - 1 {
                for a in &by[i] {
                    for b in &by[n - 1 - i] {
                        push(f(a.clone(), b.clone()));
                    }
                }
            }
        }
        for f in &ops.three {
            for i in 1..n {
                for j in 1..n {
                    if i + j + 2 > n {
                        continue;
                    }
                    let k = n - 1 - i - j;
                    for a in &by[i] {
                        for b in &by[j] {
                            for c in &by[k] {
                                push(f(a.clone(), b.clone(), c.clone()));
                            }
                        }
                    }
                }
            }
        }
        by.push(v);
    }
    by
}

pub fn flat(by: Vec<Vec<A>>) -> Vec<A> {
    by.into_iter().flatten().collect()
}

/// All strings over `alpha` up to `max` characters, leaked for the run.
pub fn inputs(alpha: &[char], max: usize) -> Vec<&'static str> {
    let mut out: Vec<String> = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for c in alpha {
                let mut t = s.clone();
                t.push(*c);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out.into_iter().map(|s| &*s.leak()).collect()
}

/// Start positions explored for an input: every character boundary up to `max`.
pub fn starts(s: &str, max: usize) -> impl Iterator<Item = usize> + '_ {
    (0..=s.len().min(max)).filter(|i| s.is_char_boundary(*i))
}
