//! P06, P07: the collection that receives the elements does not matter.

use mc_ast::enumerate::inputs;
use mc_core::{Local, Rep, guarded};
use neure::ctor::CtorOps;
use neure::ctx::*;
use neure::err::Error;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;

type Cs = CharsCtx<'static>;
type S = &'static str;

/// Counts instead of keeping.
#[derive(Debug, PartialEq)]
struct Count(usize);
impl FromIterator<S> for Count {
    fn from_iter<I: IntoIterator<Item = S>>(i: I) -> Self {
        Count(i.into_iter().count())
    }
}

/// Asks once more after the end.
#[derive(Debug, PartialEq)]
struct Eager(Vec<S>, bool);
impl FromIterator<S> for Eager {
    fn from_iter<I: IntoIterator<Item = S>>(i: I) -> Self {
        let mut i = i.into_iter();
        let mut v = vec![];
        while let Some(x) = i.next() {
            v.push(x);
        }
        Eager(v, i.next().is_some())
    }
}

/// What the law says for one way to collect: value by value, at the same position.
fn same<V: Debug + PartialEq + FromIterator<S>>(
    rep: &Rep,
    l: &mut Local,
    what: &str,
    s: S,
    at: usize,
    list: &Result<(Result<Vec<S>, Error>, usize), String>,
    got: Result<(Result<V, Error>, usize), String>,
) {
    l.states += 1;
    l.traces += 1;
    let want = list.clone().map(|(r, p)| (r.map(V::from_iter), p));
    match &want {
        Ok((Ok(_), _)) => l.matched += 1,
        _ => l.failed += 1,
    }
    let eq = match (&want, &got) {
        (Ok((Ok(a), p)), Ok((Ok(b), q))) => a == b && p == q,
        (Ok((Err(_), p)), Ok((Err(_), q))) => p == q,
        _ => false,
    };
    if !eq {
        rep.violation(
            &format!("{what} {} {s:?}@{at}", std::any::type_name::<V>()),
            &format!("{what} into {} on {s:?} at {at}: {got:?}, into a Vec: {want:?}", std::any::type_name::<V>()),
        );
    }
}

fn run<O>(s: S, at: usize, f: impl FnOnce(&mut Cs) -> O) -> Result<(O, usize), String> {
    guarded(|| {
        let mut c = Cs::new(s);
        c.set_offset(at);
        let r = f(&mut c);
        (r, c.offset())
    })
}

macro_rules! kinds {
    ($rep:expr, $l:expr, $what:expr, $s:expr, $at:expr, |$c:ident, $v:ident| $e:expr) => {{
        let list = { type $v = Vec<S>; run($s, $at, |$c| -> Result<$v, Error> { $e }) };
        kinds!(@one $rep, $l, $what, $s, $at, list, $c, $v, $e,
            VecDeque<S>, LinkedList<S>, BTreeSet<S>, HashSet<S>, String, Box<[S]>, Count);
        // an order of its own
        let heap = { type $v = BinaryHeap<S>; run($s, $at, |$c| -> Result<$v, Error> { $e }) };
        same::<Vec<S>>($rep, $l, $what, $s, $at,
            &list.clone().map(|(r, p)| (r.map(|mut v| { v.sort(); v }), p)),
            heap.map(|(r, p)| (r.map(|h| h.into_sorted_vec()), p)));
        list
    }};
    (@one $rep:expr, $l:expr, $what:expr, $s:expr, $at:expr, $list:ident, $c:ident, $v:ident, $e:expr, $($t:ty),*) => {$({
        type $v = $t;
        let got = run($s, $at, |$c| -> Result<$v, Error> { $e });
        same::<$v>($rep, $l, $what, $s, $at, &$list, got);
    })*};
}

fn elem() -> impl neure::regex::Regex<Cs> + neure::ctor::Ctor<Cs, S, neure::ctor::Extract<S>> + Copy {
    CtorOps::<Cs>::pat(CtorOps::<Cs>::or("a", "bb"))
}

pub fn collect(rep: &Rep) {
    let ins = inputs(&['a', 'b'], if rep.quick() { 7 } else { 10 });
    rep.explore("collections", &ins, |rep, s, l| {
        let s: S = s;
        for at in 0..=s.len() {
            for min in 0..5 {
                let what = format!("collect at least {min}");
                let list = kinds!(rep, l, &what, s, at, |c, V| c.ctor(&CtorOps::<Cs>::collect::<S, V>(elem()).at_least(min)));
                let map = run(s, at, |c| -> Result<BTreeMap<S, S>, Error> {
                    let pair = CtorOps::<Cs>::then(elem(), elem());
                    c.ctor(&CtorOps::<Cs>::collect::<(S, S), BTreeMap<S, S>>(pair).at_least(min))
                });
                let pairs = run(s, at, |c| -> Result<Vec<(S, S)>, Error> {
                    let pair = CtorOps::<Cs>::then(elem(), elem());
                    c.ctor(&CtorOps::<Cs>::collect::<(S, S), Vec<(S, S)>>(pair).at_least(min))
                });
                l.states += 1;
                let want = pairs.map(|(r, p)| (r.ok().map(|v| v.into_iter().collect::<BTreeMap<_, _>>()), p));
                let map = map.map(|(r, p)| (r.ok(), p));
                if want != map {
                    rep.violation(&format!("{what} pairs {s:?}@{at}"), &format!("{what} pairs of {s:?} at {at}: {map:?}, expected {want:?}"));
                }
                let eager = run(s, at, |c| -> Result<Eager, Error> { c.ctor(&CtorOps::<Cs>::collect::<S, Eager>(elem()).at_least(min)) });
                same::<Eager>(rep, l, &what, s, at, &list, eager);
            }
        }
    });
}

pub fn separated(rep: &Rep) {
    let ins = inputs(&['a', 'b', ','], if rep.quick() { 6 } else { 8 });
    rep.explore("collections", &ins, |rep, s, l| {
        let s: S = s;
        for at in 0..=s.len().min(2) {
            for skip in [true, false] {
                for min in 0..4 {
                    let what = format!("sep_collect skip {skip} at least {min}");
                    let _ = kinds!(rep, l, &what, s, at, |c, V| c.ctor(&CtorOps::<Cs>::sep_collect::<_, S, V>(elem(), ",").with_skip(skip).at_least(min)));
                }
            }
        }
    });
}
