//! P17: a wrapped pattern behaves like the bare one.

use mc_ast::build::*;
use mc_ast::enumerate::*;
use mc_ast::families::*;
use mc_ast::model::{Fault, Skip};
use mc_ast::run::{Ct, Pat, Rx};
use mc_ast::*;
use mc_core::{Rep, guarded, hash64};
use neure::ctor::{self, Ctor, CtorIntoHelper, CtorRefAsDynCtor};
use neure::ctx::MatchExt;
use neure::err::Error;
use neure::regex::{self, Regex, RegexIntoHelper, RegexRefAsCtor, RegexRefAsDynRegex};
use neure::span::Span;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

/// Lends a reference adapter for each use.
struct LendCtor<C>(Bx<C>);
impl<C: Hc> Regex<C> for LendCtor<C> {
    fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
        CtorRefAsDynCtor::<C, V, Hd>::as_dyn_ctor(&self.0).try_parse(c)
    }
}
impl<C: Hc> Ctor<C, V, Hd> for LendCtor<C> {
    fn construct(&self, c: &mut C, h: &mut Hd) -> Result<V, Error> {
        let a = self.0.as_dyn_ctor();
        let b = a;
        b.construct(c, h)
    }
}
struct LendRegex<C>(Bx<C>, bool);
impl<C: Hc> Regex<C> for LendRegex<C> {
    fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
        if self.1 {
            RegexRefAsCtor::<C>::as_ctor(&self.0).try_parse(c)
        } else {
            RegexRefAsDynRegex::<C>::as_dyn_regex(&self.0).try_parse(c)
        }
    }
}
impl<C: Hc> Ctor<C, V, Hd> for LendRegex<C> {
    fn construct(&self, c: &mut C, h: &mut Hd) -> Result<V, Error> {
        if self.1 {
            RegexRefAsCtor::<C>::as_ctor(&self.0).construct(c, h)
        } else {
            RegexRefAsDynRegex::<C>::as_dyn_regex(&self.0).construct(c, h)
        }
    }
}

/// (name, keeps the inner construction)
pub const KINDS: &[(&str, bool)] = &[
    ("into_box", true),
    ("into_rc", true),
    ("into_arc", true),
    ("into_refcell", true),
    ("into_mutex", true),
    ("into_dyn", true),
    ("into_dyn_arc", true),
    ("into_dyn_rc", true),
    ("Some", true),
    ("RefCell", true),
    ("Mutex", true),
    ("OnceLock", true),
    ("Rc", true),
    ("Arc", true),
    ("Box<dyn Ctor>", true),
    ("Box<dyn Ctor + Send>", true),
    ("Box<dyn Ctor + Send + Sync>", true),
    ("Arc<dyn Ctor>", true),
    ("Arc<dyn Ctor + Send>", true),
    ("Arc<dyn Ctor + Send + Sync>", true),
    ("Rc<dyn Ctor>", true),
    ("Rc<dyn Ctor + Send>", true),
    ("Adapter::dyn_box_send", true),
    ("Adapter::dyn_box_sync", true),
    ("Adapter::dyn_arc_send", true),
    ("Adapter::dyn_arc_sync", true),
    ("Adapter::dyn_rc_send", true),
    ("as_dyn_ctor", true),
    ("Adapter::new", true),
    ("Adapter::with_inner", true),
    // matching only: the range of the whole match goes to the handler
    ("into_ctor", false),
    ("into_box_regex", false),
    ("into_rc_regex", false),
    ("into_arc_regex", false),
    ("into_cell_regex of a reference", false),
    ("into_cell of a reference", false),
    ("into_refcell_regex", false),
    ("into_mutex_regex", false),
    ("into_dyn_regex", false),
    ("into_dyn_arc_regex", false),
    ("into_dyn_rc_regex", false),
    ("Box<dyn Regex>", false),
    ("Box<dyn Regex + Send>", false),
    ("Box<dyn Regex + Send + Sync>", false),
    ("Rc<dyn Regex>", false),
    ("Rc<dyn Regex + Send>", false),
    ("Arc<dyn Regex>", false),
    ("Arc<dyn Regex + Send>", false),
    ("Arc<dyn Regex + Send + Sync>", false),
    ("regex::Adapter::dyn_box_sync", false),
    ("regex::Adapter::dyn_arc_sync", false),
    ("as_ctor", false),
    ("as_dyn_regex", false),
    ("closure", false),
    ("Cell of a reference", false),
];

pub fn wrap<C: Hc>(k: usize, p: Bx<C>) -> Bx<C> {
    type D<C> = dyn Ctor<C, V, Hd>;
    macro_rules! cx {
        ($m:ident) => {
            Box::new(CtorIntoHelper::<C>::$m(p))
        };
    }
    macro_rules! rx {
        ($m:ident) => {
            Box::new(RegexIntoHelper::<C>::$m(p))
        };
    }
    match k {
        0 => cx!(into_box),
        1 => cx!(into_rc),
        2 => cx!(into_arc),
        3 => cx!(into_refcell),
        4 => cx!(into_mutex),
        5 => Box::new(CtorIntoHelper::<C>::into_dyn::<V, Hd>(p)),
        6 => Box::new(CtorIntoHelper::<C>::into_dyn_arc::<V, Hd>(p)),
        7 => Box::new(CtorIntoHelper::<C>::into_dyn_rc::<V, Hd>(p)),
        8 => Box::new(Some(p)),
        9 => Box::new(RefCell::new(p)),
        10 => Box::new(Mutex::new(p)),
        11 => {
            let c = OnceLock::new();
            let _ = c.set(p);
            Box::new(c)
        }
        12 => Box::new(Rc::new(p)),
        13 => Box::new(Arc::new(p)),
        14 => {
            let b: Box<D<C>> = Box::new(p);
            Box::new(b)
        }
        15 => {
            let b: Box<dyn Ctor<C, V, Hd> + Send> = Box::new(Ss(p));
            Box::new(b)
        }
        16 => {
            let b: Box<dyn Ctor<C, V, Hd> + Send + Sync> = Box::new(Ss(p));
            Box::new(b)
        }
        17 => {
            let b: Arc<D<C>> = Arc::new(p);
            Box::new(b)
        }
        18 => {
            let b: Arc<dyn Ctor<C, V, Hd> + Send> = Arc::new(Ss(p));
            Box::new(b)
        }
        19 => {
            let b: Arc<dyn Ctor<C, V, Hd> + Send + Sync> = Arc::new(Ss(p));
            Box::new(b)
        }
        20 => {
            let b: Rc<D<C>> = Rc::new(p);
            Box::new(b)
        }
        21 => {
            let b: Rc<dyn Ctor<C, V, Hd> + Send> = Rc::new(Ss(p));
            Box::new(b)
        }
        22 => Box::new(ctor::Adapter::<C, Box<dyn Ctor<C, V, Hd> + Send>>::dyn_box_send(Ss(p))),
        23 => Box::new(ctor::Adapter::<C, Box<dyn Ctor<C, V, Hd> + Send + Sync>>::dyn_box_sync(Ss(p))),
        24 => Box::new(ctor::Adapter::<C, Arc<dyn Ctor<C, V, Hd> + Send>>::dyn_arc_send(Ss(p))),
        25 => Box::new(ctor::Adapter::<C, Arc<dyn Ctor<C, V, Hd> + Send + Sync>>::dyn_arc_sync(Ss(p))),
        26 => Box::new(ctor::Adapter::<C, Rc<dyn Ctor<C, V, Hd> + Send>>::dyn_rc_send(Ss(p))),
        27 => Box::new(LendCtor(p)),
        28 => Box::new(ctor::Adapter::<C, _>::new(p)),
        29 => {
            let dummy: Bx<C> = Box::new(regex::fail());
            Box::new(ctor::Adapter::<C, _>::new(dummy).with_inner(p))
        }
        30 => rx!(into_ctor),
        31 => rx!(into_box_regex),
        32 => rx!(into_rc_regex),
        33 => rx!(into_arc_regex),
        34 => {
            let r: &'static Bx<C> = Box::leak(Box::new(p));
            let a = RegexRefAsCtor::<C>::as_ctor(r);
            Box::new(RegexIntoHelper::<C>::into_cell_regex(a))
        }
        35 => {
            let r: &'static Bx<C> = Box::leak(Box::new(p));
            let a = RegexRefAsCtor::<C>::as_ctor(r);
            Box::new(CtorIntoHelper::<C>::into_cell(a))
        }
        36 => rx!(into_refcell_regex),
        37 => rx!(into_mutex_regex),
        38 => rx!(into_dyn_regex),
        39 => rx!(into_dyn_arc_regex),
        40 => rx!(into_dyn_rc_regex),
        41 => {
            let b: Box<dyn Regex<C>> = Box::new(p);
            Box::new(b)
        }
        42 => {
            let b: Box<dyn Regex<C> + Send> = Box::new(Ss(p));
            Box::new(b)
        }
        43 => {
            let b: Box<dyn Regex<C> + Send + Sync> = Box::new(Ss(p));
            Box::new(b)
        }
        44 => {
            let b: Rc<dyn Regex<C>> = Rc::new(p);
            Box::new(b)
        }
        45 => {
            let b: Rc<dyn Regex<C> + Send> = Rc::new(Ss(p));
            Box::new(b)
        }
        46 => {
            let b: Arc<dyn Regex<C>> = Arc::new(p);
            Box::new(RegexIntoHelper::<C>::into_ctor(b))
        }
        47 => {
            let b: Arc<dyn Regex<C> + Send> = Arc::new(Ss(p));
            Box::new(RegexIntoHelper::<C>::into_ctor(b))
        }
        48 => {
            let b: Arc<dyn Regex<C> + Send + Sync> = Arc::new(Ss(p));
            Box::new(RegexIntoHelper::<C>::into_ctor(b))
        }
        49 => Box::new(regex::Adapter::<C, Box<dyn Regex<C> + Send + Sync>>::dyn_box_sync(Ss(p))),
        50 => Box::new(regex::Adapter::<C, Arc<dyn Regex<C> + Send + Sync>>::dyn_arc_sync(Ss(p))),
        51 => Box::new(LendRegex(p, true)),
        52 => Box::new(LendRegex(p, false)),
        53 => Box::new(move |c: &mut C| p.try_parse(c)),
        _ => {
            let r: &'static Bx<C> = Box::leak(Box::new(p));
            Box::new(Cell::new(RegexRefAsCtor::<C>::as_ctor(r)))
        }
    }
}

fn expected<C: Hc>(bare: &Pat<C>, keeps: bool, s: &'static str, at: usize, skip: Skip, f: Fault) -> Result<(Rx, Ct), String> {
    let rx = bare.rx(s, at, skip)?;
    let ct = if keeps {
        bare.ct(s, at, skip, f, &mut vec![])?
    } else {
        match rx.span {
            Some((b, l)) if f.handler != Some((b as u32, l as u32)) => Ct {
                val: Some(V::S(b as u32, l as u32)),
                at: rx.at,
            },
            _ => Ct { val: None, at },
        }
    };
    Ok((rx, ct))
}

fn wrapped<C: Hc>(rep: &Rep, name: &str, terms: &[A], chains: &[Vec<usize>], inputs: &[&'static str], skips: &[Skip]) {
    let name = format!("{name} / {}", C::NAME);
    rep.explore(&name, terms, |rep, t, loc| {
        for ch in chains {
            let bare = Pat::<C>::new(t);
            let mut p = build::<C>(t);
            let mut keeps = true;
            for &k in ch {
                p = wrap::<C>(k, p);
                keeps &= KINDS[k].1;
            }
            let w = Pat { p };
            let mut beh = 0u64;
            for &skip in skips {
                for &s in inputs {
                    for at in starts(s, usize::MAX) {
                        let mut log = vec![];
                        let _ = bare.ct(s, at, skip, Fault::default(), &mut log);
                        let mut faults = vec![Fault::default()];
                        if let Some(r) = log.first() {
                            faults.push(Fault { handler: Some(*r), mapper: None });
                        }
                        for f in faults {
                            loc.states += 1;
                            loc.traces += 1;
                            let want = expected(&bare, keeps, s, at, skip, f);
                            let got = w
                                .rx(s, at, skip)
                                .and_then(|r| Ok((r, w.ct(s, at, skip, f, &mut vec![])?)));
                            beh = beh.rotate_left(7) ^ hash64(&got);
                            if matches!(&want, Ok((r, _)) if r.span.is_some()) {
                                loc.matched += 1;
                            } else {
                                loc.failed += 1;
                            }
                            if got != want || want.is_err() {
                                let names: Vec<_> = ch.iter().map(|k| KINDS[*k].0).collect();
                                rep.violation(
                                    &format!("wrap:{names:?}:{t:?}:{s:?}@{at}:{skip:?}:{}", C::NAME),
                                    &format!(
                                        "{t:?} inside {names:?}, {} input {s:?} at {at}, skip {skip:?}, rejected {f:?}: {got:?}, the bare pattern gives {want:?}",
                                        C::NAME
                                    ),
                                );
                            }
                        }
                    }
                }
            }
            loc.outcomes.insert(beh);
        }
    });
}

pub fn p17(rep: &Rep) {
    let q = rep.quick();
    let single: Vec<Vec<usize>> = (0..KINDS.len()).map(|k| vec![k]).collect();
    let pairs: Vec<Vec<usize>> = (0..KINDS.len())
        .flat_map(|a| (0..KINDS.len()).map(move |b| vec![a, b]))
        .collect();
    let none = [Skip::None];
    let t = flat(terms(&leaves_all(), &all_ops(), 1));
    let t2 = flat(terms(&leaves_tiny(), &core_ops(), 3));
    let i = inputs(&['a', 'b'], if q { 3 } else { 5 });
    wrapped::<Cs>(rep, "one wrapper, all leaves", &t, &single, &i, &none);
    wrapped::<Bs>(rep, "one wrapper, all leaves", &t, &single, &i, &none);
    wrapped::<Cs>(rep, "one wrapper, size 3", &t2, &single, &i, &none);
    wrapped::<Bs>(rep, "one wrapper, size 3", &t2, &single, &i, &none);
    let tw = leaves_wide();
    let iw = inputs(&['a', 'é', '𝄞'], 3);
    wrapped::<Cs>(rep, "one wrapper, wide characters", &tw, &single, &iw, &none);
    let ip: Vec<&'static str> = vec!["", "a", " a", "a ", "- a", "-a", " ab", "a b", "<>a", "<>a<>b", "a-b", "  b", "--"];
    let sk = [Skip::Space, Skip::Dash, Skip::Pairs];
    wrapped::<Pc>(rep, "one wrapper, skip policy", &t2, &single, &ip, &sk);
    wrapped::<Pb>(rep, "one wrapper, skip policy", &t2, &single, &ip, &sk);
    let tp = if q { flat(terms(&leaves_tiny(), &core_ops(), 2)) } else { t2.clone() };
    let i2 = inputs(&['a', 'b'], 2);
    wrapped::<Cs>(rep, "two wrappers", &tp, &pairs, &i2, &none);
    if !q {
        wrapped::<Bs>(rep, "two wrappers", &tp, &pairs, &i2, &none);
        let t4 = flat(terms(&leaves_tiny(), &core_ops(), 4));
        wrapped::<Cs>(rep, "one wrapper, size 4", &t4, &single, &i2, &none);
    }
    let triples: Vec<Vec<usize>> = pairs
        .iter()
        .flat_map(|p| (0..KINDS.len()).map(move |c| [&p[..], &[c]].concat()))
        .collect();
    let t3 = flat(terms(&leaves_tiny(), &core_ops(), 1));
    wrapped::<Cs>(rep, "three wrappers", &t3, &triples, &["", "a", "ab", "ba"], &none);
    wrapped::<Pc>(rep, "three wrappers, skip policy", &t3, &triples, &["a", " a", "b a"], &[Skip::Space]);
    empty::<Cs>(rep);
    empty::<Bs>(rep);
    copies::<Cs>(rep);
    native(rep);
}

/// Unfilled wrappers fail without consuming.
fn empty<C: Hc>(rep: &Rep) {
    let kinds = ["None", "unset OnceLock", "Rc of None", "Arc of unset OnceLock", "RefCell of None", "Mutex of None", "Adapter of None", "opt of None", "or after None"];
    let i = inputs(&['a', 'b'], 3);
    rep.explore(&format!("unfilled wrappers / {}", C::NAME), &kinds, |rep, k, loc| {
        let bx: Bx<C> = match *k {
            "None" => Box::new(None::<Bx<C>>),
            "unset OnceLock" => Box::new(OnceLock::<Bx<C>>::new()),
            "Rc of None" => Box::new(Rc::new(None::<Bx<C>>)),
            "Arc of unset OnceLock" => Box::new(Arc::new(OnceLock::<Bx<C>>::new())),
            "RefCell of None" => Box::new(RefCell::new(None::<Bx<C>>)),
            "Mutex of None" => Box::new(Mutex::new(None::<Bx<C>>)),
            "Adapter of None" => Box::new(ctor::Adapter::<C, _>::new(None::<Bx<C>>)),
            "opt of None" => {
                let p = neure::ctor::CtorOps::<'static, C>::opt(None::<Bx<C>>);
                Box::new(val(p, |v: Option<V>| V::O(v.map(Box::new))))
            }
            _ => Box::new(neure::ctor::CtorOps::<'static, C>::or(None::<Bx<C>>, build::<C>(&lit("a")))),
        };
        let p = Pat { p: bx };
        for &s in &i {
            for at in starts(s, usize::MAX) {
                loc.states += 1;
                loc.traces += 1;
                let ok = match *k {
                    "opt of None" => Some((at, V::O(None))),
                    "or after None" => s[at..].starts_with('a').then(|| (at + 1, V::S(at as u32, 1))),
                    _ => None,
                };
                if ok.is_some() {
                    loc.matched += 1;
                }
                let e = ok.as_ref().map_or(at, |v| v.0);
                let want = (
                    Rx { span: ok.as_ref().map(|v| (at, v.0 - at)), at: e },
                    Ct { val: ok.map(|v| v.1), at: e },
                );
                let got = p
                    .rx(s, at, Skip::None)
                    .and_then(|r| Ok((r, p.ct(s, at, Skip::None, Fault::default(), &mut vec![])?)));
                if got != Ok(want.clone()) {
                    rep.violation(
                        &format!("unfilled:{k}:{s:?}@{at}:{}", C::NAME),
                        &format!("{k}, {} input {s:?} at {at}: {got:?}, expected {want:?}", C::NAME),
                    );
                }
            }
        }
    });
}

/// Shared wrappers: every copy is the same pattern; replacing the inner
/// pattern of a cell changes exactly the later uses.
fn copies<C: Hc>(rep: &Rep) {
    let t = flat(terms(&leaves_tiny(), &core_ops(), 2));
    let i = inputs(&['a', 'b'], 3);
    rep.explore(&format!("replaced inner patterns / {}", C::NAME), &t, |rep, a, loc| {
        for b in &t {
            let (pa, pb) = (Pat::<C>::new(a), Pat::<C>::new(b));
            for &s in &i {
                loc.states += 1;
                loc.traces += 1;
                let got = guarded(|| {
                    let cell = Rc::new(RefCell::new(build::<C>(a)));
                    let copy = cell.clone();
                    let mutex = Arc::new(Mutex::new(build::<C>(a)));
                    let mcopy = mutex.clone();
                    let mut ad = ctor::Adapter::<C, Bx<C>>::new(build::<C>(a));
                    let run = |p: &dyn Ctor<C, V, Hd>| {
                        let mut c = C::mk(s, Skip::None);
                        mc_core::set_budget(mc_ast::run::BUDGET);
                        let w = LendDyn(p);
                        let v = c.ctor_handler(&w, Hd::default()).ok();
                        (v, c.offset())
                    };
                    let r1 = (run(&copy), run(&mcopy), run(&ad));
                    *cell.borrow_mut() = build::<C>(b);
                    *mutex.lock().unwrap() = build::<C>(b);
                    ad.set_inner(build::<C>(b));
                    let r2 = (run(&copy), run(&mcopy), run(&ad));
                    (r1, r2)
                });
                let one = |p: &Pat<C>| {
                    let r = p.ct(s, 0, Skip::None, Fault::default(), &mut vec![]);
                    r.map(|c| (c.val, c.at))
                };
                match (one(&pa), one(&pb), got) {
                    (Ok(x), Ok(y), Ok((r1, r2)))
                        if r1 == (x.clone(), x.clone(), x.clone()) && r2 == (y.clone(), y.clone(), y.clone()) =>
                    {
                        loc.matched += 1
                    }
                    (x, y, got) => rep.violation(
                        &format!("replace:{a:?}:{b:?}:{s:?}:{}", C::NAME),
                        &format!("{a:?} replaced by {b:?} on {s:?}: {got:?}, expected {x:?} then {y:?}"),
                    ),
                }
            }
        }
    });
}

struct LendDyn<'d, C>(&'d dyn Ctor<C, V, Hd>);
impl<C> Regex<C> for LendDyn<'_, C> {
    fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
        self.0.try_parse(c)
    }
}
impl<C> Ctor<C, V, Hd> for LendDyn<'_, C> {
    fn construct(&self, c: &mut C, h: &mut Hd) -> Result<V, Error> {
        self.0.construct(c, h)
    }
}

/// The native text and byte forms of a literal are all the same pattern.
fn native(rep: &Rep) {
    let lits = inputs(&['a', 'b'], 3);
    let i = inputs(&['a', 'b'], 4);
    // long literals: every place of a first difference
    let ns = [4usize, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257];
    rep.explore("long literals", &ns, |rep, &n, loc| {
        let l: &'static str = String::leak((0..n).map(|k| char::from(b'a' + (k * 7 % 26) as u8)).collect());
        let mut i: Vec<&'static str> = vec![l, &l[1..], &l[..n - 1], String::leak(format!("{l}{l}")), String::leak(format!("{l}x"))];
        for k in 0..n {
            let mut v = l.as_bytes().to_vec();
            v[k] ^= 1;
            i.push(String::leak(String::from_utf8(v).unwrap()));
        }
        let own: &'static String = Box::leak(Box::new(l.to_string()));
        let forms: Vec<(&str, Bx<Cs>)> = vec![
            ("&str", Box::new(l)),
            ("String", Box::new(l.to_string())),
            ("&String", Box::new(own)),
            ("literal", Box::new(regex::literal(l))),
        ];
        for (n, p) in forms {
            check_lit::<Cs>(rep, n, Pat { p }, l, &i, loc);
        }
        let b = l.as_bytes();
        let own: &'static Vec<u8> = Box::leak(Box::new(b.to_vec()));
        let mut forms: Vec<(&str, Bx<Bs>)> = vec![
            ("&[u8]", Box::new(b)),
            ("Vec<u8>", Box::new(own.clone())),
            ("&Vec<u8>", Box::new(own)),
            ("literal", Box::new(regex::literal(b))),
        ];
        macro_rules! arr {
            ($($n:literal)*) => { $( if b.len() == $n {
                let x: [u8; $n] = b.try_into().unwrap();
                let y: &'static [u8; $n] = Box::leak(Box::new(x));
                forms.push(("[u8; N]", Box::new(x)));
                forms.push(("&[u8; N]", Box::new(y)));
            } )* };
        }
        arr!(4 8 9 16 33 64 256);
        for (n, p) in forms {
            check_lit::<Bs>(rep, n, Pat { p }, l, &i, loc);
        }
    });
    rep.explore("native literals / text", &lits, |rep, l, loc| {
        let l: &'static str = l;
        let own: &'static String = Box::leak(Box::new(l.to_string()));
        let forms: Vec<(&str, Bx<Cs>)> = vec![
            ("&str", Box::new(l)),
            ("String", Box::new(l.to_string())),
            ("&String", Box::new(own)),
            ("literal", Box::new(regex::literal(l))),
            ("Rc", Box::new(Rc::new(l))),
            ("Arc", Box::new(Arc::new(l))),
            ("Cell", Box::new(Cell::new(l))),
            ("Cell adapter", Box::new(CtorIntoHelper::<Cs>::into_cell(l))),
            ("Mutex", Box::new(Mutex::new(l.to_string()))),
        ];
        for (n, p) in forms {
            check_lit::<Cs>(rep, n, Pat { p }, l, &i, loc);
        }
    });
    rep.explore("native literals / bytes", &lits, |rep, l, loc| {
        let l: &'static str = l;
        let own: &'static Vec<u8> = Box::leak(Box::new(l.as_bytes().to_vec()));
        let mut forms: Vec<(&str, Bx<Bs>)> = vec![
            ("&[u8]", Box::new(l.as_bytes())),
            ("Vec<u8>", Box::new(own.clone())),
            ("&Vec<u8>", Box::new(own)),
            ("literal", Box::new(regex::literal(l.as_bytes()))),
            ("Rc", Box::new(Rc::new(l.as_bytes()))),
            ("Cell", Box::new(Cell::new(l.as_bytes()))),
        ];
        let b = l.as_bytes();
        macro_rules! arr {
            ($n:literal) => {
                if b.len() == $n {
                    let x: [u8; $n] = b.try_into().unwrap();
                    let y: &'static [u8; $n] = Box::leak(Box::new(x));
                    forms.push(("[u8; N]", Box::new(x)));
                    forms.push(("&[u8; N]", Box::new(y)));
                }
            };
        }
        arr!(0);
        arr!(1);
        arr!(2);
        arr!(3);
        for (n, p) in forms {
            check_lit::<Bs>(rep, n, Pat { p }, l, &i, loc);
        }
    });
}

fn check_lit<C: Hc>(rep: &Rep, n: &str, p: Pat<C>, l: &'static str, i: &[&'static str], loc: &mut mc_core::Local) {
    for &s in i {
        for at in starts(s, usize::MAX) {
            loc.states += 1;
            loc.traces += 1;
            let ok = s[at..].starts_with(l);
            let e = if ok { at + l.len() } else { at };
            if ok {
                loc.matched += 1;
            } else {
                loc.failed += 1;
            }
            let want = (
                Rx { span: ok.then_some((at, l.len())), at: e },
                Ct { val: ok.then_some(V::S(at as u32, l.len() as u32)), at: e },
            );
            let got = p
                .rx(s, at, Skip::None)
                .and_then(|r| Ok((r, p.ct(s, at, Skip::None, Fault::default(), &mut vec![])?)));
            if got != Ok(want.clone()) {
                rep.violation(
                    &format!("literal:{n}:{l:?}:{s:?}@{at}"),
                    &format!("literal {l:?} given as {n}, input {s:?} at {at}: {got:?}, expected {want:?}"),
                );
            }
        }
    }
}
