//! P23: every interleaving of threads that use one shared pattern.

use mc_sched::{self as sched, Job, each_atomic, explore, tick};
use mc_core::{Rep, hash64};
use neure::ctor::{Adapter, Ctor, CtorIntoHelper, CtorOps, DynamicCtorThenBuilderHelper};
use neure::ctx::*;
use neure::err::Error;
use neure::neu::*;
use neure::regex::{self, DynamicRegexBuilderHelper, Regex, RegexIntoHelper};
use neure::span::Span;
use std::fmt::Debug;
use std::sync::{Arc, Mutex, OnceLock};

type Cs = CharsCtx<'static>;
type S = &'static str;
type Hd = fn(&Cs, &Span) -> Result<S, Error>;
type Pol = fn(&mut Cs) -> Result<Span, Error>;
type Pc = PolicyCtx<Cs, Pol>;

/// The handler is user code, too.
fn text(c: &Cs, s: &Span) -> Result<S, Error> {
    tick();
    c.orig_sub(s.beg(), s.len())
}

/// A literal that yields to the other threads first.
fn lit<C: Context<'static, Orig<'static> = S>>(t: S) -> impl Fn(&mut C) -> Result<Span, Error> + Copy + Send + Sync + 'static {
    move |c: &mut C| {
        tick();
        let o = c.offset();
        if c.orig()?.starts_with(t) {
            c.inc(t.len());
            tick();
            Ok(Span::new(o, t.len()))
        } else {
            Err(Error::Uid(7))
        }
    }
}

fn a() -> impl Fn(&mut Cs) -> Result<Span, Error> + Copy + Send + Sync + 'static {
    lit::<Cs>("a")
}
fn b() -> impl Fn(&mut Cs) -> Result<Span, Error> + Copy + Send + Sync + 'static {
    lit::<Cs>("b")
}

fn is_a(c: &char) -> bool {
    tick();
    *c == 'a'
}
fn not_b(c: &char) -> bool {
    tick();
    *c != 'b'
}

/// What one thread does with the shared pattern.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Match,
    Build,
    Find,
}

type Use = Arc<dyn Fn(Op, S) -> String + Send + Sync>;

fn share<P, O>(p: P) -> Use
where
    P: Regex<Cs> + Ctor<Cs, O, Hd> + Send + Sync + 'static,
    O: Debug,
{
    let p = Arc::new(p);
    Arc::new(move |op, s| {
        let mut c = Cs::new(s);
        match op {
            Op::Match => format!("{:?} at {}", c.try_mat(&*p), c.offset()),
            Op::Build => {
                let r: Result<O, Error> = c.ctor_handler(&*p, text as Hd);
                format!("{r:?} at {}", c.offset())
            }
            Op::Find => {
                let v: Vec<Span> = c.find_all::<Span>(p.clone()).collect();
                format!("{v:?} at {}", c.offset())
            }
        }
    })
}

/// Patterns that only match.
fn share_rx<P: Regex<Cs> + Send + Sync + 'static>(p: P) -> Use {
    let p = Arc::new(p);
    Arc::new(move |op, s| {
        let mut c = Cs::new(s);
        match op {
            Op::Find => format!("{:?} at {}", c.find_all::<Span>(p.clone()).collect::<Vec<_>>(), c.offset()),
            _ => format!("{:?} at {}", c.try_mat(&*p), c.offset()),
        }
    })
}

/// Patterns that only construct.
fn share_ct<P, O>(p: P) -> Use
where
    P: Ctor<Cs, O, Hd> + Send + Sync + 'static,
    O: Debug,
{
    let p = Arc::new(p);
    Arc::new(move |_, s| {
        let mut c = Cs::new(s);
        let r: Result<O, Error> = p.construct(&mut c, &mut (text as Hd));
        format!("{r:?} at {}", c.offset())
    })
}

fn skip(c: &mut Cs) -> Result<Span, Error> {
    tick();
    let o = c.offset();
    let n = c.orig()?.bytes().take_while(|b| *b == b' ').count();
    c.inc(n);
    Ok(Span::new(o, n))
}

fn share_policy<P: Regex<Pc> + Send + Sync + 'static>(p: P) -> Use {
    let p = Arc::new(p);
    Arc::new(move |_, s| {
        let mut c: Pc = Cs::new(s).skip_before(skip as Pol);
        let r = c.try_mat(&*p);
        format!("{r:?} at {}", c.offset())
    })
}

struct Scn {
    name: &'static str,
    make: fn() -> Use,
    ops: &'static [Op],
    inputs: &'static [S],
}

const BOTH: &[Op] = &[Op::Match, Op::Build];
const ALL: &[Op] = &[Op::Match, Op::Build, Op::Find];
const RX: &[Op] = &[Op::Match, Op::Find];
const CT: &[Op] = &[Op::Build];
const MAT: &[Op] = &[Op::Match];

/// A recursive list: `(` items `)` with items separated by commas.
fn list(i: neure::regex::RecursiveCtorSync<'static, Cs, S, Hd>) -> impl Ctor<Cs, S, Hd> + Regex<Cs> + Send + Sync {
    let item = CtorOps::<Cs>::or(lit::<Cs>("a"), i);
    CtorOps::<Cs>::pat(CtorOps::<Cs>::enclose(item, lit::<Cs>("("), lit::<Cs>(")")))
}

/// A value that counts its conversions through user code.
fn up(s: S) -> String {
    tick();
    s.to_uppercase()
}

fn scenarios() -> Vec<Scn> {
    let mut v: Vec<Scn> = vec![];
    macro_rules! scn {
        ($name:literal, $ops:expr, [$($i:literal),*], $with:ident($e:expr)) => {
            v.push(Scn { name: $name, make: || $with($e), ops: $ops, inputs: &[$($i),*] });
        };
    }
    macro_rules! op {
        ($($t:tt)*) => { CtorOps::<Cs>::$($t)* };
    }
    // plain combinators, shared by reference
    scn!("then", ALL, ["ab", "aa", "b"], share(op!(then(a(), b()))));
    scn!("or", ALL, ["a", "b", "c"], share(op!(or(a(), b()))));
    scn!("longest", ALL, ["ab", "a", "c"], share(op!(longest(a(), lit::<Cs>("ab")))));
    scn!("opt", BOTH, ["a", "b"], share(op!(opt(a()))));
    scn!("repeat", BOTH, ["aa", "a", "b"], share(op!(repeat(a(), 1..3))));
    scn!("repeat2", BOTH, ["aa", "a", "b"], share(op!(repeat2::<1, 2>(a()))));
    scn!("collect", BOTH, ["aa", "a", "b"], share(op!(collect::<S, Vec<S>>(a())).at_least(1)));
    scn!("sep", BOTH, ["a,a", "a", "b"], share(op!(sep(a(), lit::<Cs>(",")))));
    scn!("sep2", BOTH, ["a,a", "a", "b"], share(op!(sep2::<_, 1, 2>(a(), lit::<Cs>(",")))));
    scn!("sep_once", BOTH, ["a,b", "a,", "b"], share(op!(sep_once(a(), lit::<Cs>(","), b()))));
    scn!("sep_collect", BOTH, ["a,a", "a", "b"], share(op!(sep_collect::<_, S, Vec<S>>(a(), lit::<Cs>(",")))));
    scn!("enclose", BOTH, ["(a)", "(a", "a"], share(op!(enclose(a(), lit::<Cs>("("), lit::<Cs>(")")))));
    scn!("prefix", BOTH, ["ba", "b", "a"], share(op!(prefix(a(), b()))));
    scn!("suffix", BOTH, ["ab", "a", "b"], share(op!(suffix(a(), b()))));
    scn!("if_then", BOTH, ["a,b", "a", "a,a"], share(op!(if_then(a(), lit::<Cs>(","), b()))));
    scn!("if_else", BOTH, ["ab", "ba", "bb"], share(op!(if_else(lit::<Cs>("ab"), |c: &Cs| { tick(); Ok(c.orig()?.starts_with('a')) }, lit::<Cs>("ba")))));
    scn!("pat", BOTH, ["ab", "a"], share(op!(pat(op!(then(a(), b()))))));
    scn!("map", BOTH, ["a", "b"], share(op!(map::<_, S>(a(), up))));
    scn!("not", RX, ["a", "b"], share_rx(op!(then(regex::not(a()), b()))));
    scn!("peek", RX, ["ab", "b"], share_rx(op!(then(regex::peek(a()), lit::<Cs>("ab")))));
    scn!("skip_ws", BOTH, ["a a", "aa"], share(op!(repeat(op!(skip_ws(a())), 1..3))));
    // tables
    scn!("vector", BOTH, ["a", "b", "c"], share(regex::vector([a_fn as fn(&mut Cs) -> Result<Span, Error>, b_fn])));
    scn!("vector_ltm", BOTH, ["ab", "b", "c"], share(regex::vector_ltm([a_fn as fn(&mut Cs) -> Result<Span, Error>, ab_fn, b_fn])));
    scn!("array", BOTH, ["a", "b", "c"], share(regex::array([a_fn as fn(&mut Cs) -> Result<Span, Error>, b_fn])));
    scn!("array_ltm", BOTH, ["ab", "b", "c"], share(regex::array_ltm([a_fn as fn(&mut Cs) -> Result<Span, Error>, ab_fn])));
    scn!("slice", BOTH, ["a", "b", "c"], share(regex::slice(&TABLE)));
    scn!("slice_ltm", BOTH, ["ab", "b", "c"], share(regex::slice_ltm(&TABLE)));
    scn!("pair_vector", CT, ["a", "b", "c"], share_ct(regex::pair_vector([(a_fn as fn(&mut Cs) -> Result<Span, Error>, 1u8), (b_fn, 2)])));
    scn!("pair_vector_ltm", CT, ["ab", "b", "c"], share_ct(regex::pair_vector_ltm([(a_fn as fn(&mut Cs) -> Result<Span, Error>, 1u8), (ab_fn, 2)])));
    scn!("pair_array", CT, ["a", "b", "c"], share_ct(regex::pair_array([(a_fn as fn(&mut Cs) -> Result<Span, Error>, 1u8), (b_fn, 2)])));
    scn!("pair_array_ltm", CT, ["ab", "b", "c"], share_ct(regex::pair_array_ltm([(a_fn as fn(&mut Cs) -> Result<Span, Error>, 1u8), (ab_fn, 2)])));
    scn!("pair_slice", CT, ["a", "b", "c"], share_ct(regex::pair_slice(&PAIRS)));
    scn!("pair_slice_ltm", CT, ["ab", "b", "c"], share_ct(regex::pair_slice_ltm(&PAIRS)));
    // units: every item goes through user code
    scn!("once", ALL, ["a", "b"], share(regex::once(is_a)));
    scn!("unit opt", ALL, ["a", "b"], share(regex::opt(is_a)));
    scn!("many0", ALL, ["aa", "ab", "b"], share(regex::many0(is_a)));
    scn!("many1", ALL, ["aa", "ab", "b"], share(regex::many1(is_a)));
    scn!("count", ALL, ["aa", "aaa", "b"], share(regex::count::<1, 2, _, _>(is_a)));
    scn!("times", ALL, ["aa", "aaa", "b"], share(NeuIntoRegexOps::<Cs>::times(is_a, 1..3)));
    scn!("unit then", ALL, ["ac", "ab", "b"], share(NeuIntoRegexOps::<Cs>::then(is_a, not_b)));
    scn!("conditions", ALL, ["aa", "aab", "b"], share(regex::many1(is_a).set_cond(|c: &Cs, at: &(usize, char)| {
        tick();
        Ok(!c.orig_at(c.offset() + at.0)?.starts_with("ab"))
    })));
    scn!("regex condition", ALL, ["aa", "aab", "b"], share(regex::many1(is_a).set_cond(regex_cond(regex::not(lit::<Cs>("ab"))))));
    scn!("unit operators", ALL, ["aa", "cb", "b"], share(regex::many1(is_a.or(not_b.and('c')).or('d'.not().and('e')))));
    // built at run time from what was matched
    scn!("dynamic regex", RX, ["ab", "aa", "b"], share_rx(
        DynamicRegexBuilderHelper::<'static, Cs>::into_regex_builder(op!(opt(a())), |_: &mut Cs, s: &Span| -> Result<Box<dyn Regex<Cs>>, Error> {
            tick();
            Ok(if s.is_empty() { Box::new(b()) } else { Box::new(lit::<Cs>("b")) })
        })));
    scn!("dynamic sequence", CT, ["ab", "aa", "b"], share_ct(
        op!(opt(a())).into_ctor_then_builder(|_: &mut Cs, v: &Option<S>| { tick(); Ok(if v.is_some() { lit::<Cs>("b") } else { lit::<Cs>("a") }) })));
    // behind pointers, objects and locks
    scn!("Arc<dyn Regex>", RX, ["aa", "b"], share_rx(Arc::new(op!(repeat(a(), 1..3))) as Arc<dyn Regex<Cs> + Send + Sync>));
    scn!("Box<dyn Regex>", RX, ["aa", "b"], share_rx(Box::new(op!(repeat(a(), 1..3))) as Box<dyn Regex<Cs> + Send + Sync>));
    scn!("Arc<dyn Ctor>", CT, ["aa", "b"], share_ct(Arc::new(op!(repeat(a(), 1..3))) as Arc<dyn Ctor<Cs, Vec<S>, Hd> + Send + Sync>));
    scn!("Box<dyn Ctor>", CT, ["aa", "b"], share_ct(Box::new(op!(repeat(a(), 1..3))) as Box<dyn Ctor<Cs, Vec<S>, Hd> + Send + Sync>));
    scn!("dyn_arc_sync", CT, ["aa", "b"], share_ct(Adapter::<Cs, Arc<dyn Ctor<Cs, Vec<S>, Hd> + Send + Sync>>::dyn_arc_sync(op!(repeat(a(), 1..3)))));
    scn!("dyn_box_sync", CT, ["aa", "b"], share_ct(Adapter::<Cs, Box<dyn Ctor<Cs, Vec<S>, Hd> + Send + Sync>>::dyn_box_sync(op!(repeat(a(), 1..3)))));
    scn!("regex dyn_arc_sync", BOTH, ["aa", "b"], share(neure::regex::Adapter::<Cs, _>::dyn_arc_sync(op!(repeat(a(), 1..3)))));
    scn!("regex dyn_box_sync", BOTH, ["aa", "b"], share(neure::regex::Adapter::<Cs, _>::dyn_box_sync(op!(repeat(a(), 1..3)))));
    scn!("into_arc", BOTH, ["aa", "b"], share(CtorIntoHelper::<Cs>::into_arc(op!(repeat(a(), 1..3)))));
    scn!("Mutex", ALL, ["ab", "aa", "b"], share(Mutex::new(op!(then(a(), b())))));
    scn!("Mutex of a repetition", BOTH, ["aa", "a", "b"], share(Mutex::new(op!(repeat(a(), 1..3)))));
    scn!("repetition of a Mutex", BOTH, ["aa", "a", "b"], share(op!(repeat(op!(then(Mutex::new(a()), lit::<Cs>(""))), 1..3))));
    scn!("choice of Mutexes", BOTH, ["a", "b", "c"], share(op!(or(Mutex::new(a()), Mutex::new(b())))));
    scn!("Mutex in a Mutex", BOTH, ["a", "ab", "b"], share(Mutex::new(op!(then(Mutex::new(a()), op!(opt(b())))))));
    scn!("one Mutex twice", BOTH, ["aa", "a", "b"], share({
        let m = Arc::new(Mutex::new(a()));
        op!(then(m.clone(), op!(opt(m))))
    }));
    scn!("into_mutex", BOTH, ["ab", "b"], share(CtorIntoHelper::<Cs>::into_mutex(op!(then(a(), b())))));
    scn!("into_mutex_regex", BOTH, ["ab", "b"], share(RegexIntoHelper::<Cs>::into_mutex_regex(op!(then(a(), b())))));
    scn!("Arc of a Mutex of an Arc", BOTH, ["ab", "b"], share(Arc::new(Mutex::new(Arc::new(op!(then(a(), b())))))));
    scn!("made on first use", BOTH, ["ab", "b"], share(Lazy(OnceLock::new(), || op!(then(a(), b())))));
    scn!("Mutex made on first use", BOTH, ["ab", "b"], share(Lazy(OnceLock::new(), || Mutex::new(op!(then(a(), b()))))));
    scn!("Mutex unit", ALL, ["aa", "ab", "b"], share(regex::many1(Arc::new(Mutex::new(is_a as fn(&char) -> bool)))));
    scn!("Mutex unit operators", ALL, ["aa", "cb", "b"], share(regex::many1(Arc::new(Mutex::new(is_a as fn(&char) -> bool)).or(Arc::new(Mutex::new(not_b as fn(&char) -> bool))))));
    // recursion
    scn!("rec_parser_sync", CT, ["(a)", "((a))", "(a", "b"], share_ct(regex::rec_parser_sync::<Cs, S, _, Hd>(list)));
    scn!("RecParserSync", CT, ["(a)", "((a))", "(a"], share_ct(<regex::RecParserSync as regex::RecursiveParserSync<Cs>>::build::<S, _, Hd, _>(list)));
    scn!("recursion in a Mutex", CT, ["(a)", "((a))", "(a"], share_ct(Mutex::new(regex::rec_parser_sync::<Cs, S, _, Hd>(list))));
    // policies
    scn!("policy", MAT, [" a b", "ab", "a a"], share_policy(CtorOps::<Pc>::then(lit::<Pc>("a"), lit::<Pc>("b"))));
    scn!("policy and units", MAT, [" ab", "aab", "b"], share_policy(CtorOps::<Pc>::then(regex::many1(is_a), regex::once(not_b.not()))));
    scn!("policy and a Mutex", MAT, [" a b", "ab", "a a"], share_policy(Mutex::new(CtorOps::<Pc>::then(lit::<Pc>("a"), lit::<Pc>("b")))));
    // without user code inside a step, two threads on all kinds of leaves
    scn!("leaves", BOTH, ["a b1", "a b", "b"], share(op!(then(op!(then("a", regex::consume(1))), op!(then(op!(or("b", "c")), op!(map::<_, S>(digit(10).many1(), up))))))));
    v
}

/// A pattern made on first use, by whichever thread comes first.
struct Lazy<P>(OnceLock<P>, fn() -> P);
impl<P: Regex<Cs>> Regex<Cs> for Lazy<P> {
    fn try_parse(&self, c: &mut Cs) -> Result<Span, Error> {
        tick();
        self.0.get_or_init(self.1).try_parse(c)
    }
}
impl<O, P: Ctor<Cs, O, Hd>> Ctor<Cs, O, Hd> for Lazy<P> {
    fn construct(&self, c: &mut Cs, h: &mut Hd) -> Result<O, Error> {
        tick();
        self.0.get_or_init(self.1).construct(c, h)
    }
}

fn a_fn(c: &mut Cs) -> Result<Span, Error> {
    a()(c)
}
fn b_fn(c: &mut Cs) -> Result<Span, Error> {
    b()(c)
}
fn ab_fn(c: &mut Cs) -> Result<Span, Error> {
    lit::<Cs>("ab")(c)
}
type Rf = fn(&mut Cs) -> Result<Span, Error>;
static TABLE: [Rf; 3] = [a_fn, ab_fn, b_fn];
static PAIRS: [(Rf, u8); 3] = [(a_fn, 1), (ab_fn, 2), (b_fn, 3)];

/// Built with thread instrumentation (see run.sh)?
const INSTRUMENTED: bool = cfg!(mc_instrumented);

pub fn p23(rep: &Rep) {
    let quick = rep.quick();
    rep.note("threads are interleaved where a pattern calls back into user code (leaf patterns, unit predicates, conditions, mappers, handlers, skip policies), and, in the family that says so, at every atomic operation of the library; memory is sequentially consistent");
    rep.note("user code that panics while a lock is held poisons it, as the standard library defines; locks are not used recursively");
    let scns = scenarios();
    let mut items: Vec<(usize, Vec<(Op, S)>)> = vec![];
    for (k, s) in scns.iter().enumerate() {
        let uses: Vec<(Op, S)> = s.ops.iter().flat_map(|o| s.inputs.iter().map(|i| (*o, *i))).collect();
        for (x, u) in uses.iter().enumerate() {
            for w in &uses[x..] {
                items.push((k, vec![*u, *w]));
            }
        }
    }
    let two = items.clone();
    let go = |rep: &Rep, (k, uses): &(usize, Vec<(Op, S)>), bound: usize, fine: bool, l: &mut mc_core::Local| {
        let s = &scns[*k];
        // alone, on a pattern of its own
        let mut want: Vec<String> = vec![];
        let mut atomics = 0;
        for &(op, t) in uses {
            let make = s.make;
            let out = sched::run(vec![Box::new(move || make()(op, t)) as Job], &mut |r, _| r[0]);
            if fine && !out.deadlock {
                let p = make();
                let each = sched::run(vec![Box::new(move || each_atomic(|| p(op, t))) as Job], &mut |r, _| r[0]);
                atomics += each.steps.saturating_sub(out.steps);
            }
            if out.deadlock {
                rep.violation(
                    &format!("{} {op:?} {t:?} alone", s.name),
                    &format!("{}: a single thread doing {op:?} on {t:?} waits for a lock forever", s.name),
                );
                rep.abort();
            }
            want.extend(out.results);
        }
        if fine && atomics == 0 {
            // nothing but calls of user code: the family above
            l.states += 1;
            return;
        }
        let mut bad = false;
        let ex = explore(
            bound,
            u64::MAX,
            || {
                let p = (s.make)();
                uses.iter()
                    .map(|&(op, t)| {
                        let p = p.clone();
                        if fine {
                            Box::new(move || each_atomic(|| p(op, t))) as Job
                        } else {
                            Box::new(move || p(op, t)) as Job
                        }
                    })
                    .collect()
            },
            |trace, out| {
                rep.beat();
                if out.results.iter().any(|r| r.starts_with("Ok")) { l.matched += 1 } else { l.failed += 1 }
                l.outcomes.insert(hash64(&(k, trace, &out.results)));
                if out.deadlock || out.results != want {
                    let why = if out.deadlock { "the threads block each other forever" } else { "a thread's result changed" };
                    let sch: String = trace.iter().map(|t| char::from(b'A' + *t as u8)).collect();
                    rep.violation(
                        &format!("{} {uses:?}", s.name),
                        &format!("{}: threads {uses:?} under schedule {sch}: {why}: expected {want:?}, got {:?}", s.name, out.results),
                    );
                    if out.deadlock {
                        rep.abort();
                    }
                    bad = true;
                }
                !bad && !rep.stopped()
            },
        );
        l.states += ex.points;
        l.transitions += ex.steps;
        l.traces += ex.schedules;
        if ex.waits > 0 {
            rep.sample(|| format!("{} {uses:?}: {} schedules, {} waits for a lock, {} handed over differently", s.name, ex.schedules, ex.waits, ex.diverged));
        }
    };
    let bound = if quick { 3 } else { 6 };
    rep.explore(&format!("two threads, at most {bound} preemptions"), &two, |rep, it, l| go(rep, it, bound, false, l));
    // with yield points before the atomic operations of the library, too
    let fine = if quick { 2 } else { 4 };
    if INSTRUMENTED {
        rep.explore(&format!("two threads, every atomic operation, at most {fine} preemptions"), &two, |rep, it, l| go(rep, it, fine, true, l));
    } else {
        rep.note("built without thread instrumentation: atomic operations inside the library were no yield points");
    }
    // which of two waiting threads a lock goes to is not ours to choose: three threads
    // only where no lock is involved
    let mut three = vec![];
    for (k, s) in scns.iter().enumerate() {
        if s.name.to_lowercase().contains("mutex") {
            continue;
        }
        for op in s.ops {
            let n = if quick { 1 } else { s.inputs.len() };
            for x in 0..n {
                for y in x..s.inputs.len() {
                    for z in y..s.inputs.len() {
                        let same = x == y && y == z;
                        if quick && !same {
                            continue;
                        }
                        three.push((k, vec![(*op, s.inputs[x]), (*op, s.inputs[y]), (*op, s.inputs[z])]));
                    }
                }
            }
        }
    }
    let bound = if quick { 1 } else { 2 };
    rep.explore(&format!("three threads, at most {bound} preemptions"), &three, |rep, it, l| go(rep, it, bound, false, l));
}
