//! Pattern terms, their construction through neure's public API, and an
//! independent reference semantics (a plain PEG interpreter).

pub mod build;
pub mod enumerate;
pub mod families;
pub mod model;
pub mod run;
pub mod sweep;

use std::fmt;
use std::sync::Arc;

pub type A = Arc<Ast>;

/// Unit classes used inside leaves.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum U {
    Ch(char),
    NotCh(char),
    Any,
    Never,
    Ws,
    AOrB,
}

impl U {
    pub fn accepts(self, c: char) -> bool {
        match self {
            U::Ch(x) => c == x,
            U::NotCh(x) => c != x,
            U::Any => true,
            U::Never => false,
            U::Ws => c == ' ',
            U::AOrB => c == 'a' || c == 'b',
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Leaf {
    Lit(&'static str),
    Once(U),
    Opt(U),
    Many0(U),
    Many1(U),
    /// times(lo..=hi)
    Times(U, usize, usize),
    Start,
    End,
    Empty,
    Unit,
    Fail,
    ConsumeAll,
    /// raw bytes; only used with single-byte inputs or at character boundaries
    Consume(usize),
}

/// Every way the range of `repeat` can be given, with its meaning.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Rng {
    From(usize),
    Incl(usize, usize),
    Excl(usize, usize),
    To(usize),
    ToIncl(usize),
    Exact(usize),
    Full,
    /// (Bound::Excluded(n), Bound::Unbounded)
    After(usize),
    /// (Bound::Excluded(n), Bound::Included(m))
    AfterTo(usize, usize),
}

impl Rng {
    pub fn lo(self) -> usize {
        match self {
            Rng::From(n) | Rng::Incl(n, _) | Rng::Excl(n, _) | Rng::Exact(n) => n,
            Rng::To(_) | Rng::ToIncl(_) | Rng::Full => 0,
            Rng::After(n) | Rng::AfterTo(n, _) => n + 1,
        }
    }
    /// None: unbounded; Some(h): at most h. May be below `lo` (empty range).
    pub fn hi(self) -> Option<usize> {
        match self {
            Rng::From(_) | Rng::Full | Rng::After(_) => None,
            Rng::Incl(_, n) | Rng::ToIncl(n) | Rng::Exact(n) | Rng::AfterTo(_, n) => Some(n),
            Rng::Excl(_, n) | Rng::To(n) => Some(n.saturating_sub(1)),
        }
    }
    /// an exclusive end of zero admits no count at all
    pub fn contains(self, c: usize) -> bool {
        match self {
            Rng::Excl(a, b) => c >= a && c < b,
            Rng::To(b) => c < b,
            _ => c >= self.lo() && self.hi().is_none_or(|h| c <= h),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Test {
    True,
    False,
    Err,
    /// the rest of the input starts with 'a'
    NextA,
    /// the position is even
    Even,
}

/// Compile-time sizes of the fixed-size forms.
pub const SIZES: &[(usize, usize)] = &[(0, 1), (1, 1), (1, 2), (2, 2), (0, 2), (2, 3), (0, 0), (1, 3)];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ws {
    Skip,
    SkipAscii,
    SkipLeading,
    SkipAsciiLeading,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Tab {
    Array,
    ArrayLtm,
    Slice,
    SliceLtm,
    Vector,
    VectorLtm,
    PairArray,
    PairArrayLtm,
    PairSlice,
    PairSliceLtm,
    PairVector,
    PairVectorLtm,
}

impl Tab {
    pub const ALL: [Tab; 12] = [
        Tab::Array,
        Tab::ArrayLtm,
        Tab::Slice,
        Tab::SliceLtm,
        Tab::Vector,
        Tab::VectorLtm,
        Tab::PairArray,
        Tab::PairArrayLtm,
        Tab::PairSlice,
        Tab::PairSliceLtm,
        Tab::PairVector,
        Tab::PairVectorLtm,
    ];
    pub fn ltm(self) -> bool {
        matches!(
            self,
            Tab::ArrayLtm
                | Tab::SliceLtm
                | Tab::VectorLtm
                | Tab::PairArrayLtm
                | Tab::PairSliceLtm
                | Tab::PairVectorLtm
        )
    }
    pub fn pair(self) -> bool {
        matches!(
            self,
            Tab::PairArray
                | Tab::PairArrayLtm
                | Tab::PairSlice
                | Tab::PairSliceLtm
                | Tab::PairVector
                | Tab::PairVectorLtm
        )
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Ast {
    L(Leaf),
    /// the inner pattern as one leaf: its whole range goes to the handler
    Pat(A),
    Opt(A),
    /// mapper that tags the value (and may reject it)
    Map(A),
    Not(A),
    Peek(A),
    Ws(Ws, A),
    Repeat(Rng, A),
    Repeat2(usize, A),
    Collect(usize, A),
    Then(A, A),
    Then0(A, A),
    Then1(A, A),
    Or(A, A),
    Ltm(A, A),
    /// (value, prefix)
    Prefix(A, A),
    /// (value, suffix)
    Suffix(A, A),
    /// value, separator, skip, min
    Sep(bool, usize, A, A),
    /// value, separator, skip, SIZES index
    Sep2(bool, usize, A, A),
    SepCollect(bool, usize, A, A),
    /// value, open, close
    Enclose(A, A, A),
    /// left, separator, right
    SepOnce(A, A, A),
    /// left, test, right
    IfThen(A, A, A),
    /// test true: first
    IfElse(Test, A, A),
    Table(Tab, Vec<A>),
    /// run-time pattern: the second part is chosen by the text of the first
    Dyn(A, DynFn),
    /// the same in regex form: reports only the range of the second part
    RxDyn(A, DynFn),
    /// a recursive pattern, built with a helper
    Fix(Fx, A),
    /// the innermost enclosing recursive pattern
    Rec,
}

/// The recursion helpers.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fx {
    Fun,
    Build,
    FunSync,
    BuildSync,
    BuildWithSync,
}

impl Fx {
    pub const ALL: [Fx; 5] = [Fx::Fun, Fx::Build, Fx::FunSync, Fx::BuildSync, Fx::BuildWithSync];
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum DynFn {
    /// match the same text again
    Same,
    /// match `len` times 'b'
    CountB,
    /// fail when the text is "b", else an empty pattern
    FailOnB,
}

impl Ast {
    pub fn kids(&self) -> Vec<&A> {
        use Ast::*;
        match self {
            L(_) | Rec => vec![],
            Fix(_, a) => vec![a],
            Pat(a) | Opt(a) | Map(a) | Not(a) | Peek(a) | Ws(_, a) | Repeat(_, a)
            | Repeat2(_, a) | Collect(_, a) | Dyn(a, _) | RxDyn(a, _) => vec![a],
            Then(a, b) | Then0(a, b) | Then1(a, b) | Or(a, b) | Ltm(a, b) | Prefix(a, b)
            | Suffix(a, b) | Sep(_, _, a, b) | Sep2(_, _, a, b) | SepCollect(_, _, a, b)
            | IfElse(_, a, b) => vec![a, b],
            Enclose(a, b, c) | SepOnce(a, b, c) | IfThen(a, b, c) => vec![a, b, c],
            Table(_, v) => v.iter().collect(),
        }
    }

    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
    }

    /// May succeed without consuming (conservative).
    pub fn nullable(&self) -> bool {
        self.nullable_r(false)
    }

    /// `rec`: the recursive reference may match nothing.
    pub fn nullable_r(&self, rec: bool) -> bool {
        use Ast::*;
        match self {
            L(l) => match l {
                Leaf::Lit(s) => s.is_empty(),
                Leaf::Once(_) | Leaf::Many1(_) | Leaf::Fail => false,
                Leaf::Times(_, lo, _) => *lo == 0,
                Leaf::Consume(n) => *n == 0,
                _ => true,
            },
            Pat(a) | Map(a) | Ws(_, a) => a.nullable_r(rec),
            Opt(_) | Not(_) | Peek(_) => true,
            Repeat(r, a) => r.contains(0) || a.nullable_r(rec),
            Repeat2(i, a) => SIZES[*i].0 == 0 || a.nullable_r(rec),
            Collect(m, a) => *m == 0 || a.nullable_r(rec),
            Then(a, b) | Then0(a, b) | Then1(a, b) => a.nullable_r(rec) && b.nullable_r(rec),
            Or(a, b) | Ltm(a, b) | IfElse(_, a, b) => a.nullable_r(rec) || b.nullable_r(rec),
            Prefix(a, b) | Suffix(a, b) => a.nullable_r(rec) && b.nullable_r(rec),
            // a last element needs no separator
            Sep(_, m, a, _) | SepCollect(_, m, a, _) => *m == 0 || a.nullable_r(rec),
            Sep2(_, i, a, _) => SIZES[*i].0 == 0 || a.nullable_r(rec),
            Enclose(a, b, c) | SepOnce(a, b, c) => a.nullable_r(rec) && b.nullable_r(rec) && c.nullable_r(rec),
            IfThen(a, _, _) => a.nullable_r(rec),
            Table(_, v) => v.iter().any(|a| a.nullable_r(rec)),
            Dyn(a, _) | RxDyn(a, _) => a.nullable_r(rec),
            Rec => rec,
            Fix(_, a) => a.nullable_r(a.nullable_r(false)),
        }
    }

    /// Unbounded repetition of something that may match nothing does not
    /// terminate in a PEG; such terms are outside every property.
    pub fn well_formed(&self) -> bool {
        self.well_formed_r(false)
    }

    pub fn well_formed_r(&self, rec: bool) -> bool {
        use Ast::*;
        let ok = match self {
            Repeat(r, a) => r.hi().is_some() || !a.nullable_r(rec),
            Collect(_, a) => !a.nullable_r(rec),
            Sep(_, _, a, b) | SepCollect(_, _, a, b) => !(a.nullable_r(rec) && b.nullable_r(rec)),
            // these read the range of the inner pattern, which is not the matched one
            RxDyn(a, _) | Pat(a) => !a.any(&mut |x| matches!(x, RxDyn(..))),
            Fix(_, a) => {
                let n = a.nullable_r(false);
                return a.well_formed_r(n) && !a.left_rec(n);
            }
            _ => true,
        };
        ok && self.kids().iter().all(|k| k.well_formed_r(rec))
    }

    /// The recursive reference may be reached before anything was consumed
    /// (conservative); such a pattern does not terminate in a PEG.
    pub fn left_rec(&self, rec: bool) -> bool {
        use Ast::*;
        let seq = |v: &[&A]| {
            for a in v {
                if a.left_rec(rec) {
                    return true;
                }
                if !a.nullable_r(rec) {
                    return false;
                }
            }
            false
        };
        match self {
            Rec => true,
            // an inner recursive pattern hides the outer one
            Fix(..) => false,
            Prefix(v, p) => seq(&[p, v]),
            Enclose(v, l, r) => seq(&[l, v, r]),
            Or(..) | Ltm(..) | IfElse(..) | Table(..) => self.kids().iter().any(|k| k.left_rec(rec)),
            Then(a, b) | Then0(a, b) | Then1(a, b) | Suffix(a, b) | Sep(_, _, a, b) | Sep2(_, _, a, b)
            | SepCollect(_, _, a, b) => seq(&[a, b]),
            SepOnce(a, b, c) | IfThen(a, b, c) => seq(&[a, b, c]) || (a.nullable_r(rec) && c.left_rec(rec)),
            _ => seq(&self.kids()),
        }
    }

    pub fn any(&self, f: &mut impl FnMut(&Ast) -> bool) -> bool {
        if f(self) {
            return true;
        }
        self.kids().iter().any(|k| k.any(f))
    }
}

impl fmt::Debug for Ast {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use Ast::*;
        match self {
            L(l) => write!(f, "{l:?}"),
            Pat(a) => write!(f, "pat({a:?})"),
            Opt(a) => write!(f, "opt({a:?})"),
            Map(a) => write!(f, "map({a:?})"),
            Not(a) => write!(f, "not({a:?})"),
            Peek(a) => write!(f, "peek({a:?})"),
            Ws(k, a) => write!(f, "{k:?}Ws({a:?})"),
            Repeat(r, a) => write!(f, "repeat[{r:?}]({a:?})"),
            Repeat2(i, a) => write!(f, "repeat2<{},{}>({a:?})", SIZES[*i].0, SIZES[*i].1),
            Collect(m, a) => write!(f, "collect[min {m}]({a:?})"),
            Then(a, b) => write!(f, "then({a:?}, {b:?})"),
            Then0(a, b) => write!(f, "then._0({a:?}, {b:?})"),
            Then1(a, b) => write!(f, "then._1({a:?}, {b:?})"),
            Or(a, b) => write!(f, "or({a:?}, {b:?})"),
            Ltm(a, b) => write!(f, "longest({a:?}, {b:?})"),
            Prefix(a, b) => write!(f, "{a:?}.prefix({b:?})"),
            Suffix(a, b) => write!(f, "{a:?}.suffix({b:?})"),
            Sep(s, m, a, b) => write!(f, "{a:?}.sep({b:?})[skip {s}, min {m}]"),
            Sep2(s, i, a, b) => write!(
                f,
                "{a:?}.sep2<{},{}>({b:?})[skip {s}]",
                SIZES[*i].0, SIZES[*i].1
            ),
            SepCollect(s, m, a, b) => write!(f, "{a:?}.sep_collect({b:?})[skip {s}, min {m}]"),
            Enclose(a, b, c) => write!(f, "{a:?}.enclose({b:?}, {c:?})"),
            SepOnce(a, b, c) => write!(f, "{a:?}.sep_once({b:?}, {c:?})"),
            IfThen(a, b, c) => write!(f, "{a:?}.if_then({b:?}, {c:?})"),
            IfElse(t, a, b) => write!(f, "{a:?}.if_else({t:?}, {b:?})"),
            Table(t, v) => write!(f, "{t:?}{v:?}"),
            Dyn(a, d) => write!(f, "{a:?}.into_ctor_then_builder({d:?})"),
            RxDyn(a, d) => write!(f, "{a:?}.into_regex_builder({d:?})"),
            Fix(k, a) => write!(f, "{k:?}(|rec| {a:?})"),
            Rec => write!(f, "rec"),
        }
    }
}

/// Value of a construction.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum V {
    S(u32, u32),
    P(Box<V>, Box<V>),
    L(Vec<V>),
    F(Vec<Option<V>>),
    O(Option<Box<V>>),
    T(u32, Box<V>),
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::S(b, l) => write!(f, "{b}+{l}"),
            V::P(a, b) => write!(f, "({a:?}, {b:?})"),
            V::L(v) => write!(f, "{v:?}"),
            V::F(v) => write!(f, "fixed{v:?}"),
            V::O(Some(v)) => write!(f, "some({v:?})"),
            V::O(None) => write!(f, "none"),
            V::T(t, v) => write!(f, "#{t}({v:?})"),
        }
    }
}

impl V {
    pub fn leaves(&self, out: &mut Vec<(u32, u32)>) {
        match self {
            V::S(b, l) => out.push((*b, *l)),
            V::P(a, b) => {
                a.leaves(out);
                b.leaves(out);
            }
            V::L(v) => v.iter().for_each(|x| x.leaves(out)),
            V::F(v) => v.iter().flatten().for_each(|x| x.leaves(out)),
            V::O(v) => {
                if let Some(x) = v {
                    x.leaves(out)
                }
            }
            V::T(_, v) => v.leaves(out),
        }
    }
    pub fn first(&self) -> Option<(u32, u32)> {
        let mut v = vec![];
        self.leaves(&mut v);
        v.first().copied()
    }
}
