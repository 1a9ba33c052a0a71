//! The contexts under test behind one interface.

use neure::ctx::*;
use neure::err::Error;
use neure::span::Span;

pub type Cs = CharsCtx<'static>;
pub type Bs = BytesCtx<'static>;
pub type Skip<C> = fn(&mut C) -> Result<Span, Error>;
pub type Pc = PolicyCtx<Cs, Skip<Cs>>;
pub type Pb = PolicyCtx<Bs, Skip<Bs>>;
/// A policy around a policy.
pub type Pp = PolicyCtx<Pc, Skip<Pc>>;

pub fn no_skip<'a, C: Context<'a>>(c: &mut C) -> Result<Span, Error> {
    Ok(Span::new(c.offset(), 0))
}

pub trait Cx: Context<'static> + Match<'static> + Clone + 'static {
    const NAME: &'static str;
    const CHARS: bool;
    fn mk(s: &'static str) -> Self;
    fn bytes(o: Self::Orig<'static>) -> &'static [u8];
    fn items(i: Self::Iter<'static>) -> Vec<(usize, u32)>;
}

macro_rules! cx {
    ($t:ty, $name:literal, $chars:expr, |$s:ident| $mk:expr, |$o:ident| $b:expr) => {
        impl Cx for $t {
            const NAME: &'static str = $name;
            const CHARS: bool = $chars;
            fn mk($s: &'static str) -> Self {
                $mk
            }
            fn bytes($o: Self::Orig<'static>) -> &'static [u8] {
                $b
            }
            fn items(i: Self::Iter<'static>) -> Vec<(usize, u32)> {
                i.map(|(k, v)| (k, v as u32)).collect()
            }
        }
    };
}

cx!(Cs, "text", true, |s| CharsCtx::new(s), |o| o.as_bytes());
cx!(Bs, "bytes", false, |s| BytesCtx::new(s.as_bytes()), |o| o);
cx!(Pc, "text+policy", true, |s| PolicyCtx::new(CharsCtx::new(s), no_skip::<Cs> as Skip<Cs>), |o| o.as_bytes());
cx!(Pb, "bytes+policy", false, |s| BytesCtx::new(s.as_bytes()).skip_before(no_skip::<Bs> as Skip<Bs>), |o| o);
cx!(Pp, "text+policy+policy", true, |s| PolicyCtx::new(Pc::mk(s), no_skip::<Pc> as Skip<Pc>), |o| o.as_bytes());

/// The reference: what a slice of the input is.
pub fn cut(s: &'static str, chars: bool, at: usize, len: usize) -> Option<&'static [u8]> {
    let e = at.checked_add(len)?;
    if e > s.len() {
        return None;
    }
    if chars && !(s.is_char_boundary(at) && s.is_char_boundary(e)) {
        return None;
    }
    Some(&s.as_bytes()[at..e])
}

pub fn rest(s: &'static str, chars: bool, at: usize) -> Option<&'static [u8]> {
    cut(s, chars, at, s.len().checked_sub(at)?)
}

/// The items of the rest with their relative positions.
pub fn items(s: &'static str, chars: bool, at: usize) -> Option<Vec<(usize, u32)>> {
    let b = rest(s, chars, at)?;
    Some(if chars {
        let mut v = vec![];
        let mut k = 0;
        for c in std::str::from_utf8(b).unwrap().chars() {
            v.push((k, c as u32));
            k += c.len_utf8();
        }
        v
    } else {
        b.iter().enumerate().map(|(k, b)| (k, *b as u32)).collect()
    })
}
