//! Feeds an input in chunks through incremental decoding and compares with parsing it whole.
use crate::nd;
use crate::probe::*;
use combine::error::ParseResult::*;
use combine::stream::{decode, easy, position, MaybePartialStream, Positioned, RangeStream, StreamErrorFor};
use combine::error::{ParseError, StreamError};
use combine::Parser;

pub type Part<'a> = MaybePartialStream<&'a [u8]>;
pub type PartStr<'a> = MaybePartialStream<&'a str>;
pub type EasyPart<'a> = easy::Stream<Part<'a>>;
pub type PosPart<'a> = position::Stream<Part<'a>, position::IndexPositioner>;
pub type EasyStr<'a> = easy::Stream<PartStr<'a>>;
pub type PosStr<'a> = position::Stream<PartStr<'a>, position::SourcePosition>;

/// A stream over a chunk.
pub trait Wrap<I>: RangeStream {
    fn wrap(d: I, partial: bool) -> Self;
    fn left(&self) -> usize;
}
impl<I: Input> Wrap<I> for MaybePartialStream<I>
where
    MaybePartialStream<I>: RangeStream,
{
    fn wrap(d: I, partial: bool) -> Self {
        MaybePartialStream(d, partial)
    }
    fn left(&self) -> usize {
        self.0.len()
    }
}
impl<I: Input> Wrap<I> for easy::Stream<MaybePartialStream<I>>
where
    Self: RangeStream,
{
    fn wrap(d: I, partial: bool) -> Self {
        easy::Stream(MaybePartialStream(d, partial))
    }
    fn left(&self) -> usize {
        (self.0).0.len()
    }
}
impl<I: Input, X: Default> Wrap<I> for position::Stream<MaybePartialStream<I>, X>
where
    Self: RangeStream,
{
    fn wrap(d: I, partial: bool) -> Self {
        position::Stream { input: MaybePartialStream(d, partial), positioner: X::default() }
    }
    fn left(&self) -> usize {
        self.input.0.len()
    }
}
impl<I: Input, X: Default + Clone> Wrap<I> for combine::stream::state::Stream<MaybePartialStream<I>, X>
where
    Self: RangeStream,
{
    fn wrap(d: I, partial: bool) -> Self {
        combine::stream::state::Stream { stream: MaybePartialStream(d, partial), state: X::default() }
    }
    fn left(&self) -> usize {
        self.stream.0.len()
    }
}
impl<I: Input, E> Wrap<I> for combine::stream::span::Stream<MaybePartialStream<I>, E>
where
    Self: RangeStream,
{
    fn wrap(d: I, partial: bool) -> Self {
        Self::from(MaybePartialStream(d, partial))
    }
    fn left(&self) -> usize {
        (self.0).0.len()
    }
}
/// Some error.
pub fn err<I: Default, W: Wrap<I>>() -> W::Error {
    let s = W::wrap(I::default(), false);
    W::Error::from_error(s.position(), StreamErrorFor::<W>::message_static_message("no"))
}

/// Input that can be cut anywhere in `0..=len` where `ok` says so.
pub trait Input: Copy {
    fn len(&self) -> usize;
    fn sub(self, a: usize, b: usize) -> Self;
    fn cut(&self, i: usize) -> bool;
}
impl<'a> Input for &'a [u8] {
    fn len(&self) -> usize {
        (**self).len()
    }
    fn sub(self, a: usize, b: usize) -> Self {
        &self[a..b]
    }
    fn cut(&self, _: usize) -> bool {
        true
    }
}
impl<'a> Input for &'a str {
    fn len(&self) -> usize {
        (**self).len()
    }
    fn sub(self, a: usize, b: usize) -> Self {
        chk!(self.is_char_boundary(a) && self.is_char_boundary(b));
        unsafe { self.get_unchecked(a..b) }
    }
    fn cut(&self, i: usize) -> bool {
        self.is_char_boundary(i)
    }
}
/// What a whole parse gives: its value, or none, and what is left.
fn whole<I, W, P>(mut p: P, d: I) -> (Option<P::Output>, usize)
where
    I: Input,
    W: Wrap<I>,
    P: Parser<W>,
{
    let mut s = W::wrap(d, false);
    let r = p.parse_stream(&mut s);
    match r {
        CommitOk(x) | PeekOk(x) => (Some(x), d.len() - s.left()),
        _ => (None, 0),
    }
}
/// Decodes `msgs` messages out of `d`, which arrives in chunks ending at `cuts` (ascending) and at its
/// end, with one parser and one state, and compares with whole parses. Returns how many there were.
pub fn chunks<W, I, P>(mk: impl Fn() -> P, d: I, cuts: &[usize], msgs: usize) -> usize
where
    I: Input,
    W: Wrap<I>,
    P: Parser<W>,
    P::Output: PartialEq,
{
    let mut state = P::PartialState::default();
    let mut parser = mk();
    let mut start = 0;
    let mut i = 0;
    for m in 0..msgs {
        let (want, used) = whole::<I, W, P>(mk(), d.sub(start, d.len()));
        let mut at = start;
        loop {
            let partial = i < cuts.len();
            let end = if partial { cuts[i] } else { d.len() };
            let mut s = W::wrap(d.sub(at, end), partial);
            match decode(&mut parser, &mut s, &mut state) {
                Ok((Some(v), n)) => {
                    // what is left is what the decoder says is left
                    chk!(s.left() == end - at - n);
                    at += n;
                    chk!(want.as_ref() == Some(&v));
                    chk!(at == start + used);
                    cov!(0);
                    break;
                }
                Ok((None, n)) => {
                    chk!(partial);
                    chk!(n <= end - at);
                    at += n;
                    i += 1;
                }
                Err(_) => {
                    chk!(want.is_none());
                    nd::obs(m as u64);
                    cov!(1);
                    return m;
                }
            }
        }
        start = at;
    }
    nd::obs(msgs as u64);
    msgs
}
/// Any `n` cuts of the input, ascending.
pub fn cuts<I: Input>(d: I, n: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(n);
    let mut lo = 0;
    for _ in 0..n {
        lo = nd::range(lo, d.len());
        nd::assume(d.cut(lo));
        v.push(lo);
    }
    v
}
/// The grammars, each of its own type: `split::<W>(k, d, cuts, msgs)` runs number `k` on chunks of type `W`.
#[macro_export]
macro_rules! grammars {
    ($split:ident $count:ident [$W:ident $I:ty, $T:ty] $($e:expr;)*) => {
        #[allow(unused_variables, unused_assignments)]
        pub fn $split<'a, $W>(k: usize, d: &'a $I, cuts: &[usize], msgs: usize) -> usize
        where
            $W: $crate::split::Wrap<&'a $I> + combine::RangeStream<Token = $T, Range = &'a $I>,
            $W::Error: combine::ParseError<$T, &'a $I, $W::Position>,
            $W::Position: Default,
        {
            let mut i = 0;
            $(
                if k == i { return $crate::split::chunks::<$W, _, _>(|| $e, d, cuts, msgs); }
                i += 1;
            )*
            i
        }
        pub const $count: usize = [$(stringify!($e)),*].len();
    };
}
