//! Some parsers in one type, to be put in all sorts of places.
use combine::error::{ParseResult, Tracked};
use combine::parser::choice::{optional, or, Optional, Or};
use combine::parser::combinator::*;
use combine::parser::error::{unexpected_any, Expected, Unexpected};
use combine::parser::repeat::{many, Many};
use combine::parser::token::{token, value, Token, Value};
use combine::parser::ParseMode;
use combine::stream::{easy, MaybePartialStream};
use combine::{Parser, StreamOnce};

pub type S<'a> = easy::Stream<MaybePartialStream<&'a [u8]>>;
pub type Er<'a> = <S<'a> as StreamOnce>::Error;
pub type V = (u8, u8);
type T<'a> = Token<S<'a>>;
pub fn t<'a>(x: u8) -> T<'a> {
    token(x)
}
#[derive(Default, Clone, PartialEq)]
pub struct Cnt(pub u8, pub u8);
impl Extend<u8> for Cnt {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, i: I) {
        for x in i {
            self.0 += 1;
            self.1 = self.1.wrapping_mul(3).wrapping_add(x);
        }
    }
}
impl Extend<V> for Cnt {
    fn extend<I: IntoIterator<Item = V>>(&mut self, i: I) {
        for (x, y) in i {
            self.0 += 1;
            self.1 = self.1.wrapping_mul(3).wrapping_add(x ^ y);
        }
    }
}
macro_rules! inner {
    ($($k:ident $s:ident: $t:ty = $e:expr;)*) => {
        /// The wrapped parser: one of these, as chosen when it is made. Forwards every method by hand.
        pub enum Inner<'a> { $($k($t)),* }
        pub struct InnerState<'a> {
            $($s: <$t as Parser<S<'a>>>::PartialState,)*
        }
        impl<'a> Default for InnerState<'a> {
            fn default() -> Self {
                InnerState { $($s: Default::default()),* }
            }
        }
        pub fn inner<'a>(k: usize) -> Inner<'a> {
            let mut i = 0;
            $(
                if i == k { return Inner::$k($e); }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }
        pub const INNER: usize = [$(stringify!($k)),*].len();
        impl<'a> Parser<S<'a>> for Inner<'a> {
            type Output = V;
            type PartialState = InnerState<'a>;
            fn parse_lazy(&mut self, input: &mut S<'a>) -> ParseResult<V, Er<'a>> {
                match self { $(Inner::$k(p) => p.parse_lazy(input),)* }
            }
            fn parse_first(&mut self, input: &mut S<'a>, state: &mut InnerState<'a>) -> ParseResult<V, Er<'a>> {
                match self { $(Inner::$k(p) => p.parse_first(input, &mut state.$s),)* }
            }
            fn parse_partial(&mut self, input: &mut S<'a>, state: &mut InnerState<'a>) -> ParseResult<V, Er<'a>> {
                match self { $(Inner::$k(p) => p.parse_partial(input, &mut state.$s),)* }
            }
            fn parse_mode_impl<M: ParseMode>(&mut self, mode: M, input: &mut S<'a>, state: &mut InnerState<'a>) -> ParseResult<V, Er<'a>> {
                match self { $(Inner::$k(p) => p.parse_mode_impl(mode, input, &mut state.$s),)* }
            }
            fn add_error(&mut self, e: &mut Tracked<Er<'a>>) {
                match self { $(Inner::$k(p) => Parser::<S<'a>>::add_error(p, e),)* }
            }
            fn add_committed_expected_error(&mut self, e: &mut Tracked<Er<'a>>) {
                match self { $(Inner::$k(p) => Parser::<S<'a>>::add_committed_expected_error(p, e),)* }
            }
            fn parser_count(&self) -> combine::ErrorOffset {
                match self { $(Inner::$k(p) => Parser::<S<'a>>::parser_count(p),)* }
            }
        }
    };
}
fn one(x: u8) -> V {
    (x, 0)
}
fn both(x: (u8, u8)) -> V {
    x
}
inner! {
    Tok s0: Map<T<'a>, fn(u8) -> V> = t(b'a').map(one as fn(u8) -> V);
    Opti s1: Map<Optional<T<'a>>, fn(Option<u8>) -> V> = optional(t(b'a')).map((|x| (x.is_some() as u8, 1)) as fn(Option<u8>) -> V);
    Fail s2: Unexpected<S<'a>, V, &'static str> = unexpected_any("fail");
    Val s3: Value<S<'a>, V> = value((7, 7));
    Alt s4: Or<Try<Map<(T<'a>, T<'a>), fn((u8, u8)) -> V>>, Map<Expected<T<'a>, &'static str>, fn(u8) -> V>>
        = or(attempt((t(b'a'), t(b'b')).map(both as fn((u8, u8)) -> V)), t(b'b').expected("label").map(one as fn(u8) -> V));
    Rep s5: Map<Many<Cnt, T<'a>>, fn(Cnt) -> V> = many(t(b'a')).map((|c: Cnt| (c.0, c.1)) as fn(Cnt) -> V);
    Two s6: Map<(T<'a>, T<'a>), fn((u8, u8)) -> V> = (t(b'a'), t(b'b')).map(both as fn((u8, u8)) -> V);
    OptTwo s7: Map<(Optional<T<'a>>, T<'a>), fn((Option<u8>, u8)) -> V>
        = (optional(t(b'a')), t(b'b')).map((|(x, y)| (x.is_some() as u8, y)) as fn((Option<u8>, u8)) -> V);
}
/// can it succeed without input
pub fn nullable(k: usize) -> bool {
    k == 1 || k == 3 || k == 5
}

