//! C21: error types and transparent wrappers are observers only.
use crate::nd::{self, q};
use crate::prog::*;
use crate::split::{Part, PosPart, EasyPart, Wrap};
use combine::stream::{decode, PointerOffset};
use combine::error::{ParseError, StreamError, StringStreamError};
use combine::stream::span::Span;
use combine::stream::{easy, position, read, span, state, MaybePartialStream, RangeStream, RangeStreamOnce, ResetStream, StreamErrorFor};
use combine::{Parser, Positioned, StreamOnce};
use std::marker::PhantomData;

/// a user's stream, with any error type
#[derive(Debug)]
pub struct Cust<'a, E> {
    d: &'a [u8],
    at: usize,
    e: PhantomData<E>,
}
impl<'a, E> Cust<'a, E> {
    fn new(d: &'a [u8]) -> Self {
        Cust { d, at: 0, e: PhantomData }
    }
}
impl<'a, E: ParseError<u8, &'a [u8], usize>> StreamOnce for Cust<'a, E> {
    type Token = u8;
    type Range = &'a [u8];
    type Position = usize;
    type Error = E;
    fn uncons(&mut self) -> Result<u8, E::StreamError> {
        match self.d.get(self.at) {
            Some(x) => {
                self.at += 1;
                Ok(*x)
            }
            None => Err(StreamError::end_of_input()),
        }
    }
}
impl<'a, E: ParseError<u8, &'a [u8], usize>> Positioned for Cust<'a, E> {
    fn position(&self) -> usize {
        self.at
    }
}
impl<'a, E: ParseError<u8, &'a [u8], usize>> ResetStream for Cust<'a, E> {
    type Checkpoint = usize;
    fn checkpoint(&self) -> usize {
        self.at
    }
    fn reset(&mut self, c: usize) -> Result<(), E> {
        self.at = c;
        Ok(())
    }
}
impl<'a, E: ParseError<u8, &'a [u8], usize>> RangeStreamOnce for Cust<'a, E> {
    fn uncons_range(&mut self, n: usize) -> Result<&'a [u8], E::StreamError> {
        if n > self.d.len() - self.at {
            return Err(StreamError::end_of_input());
        }
        let r = &self.d[self.at..self.at + n];
        self.at += n;
        Ok(r)
    }
    fn uncons_while<F: FnMut(u8) -> bool>(&mut self, mut f: F) -> Result<&'a [u8], E::StreamError> {
        let a = self.at;
        while self.at < self.d.len() && f(self.d[self.at]) {
            self.at += 1;
        }
        Ok(&self.d[a..self.at])
    }
    fn distance(&self, end: &usize) -> usize {
        self.at - *end
    }
    fn range(&self) -> &'a [u8] {
        &self.d[self.at..]
    }
}

fn run<'a, S>(p: &Pg, mut s: S) -> (R, usize)
where
    S: RangeStream<Token = u8, Range = &'a [u8]>,
{
    let r = outcome(build::<S>(p).parse_stream(&mut s));
    (r, s.range().len())
}
type Sp<'a> = span::Stream<position::Stream<&'a [u8], position::IndexPositioner>, easy::Errors<u8, &'a [u8], Span<usize>>>;
type Index<'a> = position::Stream<&'a [u8], position::IndexPositioner>;
fn index(d: &[u8]) -> Index<'_> {
    position::Stream::with_positioner(d, position::IndexPositioner::new())
}
fn one(p: &Pg, d: &[u8], which: usize) -> (R, usize) {
    match which {
        0 => run(p, easy::Stream(index(d))),
        1 => run(p, Sp::from(index(d))),
        2 => run(p, state::Stream { stream: index(d), state: 7u8 }),
        3 => run(p, Cust::<easy::Error<u8, &[u8]>>::new(d)),
        4 => run(p, Cust::<StringStreamError>::new(d)),
        5 => run(p, Cust::<read::Error>::new(d)),
        _ => {
            let mut e = easy::Stream(MaybePartialStream(d, false));
            run(p, &mut e)
        }
    }
}
/// Decodes `d` cut at `cut`: what each step gave.
fn steps<'a, W: Wrap<&'a [u8]> + RangeStream<Token = u8, Range = &'a [u8]>>(p: &Pg, d: &'a [u8], cut: usize) -> Vec<(Option<Option<V>>, usize)> {
    let mut parser = build::<W>(p);
    let mut state = Default::default();
    let mut v = vec![];
    let mut at = 0;
    for &(end, partial) in &[(cut, true), (d.len(), false)] {
        let mut s = W::wrap(&d[at..end], partial);
        let r = decode(&mut parser, &mut s, &mut state).ok();
        let (x, n) = match r {
            Some((x, n)) => (Some(x), n),
            None => (None, 0),
        };
        let more = x == Some(None);
        v.push((x, n));
        if !more {
            break;
        }
        at += n;
    }
    v
}
type SpPart<'a> = span::Stream<Part<'a>, easy::Errors<u8, &'a [u8], Span<PointerOffset<[u8]>>>>;
const PARTIAL: usize = 4;
fn stepped(p: &Pg, d: &[u8], cut: usize) {
    let want = steps::<Part>(p, d, cut);
    let got = match nd::choose(PARTIAL) {
        0 => steps::<EasyPart>(p, d, cut),
        1 => steps::<PosPart>(p, d, cut),
        2 => steps::<state::Stream<Part, u8>>(p, d, cut),
        _ => steps::<SpPart>(p, d, cut),
    };
    nd::obs(want.len() as u64);
    match want[0].0 {
        Some(None) => cov!(0),
        _ => cov!(1),
    }
    chk!(want == got);
}
const N: usize = 7;
fn same(p: &Pg, d: &[u8]) {
    let want = run(p, d);
    let got = one(p, d, nd::choose(N));
    chk!(want.0 == got.0);
    chk!(want.1 == got.1);
    nd::obs(want.0.kind());
    match want.0 {
        R::CErr => cov!(0),
        R::COk(_) => cov!(1),
        _ => (),
    }
}

/// text grammars: words with separators and numbers, escapes, literals, ranges
fn text<'a, S>(k: usize, mut s: S) -> (R, usize)
where
    S: RangeStream<Token = char, Range = &'a str>,
{
    use combine::parser::char::*;
    use combine::parser::choice::{choice, optional};
    use combine::parser::combinator::attempt;
    use combine::parser::range;
    use combine::parser::repeat::{many, many1, sep_by1, escaped};
    use combine::parser::token::{satisfy, token};
    let v = |x: String| x.into_bytes();
    let r = match k {
        0 => outcome((letter(), many::<String, _, _>(alpha_num()), spaces().silent()).map(|(c, w, _): (char, String, ())| v(format!("{}{}", c, w))).expected("word").parse_stream(&mut s)),
        1 => outcome(sep_by1::<Vec<String>, _, _, _>(many1(digit()), token(',').skip(spaces())).map(|x| v(x.join("+"))).message("numbers").parse_stream(&mut s)),
        2 => outcome(choice((attempt(string("ab")), string("ac"), attempt(string_cmp("b\u{e9}", |a, b| a == b)))).skip(optional(newline().or(crlf()))).map(|x: &str| v(x.to_string())).parse_stream(&mut s)),
        3 => outcome((range::take_while1(|c: char| c.is_alphabetic()), range::take_while(|c: char| c == ' '), range::range("\u{e9}!").or(range::take(1))).map(|(a, b, c): (&str, &str, &str)| v(format!("{}{}{}", a, b, c))).parse_stream(&mut s)),
        4 => outcome(range::recognize(escaped(range::take_while1(|c: char| c != '\\' && c != '"'), '\\', satisfy(|c| c == '"' || c == 'n'))).map(|x: &str| v(x.to_string())).parse_stream(&mut s)),
        _ => outcome(many1::<String, _, _>(attempt(satisfy(|c: char| c > 'a').skip(token('=')))).and_then(|x: String| if x.len() < 3 { Ok(v(x)) } else { Err(StreamErrorFor::<S>::message_static_message("long")) }).parse_stream(&mut s)),
    };
    (r, s.range().len())
}
harnesses! {
    /// every program of depth 1 on every stream
    fn h_c21_depth1[2] {
        let p = any_prog(1, q(6, LEAVES));
        nd::assume(wellformed(&p));
        let d = nd::bytes(0, q(2, 3));
        same(&p, &d);
    }
    /// programs of depth 2: an operator over an operator and a leaf
    fn h_c21_depth2[2] {
        let op = nd::choose(BINARY);
        let (a, b) = (any_prog(1, 2), leaf(nd::choose(q(2, 3))));
        let p = if nd::flag() { binary(op, a, b) } else { binary(op, b, a) };
        nd::assume(wellformed(&p));
        let d = nd::bytes_n(q(2, 3));
        same(&p, &d);
    }
    /// sequences and choices of labelled, optional and looping parts
    fn h_c21_parts[2] {
        let part = || {
            let l = leaf(nd::choose(2));
            match nd::choose(q(4, 6)) {
                0 => l,
                1 => Pg::Opt(Box::new(l)),
                2 => Pg::Label(Box::new(l)),
                3 => Pg::Many(Box::new(l)),
                4 => Pg::Attempt(Box::new(Pg::Seq(Box::new(l), Box::new(Pg::Tok(b'c'))))),
                _ => Pg::Not(Box::new(l)),
            }
        };
        let s = Pg::Seq3(Box::new(part()), Box::new(part()), Box::new(part()));
        let p = match nd::choose(3) {
            0 => s,
            1 => Pg::ChoiceTuple(Box::new(s), Box::new(Pg::Any)),
            _ => Pg::Many(Box::new(Pg::Label(Box::new(Pg::Attempt(Box::new(Pg::Skip(Box::new(s), Box::new(Pg::Tok(b';')))))))))
        };
        let d = nd::bytes_n(q(2, 3));
        same(&p, &d);
    }
    /// every program of depth 1 and the binary ones over an operator and a leaf, in two chunks, on every partial stream
    fn h_c21_chunks[2] {
        let p = if nd::flag() {
            any_prog(1, q(3, LEAVES))
        } else {
            let op = nd::choose(BINARY);
            let (a, b) = (unary(nd::choose(q(6, UNARY)), leaf(0)), leaf(nd::choose(q(2, 3))));
            if nd::flag() { binary(op, a, b) } else { binary(op, b, a) }
        };
        nd::assume(wellformed(&p));
        let d = nd::bytes(0, q(2, 3));
        let cut = nd::within(d.len());
        stepped(&p, &d, cut);
    }
    /// text grammars on every stream
    fn h_c21_text[2] {
        let t = nd::text(0, q(2, 3), 2);
        let k = nd::choose(6);
        let d = &t[..];
        let want = text(k, d);
        let got = match nd::choose(6) {
            0 => text(k, easy::Stream(d)),
            1 => text(k, position::Stream::new(d)),
            2 => text(k, easy::Stream(position::Stream::new(d))),
            3 => text(k, state::Stream { stream: d, state: () }),
            4 => text(k, span::Stream::<_, easy::Errors<char, &str, Span<position::SourcePosition>>>::from(position::Stream::new(d))),
            _ => text(k, &mut MaybePartialStream(d, false)),
        };
        chk!(want.0 == got.0);
        chk!(want.1 == got.1);
        match want.0 {
            R::CErr => cov!(0),
            R::COk(_) => cov!(1),
            _ => (),
        }
    }
}
