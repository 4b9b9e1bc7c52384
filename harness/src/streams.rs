//! The range streams of the crate, each built over the same input, and a plain description of what
//! they hold.
use crate::nd;
use combine::error::StringStreamError;
use combine::error::UnexpectedParse;
use combine::stream::{
    easy, position, span, state, CompleteStream, MaybePartialStream, PartialStream, RangeStream,
    SliceStream,
};

pub trait Tok: Clone + PartialEq {
    fn code(&self) -> u32;
}
impl Tok for u8 {
    fn code(&self) -> u32 {
        *self as u32
    }
}
impl<'a> Tok for &'a u8 {
    fn code(&self) -> u32 {
        **self as u32
    }
}
impl Tok for char {
    fn code(&self) -> u32 {
        *self as u32
    }
}
pub trait Rng: Clone {
    fn b(&self) -> &[u8];
}
impl<'a> Rng for &'a [u8] {
    fn b(&self) -> &[u8] {
        self
    }
}
impl<'a> Rng for &'a str {
    fn b(&self) -> &[u8] {
        self.as_bytes()
    }
}

/// What a stream holds: its bytes, and for each token where it ends (in bytes) and its value.
pub struct Model {
    pub bytes: Vec<u8>,
    pub ends: Vec<usize>,
    pub codes: Vec<u32>,
    pub text: bool,
}
impl Model {
    pub fn of_bytes(b: &[u8]) -> Model {
        Model {
            bytes: b.to_vec(),
            ends: (1..=b.len()).collect(),
            codes: b.iter().map(|x| *x as u32).collect(),
            text: false,
        }
    }
    pub fn of_text(s: &str) -> Model {
        let b = s.as_bytes();
        let mut ends = vec![];
        let mut codes = vec![];
        let mut i = 0;
        while i < b.len() {
            let (c, n) = decode1(&b[i..]);
            i += n;
            ends.push(i);
            codes.push(c);
        }
        Model { bytes: b.to_vec(), ends, codes, text: true }
    }
    pub fn ntok(&self) -> usize {
        self.ends.len()
    }
    /// byte offset of token `i`
    pub fn at(&self, i: usize) -> usize {
        if i == 0 {
            0
        } else {
            self.ends[i - 1]
        }
    }
    pub fn is_boundary(&self, off: usize) -> bool {
        off == 0 || self.ends.contains(&off)
    }
    pub fn tok_of(&self, off: usize) -> usize {
        if off == 0 {
            0
        } else {
            self.ends.iter().position(|e| *e == off).unwrap() + 1
        }
    }
}
/// The scalar value at the front of well-formed UTF-8 and its width, written out from the Unicode
/// table.
pub fn decode1(b: &[u8]) -> (u32, usize) {
    let x = b[0] as u32;
    if x < 0x80 {
        (x, 1)
    } else if x < 0xe0 {
        ((x & 0x1f) << 6 | (b[1] as u32 & 0x3f), 2)
    } else if x < 0xf0 {
        ((x & 0xf) << 12 | (b[1] as u32 & 0x3f) << 6 | (b[2] as u32 & 0x3f), 3)
    } else {
        ((x & 7) << 18 | (b[1] as u32 & 0x3f) << 12 | (b[2] as u32 & 0x3f) << 6 | (b[3] as u32 & 0x3f), 4)
    }
}

pub trait Job {
    fn run<S>(&mut self, s: S, m: &Model)
    where
        S: RangeStream,
        S::Token: Tok,
        S::Range: Rng + combine::stream::Range;
}

pub const SLICE_STREAMS: usize = 13;
pub fn on_slice<J: Job>(which: usize, d: &[u8], j: &mut J) {
    let m = Model::of_bytes(d);
    match which {
        0 => j.run(d, &m),
        1 => j.run(SliceStream(d), &m),
        2 => j.run(PartialStream(d), &m),
        3 => j.run(CompleteStream(PartialStream(d)), &m),
        4 => j.run(MaybePartialStream(d, nd::flag()), &m),
        5 => {
            let mut s = d;
            j.run(&mut s, &m)
        }
        6 => j.run(easy::Stream(d), &m),
        7 => j.run(position::Stream::new(d), &m),
        8 => j.run(state::Stream { stream: d, state: 7u8 }, &m),
        9 => j.run(span::Stream::<_, UnexpectedParse>::from(d), &m),
        10 => j.run(position::Stream::new(SliceStream(d)), &m),
        11 => j.run(position::Stream::with_positioner(MaybePartialStream(d, nd::flag()), position::IndexPositioner::new()), &m),
        _ => j.run(state::Stream { stream: easy::Stream(position::Stream::new(MaybePart::new(d))), state: () }, &m),
    }
}
pub const STR_STREAMS: usize = 11;
pub fn on_str<J: Job>(which: usize, d: &str, j: &mut J) {
    let m = Model::of_text(d);
    match which {
        0 => j.run(d, &m),
        1 => j.run(PartialStream(d), &m),
        2 => j.run(CompleteStream(PartialStream(d)), &m),
        3 => j.run(MaybePartialStream(d, nd::flag()), &m),
        4 => {
            let mut s = d;
            j.run(&mut s, &m)
        }
        5 => j.run(easy::Stream(d), &m),
        6 => j.run(position::Stream::new(d), &m),
        7 => j.run(state::Stream { stream: d, state: 7u8 }, &m),
        8 => j.run(span::Stream::<_, StringStreamError>::from(d), &m),
        9 => j.run(position::Stream::with_positioner(MaybePartialStream(d, nd::flag()), position::SourcePosition::new()), &m),
        _ => j.run(state::Stream { stream: easy::Stream(position::Stream::with_positioner(d, position::IndexPositioner::new())), state: () }, &m),
    }
}

/// A user-written positioned range stream (so that the generic code paths and the default
/// `uncons_while1` of the trait are exercised as well).
#[derive(Clone, Debug, PartialEq)]
pub struct MaybePart<'a> {
    pub d: &'a [u8],
    pub at: usize,
    pub partial: bool,
}
impl<'a> MaybePart<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        MaybePart { d, at: 0, partial: false }
    }
    pub fn partial(d: &'a [u8], partial: bool) -> Self {
        MaybePart { d, at: 0, partial }
    }
}
impl<'a> combine::StreamOnce for MaybePart<'a> {
    type Token = u8;
    type Range = &'a [u8];
    type Position = usize;
    type Error = UnexpectedParse;
    fn uncons(&mut self) -> Result<u8, UnexpectedParse> {
        match self.d.get(self.at) {
            Some(x) => {
                self.at += 1;
                Ok(*x)
            }
            None => Err(UnexpectedParse::Eoi),
        }
    }
    fn is_partial(&self) -> bool {
        self.partial
    }
}
impl<'a> combine::Positioned for MaybePart<'a> {
    fn position(&self) -> usize {
        self.at
    }
}
impl<'a> combine::stream::ResetStream for MaybePart<'a> {
    type Checkpoint = usize;
    fn checkpoint(&self) -> usize {
        self.at
    }
    fn reset(&mut self, c: usize) -> Result<(), UnexpectedParse> {
        self.at = c;
        Ok(())
    }
}
impl<'a> combine::RangeStreamOnce for MaybePart<'a> {
    fn uncons_range(&mut self, n: usize) -> Result<&'a [u8], UnexpectedParse> {
        if n > self.d.len() - self.at {
            return Err(UnexpectedParse::Eoi);
        }
        let r = &self.d[self.at..self.at + n];
        self.at += n;
        Ok(r)
    }
    fn uncons_while<F: FnMut(u8) -> bool>(&mut self, mut f: F) -> Result<&'a [u8], UnexpectedParse> {
        let a = self.at;
        while self.at < self.d.len() && f(self.d[self.at]) {
            self.at += 1;
        }
        Ok(&self.d[a..self.at])
    }
    fn distance(&self, end: &usize) -> usize {
        self.at - *end
    }
    fn range(&self) -> &'a [u8] {
        &self.d[self.at..]
    }
}
impl<'a> position::DefaultPositioned for MaybePart<'a> {
    type Positioner = position::IndexPositioner;
}

/// Runs `$e` on the byte stream number `$w` over `$d`.
#[macro_export]
macro_rules! with_bytes {
    ($w:expr, $d:expr, |$s:ident| $e:expr) => {{
        use combine::stream::*;
        let d: &[u8] = $d;
        match $w {
            0 => { let $s = d; $e }
            1 => { let $s = MaybePartialStream(d, $crate::nd::flag()); $e }
            2 => { let $s = easy::Stream(PartialStream(d)); $e }
            3 => { let $s = position::Stream::with_positioner(CompleteStream(d), position::IndexPositioner::new()); $e }
            4 => { let $s = $crate::streams::MaybePart::partial(d, $crate::nd::flag()); $e }
            _ => { let $s = state::Stream { stream: easy::Stream(position::Stream::new(d)), state: () }; $e }
        }
    }};
}
pub const BYTES: usize = 6;
/// Runs `$e` on the text stream number `$w` over `$d`.
#[macro_export]
macro_rules! with_text {
    ($w:expr, $d:expr, |$s:ident| $e:expr) => {{
        use combine::stream::*;
        let d: &str = $d;
        match $w {
            0 => { let $s = d; $e }
            1 => { let $s = MaybePartialStream(d, $crate::nd::flag()); $e }
            2 => { let $s = easy::Stream(PartialStream(d)); $e }
            3 => { let $s = position::Stream::with_positioner(CompleteStream(d), position::IndexPositioner::new()); $e }
            _ => { let $s = state::Stream { stream: easy::Stream(position::Stream::new(d)), state: () }; $e }
        }
    }};
}
pub const TEXTS: usize = 5;
pub fn is_eoi<S: combine::StreamOnce>(_: &S, e: &S::Error) -> bool {
    combine::ParseError::is_unexpected_end_of_input(e)
}
