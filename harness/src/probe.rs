//! Parsers whose outcome is chosen when they run, and which write down what they did.
use crate::nd;
use combine::error::{ParseError, ParseResult::{self, *}};
use combine::error::UnexpectedParse;
use combine::stream::{Positioned, ResetStream, Stream, StreamOnce};
use combine::Parser;
use std::cell::RefCell;

pub const COK: u8 = 0;
pub const POK: u8 = 1;
pub const CERR: u8 = 2;
pub const PERR: u8 = 3;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev {
    pub id: u8,
    /// where it started
    pub at: usize,
    pub kind: u8,
    /// where it ended
    pub end: usize,
}
pub type Log = RefCell<Vec<Ev>>;
pub fn log() -> Log {
    RefCell::new(Vec::with_capacity(64))
}

/// A stream of which only the place matters. The place is symbolic: it starts anywhere, and probes
/// move it anywhere.
#[derive(Clone, Debug, PartialEq)]
pub struct Place {
    pub at: usize,
    /// where the input ends, if it does
    pub lim: Option<usize>,
    /// how much of the place its position tells
    pub mask: usize,
}
impl Place {
    pub fn new() -> Place {
        Place { at: nd::u16() as usize, lim: None, mask: !0 }
    }
    /// an input that ends somewhere
    pub fn finite() -> Place {
        Place { at: nd::u16() as usize, lim: Some(nd::u16() as usize), mask: !0 }
    }
    /// an input that ends somewhere, with positions that need not tell its places apart
    pub fn vague() -> Place {
        Place { mask: nd::u16() as usize, ..Place::finite() }
    }
    /// the token there, if any: a function of the place
    pub fn peek(&self, at: usize) -> Option<u8> {
        match self.lim {
            Some(l) if at >= l => None,
            _ => Some(at as u8),
        }
    }
}
impl StreamOnce for Place {
    type Token = u8;
    type Range = u8;
    type Position = usize;
    type Error = UnexpectedParse;
    fn uncons(&mut self) -> Result<u8, UnexpectedParse> {
        match self.peek(self.at) {
            Some(x) => {
                self.at = self.at.wrapping_add(1);
                Ok(x)
            }
            None => Err(UnexpectedParse::Eoi),
        }
    }
}
impl Positioned for Place {
    fn position(&self) -> usize {
        self.at & self.mask
    }
}
impl ResetStream for Place {
    type Checkpoint = usize;
    fn checkpoint(&self) -> usize {
        self.at
    }
    fn reset(&mut self, c: usize) -> Result<(), UnexpectedParse> {
        self.at = c;
        Ok(())
    }
}

/// Takes any number of tokens (at least one) and succeeds (COK), succeeds without input (POK), leaves the
/// stream anywhere and fails committed (CERR), or fails uncommitted with the stream left anywhere (PERR). Which of
/// the four, and how far it moves, is symbolic.
pub struct ProbeOn<'l, S> {
    pub id: u8,
    pub log: &'l Log,
    pub kinds: u8,
    /// at most so many events in the log
    pub cap: usize,
    /// the outcome is a function of the place
    pub det: bool,
    s: std::marker::PhantomData<fn(S)>,
}
impl<'l, S> Clone for ProbeOn<'l, S> {
    fn clone(&self) -> Self {
        ProbeOn { id: self.id, log: self.log, kinds: self.kinds, cap: self.cap, det: self.det, s: self.s }
    }
}
pub type M = Place;
pub type Probe<'l> = ProbeOn<'l, M>;
pub fn probe(id: u8, log: &Log) -> Probe<'_> {
    probe_on(id, log, 4)
}
/// never POK
pub fn probe_c(id: u8, log: &Log) -> Probe<'_> {
    probe_on(id, log, 3)
}
pub fn probe_on<S>(id: u8, log: &Log, kinds: u8) -> ProbeOn<'_, S> {
    ProbeOn { id, log, kinds, cap: 64, det: false, s: std::marker::PhantomData }
}
impl<'l, S> ProbeOn<'l, S> {
    pub fn cap(mut self, n: usize) -> Self {
        self.cap = n;
        self
    }
    pub fn det(mut self) -> Self {
        self.det = true;
        self
    }
}

/// Streams on which the probe can tell where it is.
pub trait At: Stream<Token = u8> {
    fn at(&self) -> usize;
    fn go(&mut self, to: usize);
}
impl At for Place {
    fn at(&self) -> usize {
        self.at
    }
    fn go(&mut self, to: usize) {
        self.at = to;
    }
}
impl<S: At> At for combine::easy::Stream<S>
where
    S: Stream<Token = u8>,
    S::Range: PartialEq,
    combine::easy::Stream<S>: Stream<Token = u8>,
{
    fn at(&self) -> usize {
        self.0.at()
    }
    fn go(&mut self, to: usize) {
        self.0.go(to)
    }
}

impl<'l, S: At> Parser<S> for ProbeOn<'l, S> {
    type Output = u8;
    type PartialState = ();
    fn parse_lazy(&mut self, s: &mut S) -> ParseResult<u8, <S as StreamOnce>::Error> {
        let at = s.at();
        let p = s.position();
        nd::assume(self.log.borrow().len() < self.cap);
        let seen = if self.det {
            self.log.borrow().iter().find(|e| e.id == self.id && e.at == at).map(|e| (e.kind, e.end))
        } else {
            None
        };
        let (k, to) = match seen {
            Some(x) => x,
            None => {
                let k = nd::u8();
                nd::assume(if self.kinds == 3 { k <= PERR && k != POK } else { k < self.kinds });
                // `k` is decided by the solver, path by path
                let k = match k {
                    COK => COK,
                    POK => POK,
                    CERR => CERR,
                    _ => PERR,
                };
                let to = if k == POK { at } else { nd::u16() as usize };
                nd::assume(k != COK || to > at);
                (k, to)
            }
        };
        let e = S::Error::empty(p);
        s.go(to);
        let r = match k {
            COK => CommitOk(self.id),
            POK => PeekOk(self.id),
            CERR => CommitErr(e),
            _ => PeekErr(e.into()),
        };
        self.log.borrow_mut().push(Ev { id: self.id, at, kind: k, end: s.at() });
        r
    }
}

pub fn kind_of<T, E>(r: &ParseResult<T, E>) -> u8 {
    match r {
        CommitOk(_) => COK,
        PeekOk(_) => POK,
        CommitErr(_) => CERR,
        PeekErr(_) => PERR,
    }
}
/// The four ways in which a parser can be run on a whole input; all of them have to agree.
pub fn run<S: Stream, P: Parser<S>>(how: usize, p: &mut P, s: &mut S) -> ParseResult<P::Output, S::Error> {
    match how {
        0 => p.parse_stream(s),
        1 => p.parse_stream_partial(s, &mut Default::default()),
        2 => p.parse_lazy(s),
        _ => p.parse_first(s, &mut Default::default()),
    }
}
pub const HOW: usize = 4;

/// Walks through a log as a reference semantics runs the parsers: every run the semantics asks for
/// has to be the next one in the log.
pub struct Walk<'a> {
    pub l: &'a [Ev],
    pub i: usize,
    /// where the stream is
    pub at: usize,
    /// was input taken so far
    pub c: bool,
}
impl<'a> Walk<'a> {
    pub fn new(l: &'a [Ev], at: usize) -> Self {
        Walk { l, i: 0, at, c: false }
    }
    /// Runs parser `id` here. Moves past it if it succeeds.
    pub fn run(&mut self, id: u8) -> u8 {
        chk!(self.i < self.l.len());
        let e = self.l[self.i];
        chk!(e.id == id);
        chk!(e.at == self.at);
        self.i += 1;
        if e.kind <= POK {
            self.at = e.end;
        }
        if e.kind == COK || e.kind == CERR {
            self.c = true;
        }
        e.kind
    }
    /// index in the log of the run just made
    pub fn last(&self) -> u8 {
        self.i as u8 - 1
    }
    pub fn ok(&self) -> u8 {
        if self.c {
            COK
        } else {
            POK
        }
    }
    pub fn err(&self) -> u8 {
        if self.c {
            CERR
        } else {
            PERR
        }
    }
    pub fn done(&self) {
        chk!(self.i == self.l.len());
    }
}
/// The next index of the log: what a successful run just logged gets as its value.
pub fn idx(l: &Log) -> u8 {
    l.borrow().len() as u8 - 1
}
