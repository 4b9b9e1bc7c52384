//! C28: asynchronous decoding gives what parsing the whole input gives, for every readiness schedule.
use crate::nd::{self, q};
use crate::script::Script;
use crate::split::{Input, Part, Wrap};
use combine::error::ParseResult::*;
use combine::error::{ParseError, UnexpectedParse};
use combine::parser::byte;
use combine::parser::choice::{choice, optional};
use combine::parser::combinator::attempt;
use combine::parser::range::*;
use combine::parser::repeat::*;
use combine::parser::token::{any, satisfy, token};
use combine::stream::buf_reader::BufReader;
use combine::stream::decoder::{Decoder, Error};
use combine::stream::position::IndexPositioner;
use combine::stream::{easy, position};
use combine::Parser;
use combine::{decode_futures_03, decode_tokio, decode_tokio_02, decode_tokio_03};
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

type V = Vec<u8>;

fn is_eoi(e: &UnexpectedParse) -> bool {
    *e == UnexpectedParse::Eoi
}
/// Polls to the end. How often it was not ready.
fn block_on<T>(f: impl Future<Output = T>) -> (T, usize) {
    let mut f = pin!(f);
    let cx = &mut Context::from_waker(Waker::noop());
    let mut n = 0;
    loop {
        match f.as_mut().poll(cx) {
            Poll::Ready(x) => return (x, n),
            Poll::Pending => n += 1,
        }
    }
}

macro_rules! flavour {
    ($m:ident $decode:ident) => {
        mod $m {
            use super::*;
            flavour_body! { $decode
                [a0 b0 c0] (any(), any()).map(|x: (u8, u8)| x);
                [a1 b1 c1] take_until_range(&b"ab"[..]).map(|x: &[u8]| x.len()).skip(range(&b"ab"[..]));
                [a2 b2 c2] any().then_partial(|n: &mut u8| take((*n & 3) as usize)).map(|x: &[u8]| x.to_vec());
                [a3 b3 c3] choice((byte::bytes(b"ab").map(|_| 0u8), attempt(byte::bytes(b"ba")).map(|_| 1u8), any()));
                [a4 b4 c4] sep_by1::<Vec<V>, _, _, _>(many1::<V, _, _>(satisfy(|x: u8| x > b'b')), token(b'a')).skip(token(b'b'));
                [a5 b5 c5] take_while1(|x: u8| x > b'b').map(|x: &[u8]| x.len()).skip(optional(token(b'a')));
            }
        }
    };
}
macro_rules! flavour_body {
    ($decode:ident $([$name:ident $namebuf:ident $namepos:ident] $e:expr;)*) => {
        $(
        /// the decoder's own buffer
        pub fn $name(d: &[u8], errs: usize, pend: usize, msgs: usize) {
            let mut dec = Decoder::new();
            let mut rd = Script::new(d, errs);
            rd.pend = pend;
            let mut at = 0;
            for _ in 0..msgs {
                let mut s = Part::wrap(&d[at..], false);
                let mut p = $e;
                let (want, eoi) = match p.parse_stream(&mut s) {
                    PeekOk(v) | CommitOk(v) => (Some(v), false),
                    PeekErr(e) => (None, is_eoi(&e.error)),
                    CommitErr(e) => (None, is_eoi(&e)),
                };
                let used = Input::len(&(&d[at..])) - s.left();
                loop {
                    let before = rd.pend;
                    let (r, waits) = block_on(async { $decode!(dec, rd, $e) });
                    chk!(rd.pend + waits == before);
                    if waits > 0 {
                        cov!(3);
                    }
                    match r {
                        Ok(v) => {
                            chk!(want == Some(v));
                            at += used;
                            chk!(dec.buffer() == &d[at..rd.pos]);
                            chk!(rd.failed.is_none());
                            cov!(0);
                            break;
                        }
                        Err(Error::Io { error, .. }) => {
                            chk!(rd.failed.take() == Some(error.kind()));
                            let c = rd.pos - dec.buffer().len();
                            chk!(c >= at);
                            chk!(dec.buffer() == &d[c..rd.pos]);
                            cov!(1);
                        }
                        Err(Error::Parse(e)) => {
                            chk!(want.is_none());
                            chk!(rd.failed.is_none());
                            let e = is_eoi(&e);
                            chk!(e == eoi);
                            chk!(!e || rd.eofs > 0);
                            cov!(2);
                            return;
                        }
                    }
                }
            }
        }
        /// with the buffer in the reader
        pub fn $namebuf(d: &[u8], errs: usize, pend: usize, msgs: usize, cap: usize) {
            let mut dec = Decoder::new_bufferless();
            let mut rd = BufReader::with_capacity(cap, Script::new(d, errs));
            rd.get_mut().pend = pend;
            let mut at = 0;
            for _ in 0..msgs {
                let mut s = Part::wrap(&d[at..], false);
                let mut p = $e;
                let want = match p.parse_stream(&mut s) {
                    PeekOk(v) | CommitOk(v) => Some(v),
                    _ => None,
                };
                let used = Input::len(&(&d[at..])) - s.left();
                loop {
                    let before = rd.get_ref().pend;
                    let (r, waits) = block_on(async { $decode!(dec, rd, $e, |input, _p| input) });
                    chk!(rd.get_ref().pend + waits == before);
                    if waits > 0 {
                        cov!(3);
                    }
                    match r {
                        Ok(v) => {
                            chk!(want == Some(v));
                            at += used;
                            chk!(rd.buffer() == &d[at..rd.get_ref().pos]);
                            chk!(rd.get_ref().failed.is_none());
                            cov!(0);
                            break;
                        }
                        Err(Error::Io { error, .. }) => {
                            chk!(rd.get_mut().failed.take() == Some(error.kind()));
                            let pos = rd.get_ref().pos;
                            let c = pos - rd.buffer().len();
                            chk!(c >= at);
                            chk!(rd.buffer() == &d[c..pos]);
                            cov!(1);
                        }
                        Err(Error::Parse(_)) => {
                            chk!(want.is_none());
                            chk!(rd.get_ref().failed.is_none());
                            cov!(2);
                            return;
                        }
                    }
                }
            }
        }
        /// with tracked positions and detailed errors
        pub fn $namepos(d: &[u8], errs: usize, pend: usize, msgs: usize) {
            let mut dec = Decoder::<_, usize>::new();
            let mut rd = Script::new(d, errs);
            rd.pend = pend;
            let mut at = 0;
            for _ in 0..msgs {
                let mut s = easy::Stream(position::Stream::with_positioner(Part::wrap(&d[at..], false), IndexPositioner::new_with_position(at)));
                let mut p = $e;
                let (want, err) = match p.parse_stream(&mut s) {
                    PeekOk(v) | CommitOk(v) => (Some(v), None),
                    PeekErr(e) => (None, Some(e.error)),
                    CommitErr(e) => (None, Some(e)),
                };
                let used = Input::len(&(&d[at..])) - s.0.input.left();
                loop {
                    let before = rd.pend;
                    let mut posts = 0;
                    let (r, waits) = block_on(async {
                        $decode!(dec, rd, $e, |input, position| easy::Stream(position::Stream::with_positioner(input, IndexPositioner::new_with_position(position))), |_s| posts += 1).map_err(|e| match e {
                            Error::Io { error, position } => Error::Io { error, position },
                            Error::Parse(e) => Error::Parse((e.position, e.is_unexpected_end_of_input())),
                        })
                    });
                    chk!(rd.pend + waits == before);
                    chk!(posts > 0);
                    if waits > 0 {
                        cov!(3);
                    }
                    match r {
                        Ok(v) => {
                            chk!(want == Some(v));
                            at += used;
                            chk!(*dec.position() == at);
                            chk!(dec.buffer() == &d[at..rd.pos]);
                            cov!(0);
                            break;
                        }
                        Err(Error::Io { error, position }) => {
                            chk!(rd.failed.take() == Some(error.kind()));
                            let c = rd.pos - dec.buffer().len();
                            chk!(position == c);
                            chk!(*dec.position() == position);
                            cov!(1);
                        }
                        Err(Error::Parse(e)) => {
                            chk!(want.is_none());
                            let w = err.unwrap();
                            chk!(e == (w.position, w.is_unexpected_end_of_input()));
                            cov!(2);
                            return;
                        }
                    }
                }
            }
        }
        )*
        pub const PLAIN: &[fn(&[u8], usize, usize, usize)] = &[$($name),*];
        pub const BUF: &[fn(&[u8], usize, usize, usize, usize)] = &[$($namebuf),*];
        pub const POS: &[fn(&[u8], usize, usize, usize)] = &[$($namepos),*];
    };
}
flavour!(tokio1 decode_tokio);
flavour!(tokio03 decode_tokio_03);
flavour!(tokio02 decode_tokio_02);
flavour!(futures decode_futures_03);

harnesses! {
    /// tokio 1: six grammars, any input of up to 3 (4) bytes, any sizes of reads, one failed read and one (two) not ready, anywhere, two messages
    fn h_c28_tokio1[4] {
        let k = nd::choose(tokio1::PLAIN.len());
        tokio1::PLAIN[k](&nd::bytes(0, q(3, 4)), 1, q(1, 2), 2);
    }
    /// tokio 0.3
    fn h_c28_tokio03[4] {
        let k = nd::choose(tokio03::PLAIN.len());
        tokio03::PLAIN[k](&nd::bytes(0, q(3, 4)), 1, q(1, 2), 2);
    }
    /// tokio 0.2
    fn h_c28_tokio02[4] {
        let k = nd::choose(tokio02::PLAIN.len());
        tokio02::PLAIN[k](&nd::bytes(0, q(3, 4)), 1, q(1, 2), 2);
    }
    /// futures 0.3
    fn h_c28_futures[4] {
        let k = nd::choose(futures::PLAIN.len());
        futures::PLAIN[k](&nd::bytes(0, q(3, 4)), 1, q(1, 2), 2);
    }
    /// each of them over the buffered reader, initial capacities 1, 2 and 5; up to 2 (3) bytes
    fn h_c28_buffered[4] {
        let f = [tokio1::BUF, tokio03::BUF, tokio02::BUF, futures::BUF][nd::choose(4)];
        let k = nd::choose(tokio1::BUF.len());
        let cap = [1, 2, 5][nd::choose(3)];
        f[k](&nd::bytes(0, q(2, 3)), 1, 1, 2, cap);
    }
    /// each of them with the position tracked and detailed errors; up to 2 (3) bytes
    fn h_c28_positions[4] {
        let f = [tokio1::POS, tokio03::POS, tokio02::POS, futures::POS][nd::choose(4)];
        let k = nd::choose(tokio1::POS.len());
        f[k](&nd::bytes(0, q(2, 3)), 1, 1, 2);
    }
}
