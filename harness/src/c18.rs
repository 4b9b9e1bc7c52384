//! C18: the decoder over readers that return anything from one byte to all there is, or fail.
use crate::nd::{self, q};
use crate::script::Script;
use crate::split::{Input, Part, Wrap};
use combine::decode;
use combine::error::ParseResult::*;
use combine::error::{ParseError, UnexpectedParse};
use combine::parser::byte;
use combine::parser::choice::{choice, optional};
use combine::parser::combinator::{attempt, recognize as recog};
use combine::parser::range::*;
use combine::parser::repeat::*;
use combine::parser::token::{any, eof, satisfy, token};
use combine::stream::buf_reader::BufReader;
use combine::stream::decoder::{Decoder, Error};
use combine::stream::position::IndexPositioner;
use combine::stream::{easy, position};
use combine::Parser;

type V = Vec<u8>;

fn is_eoi(e: &UnexpectedParse) -> bool {
    *e == UnexpectedParse::Eoi
}

macro_rules! decoders {
    ($([$name:ident $namebuf:ident $namepos:ident] $e:expr;)*) => {
        $(
        /// over any reader, with the decoder's own buffer
        fn $name(d: &[u8], errs: usize, msgs: usize) {
            let mut dec = Decoder::new();
            let mut rd = Script::new(d, errs);
            let mut at = 0;
            for _ in 0..msgs {
                let mut s = Part::wrap(&d[at..], false);
                let mut p = $e;
                let (want, eoi) = match p.parse_stream(&mut s) {
                    PeekOk(v) | CommitOk(v) => (Some(v), false),
                    PeekErr(e) => (None, is_eoi(&e.error)),
                    CommitErr(e) => (None, is_eoi(&e)),
                };
                let used = Input::len(&(&d[at..])) - s.left();
                loop {
                    match decode!(dec, rd, $e, |input, _p| input) {
                        Ok(v) => {
                            chk!(want == Some(v));
                            at += used;
                            chk!(rd.pos - dec.buffer().len() == at);
                            chk!(dec.buffer() == &d[at..rd.pos]);
                            chk!(rd.failed.is_none());
                            cov!(0);
                            break;
                        }
                        Err(Error::Io { error, .. }) => {
                            // as the reader reported it, and nothing is lost
                            chk!(rd.failed.take() == Some(error.kind()));
                            let c = rd.pos - dec.buffer().len();
                            chk!(c >= at);
                            chk!(dec.buffer() == &d[c..rd.pos]);
                            cov!(1);
                        }
                        Err(Error::Parse(e)) => {
                            chk!(want.is_none());
                            chk!(rd.failed.is_none());
                            let e = is_eoi(&e);
                            chk!(e == eoi);
                            // only a declared end of input is one
                            chk!(!e || rd.eofs > 0);
                            cov!(2);
                            return;
                        }
                    }
                }
            }
        }
        /// with the buffer in the reader
        fn $namebuf(d: &[u8], errs: usize, msgs: usize, cap: usize) {
            let mut dec = Decoder::new_bufferless();
            let mut rd = BufReader::with_capacity(cap, Script::new(d, errs));
            let mut at = 0;
            for _ in 0..msgs {
                let mut s = Part::wrap(&d[at..], false);
                let mut p = $e;
                let want = match p.parse_stream(&mut s) {
                    PeekOk(v) | CommitOk(v) => Some(v),
                    _ => None,
                };
                let used = Input::len(&(&d[at..])) - s.left();
                loop {
                    match decode!(dec, rd, $e, |input, _p| input) {
                        Ok(v) => {
                            chk!(want == Some(v));
                            at += used;
                            chk!(rd.buffer() == &d[at..rd.get_ref().pos]);
                            chk!(rd.get_ref().failed.is_none());
                            cov!(0);
                            break;
                        }
                        Err(Error::Io { error, .. }) => {
                            chk!(rd.get_mut().failed.take() == Some(error.kind()));
                            let pos = rd.get_ref().pos;
                            let c = pos - rd.buffer().len();
                            chk!(c >= at);
                            chk!(rd.buffer() == &d[c..pos]);
                            cov!(1);
                        }
                        Err(Error::Parse(_)) => {
                            chk!(want.is_none());
                            chk!(rd.get_ref().failed.is_none());
                            cov!(2);
                            return;
                        }
                    }
                }
            }
        }
        /// with tracked positions and detailed errors
        fn $namepos(d: &[u8], errs: usize, msgs: usize) {
            let mut dec = Decoder::<_, usize>::new();
            let mut rd = Script::new(d, errs);
            let mut at = 0;
            for _ in 0..msgs {
                let mut s = easy::Stream(position::Stream::with_positioner(Part::wrap(&d[at..], false), IndexPositioner::new_with_position(at)));
                let mut p = $e;
                let (want, err) = match p.parse_stream(&mut s) {
                    PeekOk(v) | CommitOk(v) => (Some(v), None),
                    PeekErr(e) => (None, Some(e.error)),
                    CommitErr(e) => (None, Some(e)),
                };
                let used = Input::len(&(&d[at..])) - s.0.input.left();
                loop {
                    match decode!(dec, rd, $e, |input, position| easy::Stream(position::Stream::with_positioner(input, IndexPositioner::new_with_position(position)))) {
                        Ok(v) => {
                            chk!(want == Some(v));
                            at += used;
                            chk!(*dec.position() == at);
                            chk!(dec.buffer() == &d[at..rd.pos]);
                            cov!(0);
                            break;
                        }
                        Err(Error::Io { error, position }) => {
                            chk!(rd.failed.take() == Some(error.kind()));
                            let c = rd.pos - dec.buffer().len();
                            chk!(position == c);
                            chk!(*dec.position() == position);
                            cov!(1);
                        }
                        Err(Error::Parse(e)) => {
                            chk!(want.is_none());
                            let w = err.unwrap();
                            chk!(e.position == w.position);
                            chk!(e.is_unexpected_end_of_input() == w.is_unexpected_end_of_input());
                            cov!(2);
                            return;
                        }
                    }
                }
            }
        }
        )*
        const PLAIN: &[fn(&[u8], usize, usize)] = &[$($name),*];
        const BUF: &[fn(&[u8], usize, usize, usize)] = &[$($namebuf),*];
        const POS: &[fn(&[u8], usize, usize)] = &[$($namepos),*];
    };
}
decoders! {
    [a0 b0 c0] (any(), any()).map(|x: (u8, u8)| x);
    [a1 b1 c1] many1::<V, _, _>(satisfy(|x: u8| x != b'a')).skip(token(b'a'));
    [a2 b2 c2] take_until_range(&b"ab"[..]).map(|x: &[u8]| x.len()).skip(range(&b"ab"[..]));
    [a3 b3 c3] any().then_partial(|n: &mut u8| take((*n & 3) as usize)).map(|x: &[u8]| x.to_vec());
    [a4 b4 c4] choice((byte::bytes(b"ab").map(|_| 0u8), attempt(byte::bytes(b"ba")).map(|_| 1u8), any()));
    [a5 b5 c5] sep_by1::<Vec<V>, _, _, _>(many1::<V, _, _>(satisfy(|x: u8| x > b'b')), token(b'a')).skip(token(b'b'));
    [a6 b6 c6] recog::<V, _, _>(skip_many1(token(b'a'))).and(optional(token(b'b'))).skip(token(b'\n'));
    [a7 b7 c7] take_while1(|x: u8| x > b'b').map(|x: &[u8]| x.to_vec()).or(take(1).map(|x: &[u8]| x.to_vec()));
    [a8 b8 c8] optional(any()).skip(eof().map(|_| ()).or(token(b'a').map(|_| ())));
}

harnesses! {
    /// each grammar above, any input of up to 4 (thorough: 5) bytes, any sizes of reads, up to one (two) failed reads (Interrupted, WouldBlock) anywhere, two (three) messages
    fn h_c18_reads[2] {
        let k = nd::choose(PLAIN.len());
        let d = nd::bytes(0, q(4, 5));
        PLAIN[k](&d, q(1, 2), q(2, 3));
    }
    /// the same through the buffered reader, with initial capacities 0, 1, 2 and 5
    fn h_c18_buffered[2] {
        let k = nd::choose(BUF.len());
        let d = nd::bytes(0, q(3, 4));
        let cap = [0, 1, 2, 5][nd::choose(4)];
        BUF[k](&d, 1, 2, cap);
    }
    /// the same with the position tracked and detailed errors
    fn h_c18_positions[2] {
        let k = nd::choose(POS.len());
        let d = nd::bytes(0, q(3, 4));
        POS[k](&d, 1, 2);
    }
}
