//! C14: binary number parsers decode every bit pattern.
use crate::nd::{self, q};
use crate::probe::*;
use crate::streams::*;
use crate::with_bytes;
use combine::error::ParseResult::{self, *};
use combine::parser::byte::num::*;
use combine::stream::{buffered, position, IteratorStream, ResetStream, StreamOnce};
use combine::{Parser, Stream};

const PARSERS: usize = 16;
/// width of each parser
fn width(p: usize) -> usize {
    match p / 2 {
        0 | 1 => 2,
        2 | 3 | 4 => 4,
        _ => 8,
    }
}
/// The bits of what the parser returned, sign-extended for the signed ones so that the sign is seen too.
fn number<S: Stream<Token = u8>>(p: usize, how: usize, s: &mut S) -> ParseResult<u64, S::Error> {
    macro_rules! go {
        ($e:expr, $f:expr) => {
            match run(how, &mut $e, s) {
                CommitOk(x) => CommitOk($f(x)),
                PeekOk(x) => PeekOk($f(x)),
                CommitErr(e) => CommitErr(e),
                PeekErr(e) => PeekErr(e),
            }
        };
    }
    match p {
        0 => go!(be_u16(), |x: u16| x as u64),
        1 => go!(le_u16(), |x: u16| x as u64),
        2 => go!(be_i16(), |x: i16| x as i64 as u64),
        3 => go!(le_i16(), |x: i16| x as i64 as u64),
        4 => go!(be_u32(), |x: u32| x as u64),
        5 => go!(le_u32(), |x: u32| x as u64),
        6 => go!(be_i32(), |x: i32| x as i64 as u64),
        7 => go!(le_i32(), |x: i32| x as i64 as u64),
        8 => go!(be_f32(), |x: f32| x.to_bits() as u64),
        9 => go!(le_f32(), |x: f32| x.to_bits() as u64),
        10 => go!(be_u64(), |x: u64| x),
        11 => go!(le_u64(), |x: u64| x),
        12 => go!(be_i64(), |x: i64| x as u64),
        13 => go!(le_i64(), |x: i64| x as u64),
        14 => go!(be_f64(), |x: f64| x.to_bits()),
        _ => go!(le_f64(), |x: f64| x.to_bits()),
    }
}
/// What the bytes at the front of `b` denote.
fn denotes(p: usize, b: &[u8]) -> u64 {
    let w = width(p);
    let mut x = 0u64;
    for i in 0..w {
        // the byte of weight 256^i
        let at = if p % 2 == 0 { w - 1 - i } else { i };
        x += (b[at] as u64) << (8 * i);
    }
    let signed = matches!(p, 2 | 3 | 6 | 7);
    if signed && x >> (8 * w - 1) == 1 {
        x += u64::MAX << (8 * w);
    }
    x
}

harnesses! {
    /// every number parser on every input of 0 to 9 bytes from either of the first two places, on six streams, run in four ways
    fn h_c14_slice[3] {
        let p = nd::choose(PARSERS);
        let w = nd::choose(BYTES);
        let how = nd::choose(HOW);
        let all = nd::bytes(0, width(p) + q(1, 2));
        let a = nd::range(0, all.len().min(1));
        let b = &all[a..];
        with_bytes!(w, &all, |s| {
            let mut s = s;
            if a == 1 { let _ = s.uncons(); }
            let r = number(p, how, &mut s);
            nd::obs(kind_of(&r) as u64);
            if b.len() >= width(p) {
                cov!(0);
                match r {
                    CommitOk(x) => { chk!(x == denotes(p, b)); nd::obs(x); }
                    _ => chk!(false),
                }
                chk!(s.range() == &b[width(p)..]);
            } else {
                match r {
                    CommitErr(e) => { chk!(s.is_partial()); chk!(is_eoi(&s, &e)); cov!(1); }
                    PeekErr(e) => { chk!(!s.is_partial()); chk!(is_eoi(&s, &e.error)); cov!(2); }
                    _ => chk!(false),
                }
                // nothing is taken, so that an incremental parse can start it over
                chk!(s.range() == b);
            }
        })
    }
    /// every number parser on a buffered stream over an iterator, with a lookahead of 1 to 8
    fn h_c14_iter[3] {
        let p = nd::choose(PARSERS);
        let look = nd::range(1, 8);
        let w = width(p);
        let n = match nd::choose(4) { 0 => 0, 1 => w - 1, 2 => w, _ => w + 1 };
        let b = nd::bytes_n(n);
        let mut s = buffered::Stream::new(position::Stream::new(IteratorStream::new(b.iter().cloned())), look);
        let r = number(p, 0, &mut s);
        nd::obs(kind_of(&r) as u64);
        if n >= w {
            cov!(0);
            match r {
                CommitOk(x) => chk!(x == denotes(p, &b)),
                _ => chk!(false),
            }
            chk!(s.uncons().ok() == b.get(w).cloned());
        } else {
            // the lookahead may not reach back to the start, which has to be reported
            cov!(1);
            match r {
                PeekErr(e) => { cov!(2); chk!(is_eoi(&s, &e.error)); chk!(s.uncons().ok() == b.get(0).cloned()); }
                CommitErr(_) => chk!(n > look),
                _ => chk!(false),
            }
        }
    }
    /// two numbers one after another, and a number tried and tried again from a checkpoint
    fn h_c14_pair[2] {
        let p = nd::choose(PARSERS);
        let p2 = nd::choose(PARSERS);
        let n = width(p) + width(p2);
        let b = nd::bytes_n(n);
        let mut s = &b[..];
        let r = number(p, 0, &mut s);
        match r { CommitOk(x) => chk!(x == denotes(p, &b)), _ => chk!(false) }
        let before = s.checkpoint();
        let r = number(p2, 1, &mut s);
        match r { CommitOk(x) => chk!(x == denotes(p2, &b[width(p)..])), _ => chk!(false) }
        chk!(s.is_empty());
        match number(p, 2, &mut s) { PeekErr(_) => cov!(0), _ => chk!(false) }
        chk!(s.reset(before).is_ok());
        let r = number(p2, 3, &mut s);
        match r { CommitOk(x) => chk!(x == denotes(p2, &b[width(p)..])), _ => chk!(false) }
        chk!(s.is_empty());
        cov!(1);
    }
}
