//! C03: buffered streams replay exactly within their lookahead.
use crate::nd::{self, q};
use combine::error::{StreamError, UnexpectedParse};
use combine::stream::{buffered, position, read, IteratorStream, Positioned, ResetStream, StreamErrorFor, StreamOnce};
use std::cell::Cell;
use std::io;

/// A forward-only source that counts how often it is asked and may fail once.
struct Src<'a> {
    d: &'a [u8],
    at: usize,
    pulls: &'a Cell<usize>,
    /// fail at this pull (once)
    fail_at: usize,
}
impl<'a> Iterator for Src<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        self.pulls.set(self.pulls.get() + 1);
        let x = self.d.get(self.at).copied();
        if x.is_some() {
            self.at += 1;
        }
        x
    }
}
impl<'a> io::Read for Src<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.pulls.get();
        self.pulls.set(n + 1);
        if n == self.fail_at {
            return Err(io::Error::from(io::ErrorKind::TimedOut));
        }
        if self.at < self.d.len() && !b.is_empty() {
            b[0] = self.d[self.at];
            self.at += 1;
            Ok(1)
        } else {
            Ok(0)
        }
    }
}

/// Drives any buffered stream through an arbitrary history and compares every answer with the list
/// of tokens.
fn history<I>(src: I, look: usize, d: &[u8], pulls: &Cell<usize>, steps: usize, eoi: bool, fail_at: usize)
where
    I: StreamOnce<Token = u8> + Positioned<Position = usize>,
{
    let mut s = buffered::Stream::new(src, look);
    let mut at = 0usize; // where the stream stands
    let mut read = 0usize; // how many tokens have been taken from the source
    let mut failed = false;
    let mut cps = vec![(0usize, s.checkpoint())];
    let mut lost = false; // reset to a place that is out of reach
    let mut calls = 0usize;
    for _ in 0..steps {
        match nd::choose(3) {
            0 => match s.uncons() {
                Ok(t) => {
                    chk!(!lost || at + look >= read);
                    chk!(at < d.len());
                    chk!(t == d[at]);
                    if at == read {
                        read += 1;
                        calls += 1;
                    }
                    at += 1;
                    lost = false;
                    cov!(0);
                }
                Err(e) => {
                    if lost {
                        // out of reach: has to have been out of the lookahead window
                        chk!(at + look < read);
                    } else if calls == fail_at && at == read && !failed {
                        failed = true;
                        calls += 1;
                        chk!(!StreamErrorFor::<I>::is_unexpected_end_of_input(&e));
                        cov!(3);
                    } else {
                        chk!(at == d.len());
                        calls += 1;
                        chk!(!eoi || StreamErrorFor::<I>::is_unexpected_end_of_input(&e));
                    }
                }
            },
            1 => {
                if cps.len() < 3 && !lost {
                    cps.push((at, s.checkpoint()));
                } else {
                    nd::assume(false);
                }
            }
            _ => {
                let (o, c) = cps[nd::choose(cps.len())].clone();
                match s.reset(c) {
                    Ok(()) => {
                        at = o;
                        lost = o + look < read;
                        cov!(1);
                    }
                    Err(_) => {
                        // only beyond the lookahead
                        chk!(o + look < read);
                        cov!(2);
                    }
                }
            }
        }
        if !lost {
            chk!(s.position() == at);
        }
        chk!(pulls.get() == calls);
        nd::obs(at as u64);
    }
}

/// The default `StreamOnce` source with its own error type.
harnesses! {
    /// buffered stream over an iterator with tracked positions: source of 0..=4 bytes, lookahead 1..=3, any history of 6 operations (thorough 8, lookahead up to 4)
    fn h_c03_iter[3] {
        let look = nd::range(1, q(3, 4));
        let d = nd::bytes(0, q(4, 6));
        let pulls = Cell::new(0);
        let src = Src { d: &d, at: 0, pulls: &pulls, fail_at: usize::MAX };
        history(position::Stream::new(IteratorStream::new(src)), look, &d, &pulls, q(6, 8), true, usize::MAX);
    }
    /// the same over io::Read, where any one read may fail
    fn h_c03_read[4] {
        let look = nd::range(1, 3);
        let d = nd::bytes(0, q(3, 4));
        let pulls = Cell::new(0);
        let f = nd::choose(5);
        let fail_at = if f == 4 { usize::MAX } else { f };
        let src = Src { d: &d, at: 0, pulls: &pulls, fail_at };
        history(position::Stream::new(read::Stream::new(src)), look, &d, &pulls, q(5, 7), true, fail_at);
    }
    /// long forward runs: source of 9..=12 bytes read to a chosen place, back any distance within the lookahead 1..=6, forward again to the end
    fn h_c03_long[1] {
        let look = nd::range(1, 6);
        let n = nd::range(9, q(10, 14));
        let d = nd::bytes_n(n);
        let pulls = Cell::new(0);
        let src = Src { d: &d, at: 0, pulls: &pulls, fail_at: usize::MAX };
        let mut s = buffered::Stream::new(position::Stream::new(IteratorStream::new(src)), look);
        let upto = nd::choose(n + 1);
        let back = nd::choose(look + 1);
        nd::assume(back <= upto);
        let mut cp = s.checkpoint();
        for i in 0..upto {
            if i == upto - back { cp = s.checkpoint(); }
            chk!(s.uncons() == Ok(d[i]));
        }
        if back == 0 { cp = s.checkpoint(); }
        chk!(s.reset(cp).is_ok());
        chk!(s.position() == upto - back);
        let cp = s.checkpoint();
        for i in upto - back..n {
            chk!(s.position() == i);
            chk!(s.uncons() == Ok(d[i]));
        }
        chk!(s.uncons() == Err(UnexpectedParse::Eoi));
        chk!(pulls.get() == n + 1);
        // now `cp` may or may not be in reach; never a wrong token
        let reach = n - (upto - back) <= look;
        match s.reset(cp) {
            Ok(()) => match s.uncons() {
                Ok(t) => { cov!(0); chk!(upto - back < n && t == d[upto - back]); }
                Err(_) => chk!(!reach || upto - back == n),
            },
            Err(_) => chk!(!reach),
        }
    }
}
