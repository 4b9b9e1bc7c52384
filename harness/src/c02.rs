//! C02: checkpoints restore exactly; distances are exact.
use crate::nd::{self, q};
use crate::streams::*;
use combine::error::ParseResult::*;
use combine::stream::RangeStream;

/// One arbitrary operation; returns the offset afterwards, as the model says it has to be.
fn step<S>(s: &mut S, m: &Model, off: usize) -> usize
where
    S: RangeStream,
    S::Token: Tok,
    S::Range: Rng + combine::stream::Range,
{
    let total = m.bytes.len();
    let i = m.tok_of(off);
    let r = match nd::choose(3) {
        0 => match s.uncons() {
            Ok(t) => {
                chk!(i < m.ntok() && t.code() == m.codes[i]);
                m.ends[i]
            }
            Err(_) => {
                chk!(i == m.ntok());
                off
            }
        },
        1 => {
            let want = nd::choose(total - off + 1);
            match s.uncons_range(want) {
                Ok(r) => {
                    chk!(m.is_boundary(off + want));
                    chk!(r.b() == &m.bytes[off..off + want]);
                    off + want
                }
                Err(_) => {
                    chk!(!m.is_boundary(off + want));
                    off
                }
            }
        }
        _ => {
            let mut j = i;
            while j < m.ntok() && m.codes[j] & 1 == 1 {
                j += 1;
            }
            if nd::flag() {
                chk!(s.uncons_while(|t| t.code() & 1 == 1).is_ok());
            } else {
                let r = s.uncons_while1(|t| t.code() & 1 == 1);
                chk!(matches!(r, CommitOk(_)) == (j > i));
            }
            m.at(j)
        }
    };
    chk!(s.range().b() == &m.bytes[r..]);
    r
}

/// Some operations, a checkpoint, more operations, a second checkpoint, then back to either of the
/// two (and possibly forward again to the second), then more operations.
struct Back {
    n: usize,
}
impl Job for Back {
    fn run<S>(&mut self, mut s: S, m: &Model)
    where
        S: RangeStream,
        S::Token: Tok,
        S::Range: Rng + combine::stream::Range,
    {
        let mut off = 0;
        for _ in 0..nd::choose(self.n + 1) {
            off = step(&mut s, m, off);
        }
        let (o1, c1, p1) = (off, s.checkpoint(), s.position());
        chk!(s.distance(&c1) == 0);
        for _ in 0..self.n {
            off = step(&mut s, m, off);
        }
        chk!(s.distance(&c1) == off - o1);
        let (o2, c2, p2) = (off, s.checkpoint(), s.position());
        let back = nd::choose(3);
        if back == 2 {
            // nothing
            chk!(s.position() == p2);
        } else {
            cov!(0);
            chk!(s.reset(c1.clone()).is_ok());
            chk!(s.range().b() == &m.bytes[o1..]);
            chk!(s.position() == p1);
            chk!(s.distance(&c1) == 0);
            off = o1;
            if back == 1 {
                cov!(1);
                off = step(&mut s, m, off);
                chk!(s.reset(c2.clone()).is_ok());
                chk!(s.range().b() == &m.bytes[o2..]);
                chk!(s.position() == p2);
                chk!(s.distance(&c2) == 0);
                chk!(s.distance(&c1) == o2 - o1);
                off = o2;
            }
        }
        let c3 = s.checkpoint();
        let before = off;
        off = step(&mut s, m, off);
        chk!(s.distance(&c3) == off - before);
        if back == 0 {
            chk!(s.distance(&c1) == off - o1);
        }
        // the documented equation: going back and taking `distance` items gets to the same place
        let d = s.distance(&c3);
        let p = s.position();
        chk!(s.reset(c3).is_ok());
        chk!(s.uncons_range(d).is_ok());
        chk!(s.range().b() == &m.bytes[off..]);
        if !m.text {
            chk!(s.position() == p);
        }
        nd::obs(off as u64);
    }
}

harnesses! {
    /// every &[u8]-based stream, any input of 0..=3 bytes (thorough 4): 0..=1 operations, checkpoint, 1 operation, checkpoint, back to either (thorough: 2 operations each)
    fn h_c02_slice[2] {
        let w = nd::choose(SLICE_STREAMS);
        let d = nd::bytes(0, q(3, 4));
        on_slice(w, &d, &mut Back { n: q(1, 2) });
    }
    /// two operations between the checkpoints, on the plain slice and the position-tracking one, 3 bytes
    fn h_c02_slice2[2] {
        let w = [0, 7][nd::choose(2)];
        let d = nd::bytes_n(3);
        on_slice(w, &d, &mut Back { n: 2 });
    }
    /// every &str-based stream, any text of 0..=2 scalar values of 1 or 2 bytes (thorough: 3, any width)
    fn h_c02_str[2] {
        let w = nd::choose(STR_STREAMS);
        let d = nd::text(0, q(2, 3), q(2, 4));
        on_str(w, &d, &mut Back { n: 1 });
    }
    /// every &str-based stream, any one scalar value
    fn h_c02_str1[2] {
        let w = nd::choose(STR_STREAMS);
        let d = nd::text(1, 1, 4);
        on_str(w, &d, &mut Back { n: 1 });
    }
}
