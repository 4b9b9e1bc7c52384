//! C01: zero-copy stream operations return exactly the maximal prefix and leave exactly the rest.
use crate::nd::{self, q};
use crate::streams::*;
use combine::error::ParseResult::*;
use combine::error::StreamError;
use combine::stream::{RangeStream, StreamErrorFor};

/// One long scan: `uncons_while`/`uncons_while1` with a predicate over the token, the position of
/// the first failing token being anywhere.
struct Scan {
    one: bool,
    free: bool,
}
impl Job for Scan {
    fn run<S>(&mut self, mut s: S, m: &Model)
    where
        S: RangeStream,
        S::Token: Tok,
        S::Range: Rng + combine::stream::Range,
    {
        let n = m.ntok();
        let pass = |c: u32| c & 1 == 1;
        let mut k = 0;
        while k < n && pass(m.codes[k]) {
            k += 1;
        }
        let mut calls = 0usize;
        let codes = &m.codes;
        let partial = s.is_partial();
        let pred = |t: S::Token| {
            // the predicate sees token 0, 1, 2, .. once each and nothing after the first failure
            chk!(calls < n);
            chk!(t.code() == codes[calls]);
            calls += 1;
            pass(t.code())
        };
        let got: Option<S::Range> = if self.free {
            let r = if self.one {
                combine::stream::uncons_while1(&mut s, pred)
            } else {
                combine::stream::uncons_while(&mut s, pred)
            };
            match r {
                CommitOk(x) => {
                    chk!(k > 0);
                    chk!(!(partial && k == n));
                    Some(x)
                }
                PeekOk(x) => {
                    chk!(k == 0 && !self.one);
                    chk!(!(partial && k == n));
                    Some(x)
                }
                CommitErr(e) => {
                    // only for lack of input
                    chk!(partial && k == n);
                    chk!(combine::ParseError::is_unexpected_end_of_input(&e));
                    None
                }
                PeekErr(_) => {
                    chk!(self.one && k == 0);
                    chk!(!(partial && n == 0));
                    None
                }
            }
        } else if self.one {
            match s.uncons_while1(pred) {
                CommitOk(x) => {
                    chk!(k > 0);
                    Some(x)
                }
                PeekOk(_) | CommitErr(_) => {
                    chk!(false);
                    None
                }
                PeekErr(e) => {
                    chk!(k == 0);
                    chk!(StreamErrorFor::<S>::is_unexpected_end_of_input(&e.error) == (n == 0));
                    None
                }
            }
        } else {
            match s.uncons_while(pred) {
                Ok(x) => Some(x),
                Err(_) => {
                    chk!(false);
                    None
                }
            }
        };
        chk!(calls == if k < n { k + 1 } else { k });
        if let Some(x) = &got {
            chk!(x.b() == &m.bytes[..m.at(k)]);
            chk!(combine::stream::Range::len(x) == m.at(k));
            chk!(s.range().b() == &m.bytes[m.at(k)..]);
            nd::obs_bytes(x.b());
        } else if self.one && k == 0 && n > 0 && !self.free {
            chk!(s.range().b() == &m.bytes[..]);
        }
        nd::obs(calls as u64);
    }
}

/// A sequence of operations: together they partition the input, in order, byte for byte.
struct Ops {
    n: usize,
}
impl Job for Ops {
    fn run<S>(&mut self, mut s: S, m: &Model)
    where
        S: RangeStream,
        S::Token: Tok,
        S::Range: Rng + combine::stream::Range,
    {
        let total = m.bytes.len();
        let mut off = 0usize;
        for _ in 0..self.n {
            let i = m.tok_of(off);
            match nd::choose(4) {
                0 => {
                    cov!(0);
                    match s.uncons() {
                        Ok(t) => {
                            chk!(i < m.ntok());
                            chk!(t.code() == m.codes[i]);
                            off = m.ends[i];
                        }
                        Err(e) => {
                            chk!(i == m.ntok());
                            chk!(e.is_unexpected_end_of_input());
                        }
                    }
                }
                1 => {
                    cov!(1);
                    let want = nd::choose(total + 2);
                    match s.uncons_range(want) {
                        Ok(r) => {
                            chk!(off + want <= total);
                            chk!(m.is_boundary(off + want));
                            chk!(r.b() == &m.bytes[off..off + want]);
                            off += want;
                        }
                        Err(e) => {
                            chk!(off + want > total || !m.is_boundary(off + want));
                            chk!(e.is_unexpected_end_of_input() == (off + want > total));
                        }
                    }
                }
                k => {
                    cov!(2);
                    let mut j = i;
                    while j < m.ntok() && m.codes[j] & 1 == 1 {
                        j += 1;
                    }
                    let r = if k == 2 {
                        s.uncons_while(|t| t.code() & 1 == 1).ok()
                    } else {
                        match s.uncons_while1(|t| t.code() & 1 == 1) {
                            CommitOk(x) => {
                                chk!(j > i);
                                Some(x)
                            }
                            PeekErr(_) => {
                                chk!(j == i);
                                None
                            }
                            _ => {
                                chk!(false);
                                None
                            }
                        }
                    };
                    if let Some(r) = r {
                        chk!(r.b() == &m.bytes[off..m.at(j)]);
                        off = m.at(j);
                    } else {
                        chk!(k == 3);
                        chk!(j == i);
                    }
                }
            }
            chk!(s.range().b() == &m.bytes[off..]);
            nd::obs(off as u64);
        }
    }
}

/// The free functions `stream::uncons` and `stream::uncons_range`.
struct Free;
impl Job for Free {
    fn run<S>(&mut self, mut s: S, m: &Model)
    where
        S: RangeStream,
        S::Token: Tok,
        S::Range: Rng + combine::stream::Range,
    {
        let partial = s.is_partial();
        let total = m.bytes.len();
        if nd::flag() {
            cov!(0);
            match combine::stream::uncons(&mut s) {
                CommitOk(t) => {
                    chk!(total > 0);
                    chk!(t.code() == m.codes[0]);
                    chk!(s.range().b() == &m.bytes[m.ends[0]..]);
                }
                PeekErr(_) => chk!(total == 0 && !partial),
                CommitErr(e) => {
                    chk!(total == 0 && partial);
                    chk!(combine::ParseError::is_unexpected_end_of_input(&e));
                }
                PeekOk(_) => chk!(false),
            }
        } else {
            cov!(1);
            let want = nd::choose(total + 2);
            let good = want <= total && m.is_boundary(want);
            match combine::stream::uncons_range(&mut s, want) {
                CommitOk(r) => {
                    chk!(good && want > 0);
                    chk!(r.b() == &m.bytes[..want]);
                    chk!(s.range().b() == &m.bytes[want..]);
                }
                PeekOk(r) => {
                    chk!(want == 0);
                    chk!(r.b().is_empty());
                    chk!(s.range().b() == &m.bytes[..]);
                }
                PeekErr(_) => {
                    chk!(!good && !(partial && want > total));
                }
                CommitErr(_) => {
                    chk!(partial && want > total);
                }
            }
        }
    }
}

/// ASCII except for at most one wider scalar value, anywhere.
fn long_text(max: usize) -> String {
    let n = nd::range(0, max);
    let wide = nd::choose(n + 1);
    let mut v = Vec::with_capacity(n + 4);
    for i in 0..n {
        let w = if i == wide { nd::range(2, 4) } else { 1 };
        nd::push_char(&mut v, w);
    }
    nd::to_text(v)
}

harnesses! {
    /// every &[u8]-based stream, any input of 0..=19 bytes (thorough 27): one uncons_while / uncons_while1 (method)
    fn h_c01_scan_slice[2] {
        let w = nd::choose(SLICE_STREAMS);
        let d = nd::bytes(0, q(19, 27));
        let one = nd::flag();
        if one { cov!(0) } else { cov!(1) }
        on_slice(w, &d, &mut Scan { one, free: false });
    }
    /// every &[u8]-based stream, any input of 0..=9 bytes: stream::uncons_while / uncons_while1 (the functions, partial rules included)
    fn h_c01_scan_slice_free[2] {
        let w = nd::choose(SLICE_STREAMS);
        let d = nd::bytes(0, q(9, 18));
        let one = nd::flag();
        if one { cov!(0) } else { cov!(1) }
        on_slice(w, &d, &mut Scan { one, free: true });
    }
    /// every &str-based stream, any text of 0..=10 scalar values (thorough 18), at most one of them non-ASCII: one scan (method or function)
    fn h_c01_scan_str[2] {
        let w = nd::choose(STR_STREAMS);
        let d = long_text(q(10, 18));
        let one = nd::flag();
        let free = nd::flag();
        if one { cov!(0) } else { cov!(1) }
        on_str(w, &d, &mut Scan { one, free });
    }
    /// every &[u8]-based stream, any input of 0..=3 bytes: any 3 operations (thorough: 4 bytes, 4 operations)
    fn h_c01_ops_slice[3] {
        let w = nd::choose(SLICE_STREAMS);
        let d = nd::bytes(0, q(3, 4));
        on_slice(w, &d, &mut Ops { n: q(3, 4) });
    }
    /// every &str-based stream, any text of 0..=2 scalar values of any width: any 2 operations (thorough: 3 and 3)
    fn h_c01_ops_str[3] {
        let w = nd::choose(STR_STREAMS);
        let d = nd::text(0, q(2, 3), 4);
        on_str(w, &d, &mut Ops { n: q(2, 3) });
    }
    /// stream::uncons / stream::uncons_range on every &[u8]-based stream of 0..=4 bytes
    fn h_c01_free_slice[2] {
        let w = nd::choose(SLICE_STREAMS);
        let d = nd::bytes(0, q(4, 8));
        on_slice(w, &d, &mut Free);
    }
    /// stream::uncons / stream::uncons_range on every &str-based stream of 0..=2 scalar values
    fn h_c01_free_str[2] {
        let w = nd::choose(STR_STREAMS);
        let d = nd::text(0, q(2, 3), 4);
        on_str(w, &d, &mut Free);
    }
}
