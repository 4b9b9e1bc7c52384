//! C11: take_until, skip_until, repeat_until, repeat_skip_until, escaped and iterate.
use crate::nd::{self, q};
use crate::probe::*;
use combine::error::ParseResult::{self, *};
use combine::parser::repeat::{escaped, iterate, repeat_skip_until, repeat_until, skip_until, take_until};
use combine::parser::token::{any, eof, one_of, satisfy, token};
use combine::stream::easy;
use combine::{attempt, look_ahead, not_followed_by, optional, Parser};

/// the repeated part, and the end
const P: u8 = 0;
const E: u8 = 1;
const N: usize = q(6, 8);

/// (outcome, what was taken) of an until combinator; `item`: runs P, otherwise takes single tokens
fn until(w: &mut Walk, s: &Place, item: bool) -> (u8, Vec<u8>) {
    let mut v = vec![];
    loop {
        let at = w.at;
        match w.run(E) {
            COK | POK => {
                w.at = at;
                return (w.ok(), v);
            }
            CERR => return (CERR, v),
            _ => (),
        }
        if item {
            if w.run(P) >= CERR {
                return (w.err(), v);
            }
            v.push(w.last());
        } else {
            match s.peek(at) {
                Some(x) => v.push(x),
                None => return (w.err(), v),
            }
            w.c = true;
            w.at = at.wrapping_add(1);
        }
    }
}
/// Runs `p` up to `times` times in a row; `keeps`: what was taken is the value
fn case<Q: Parser<Place, Output = Option<Vec<u8>>>>(item: bool, log: &Log, mut p: Q, times: usize) {
    let how = nd::choose(HOW);
    let mut s = Place::finite();
    for _ in 0..times {
        log.borrow_mut().clear();
        let start = s.at;
        let r = run(how, &mut p, &mut s);
        let l = log.borrow();
        let mut w = Walk::new(&l, start);
        let (k, v) = until(&mut w, &s, item);
        w.done();
        nd::obs(k as u64);
        chk!(kind_of(&r) == k);
        match r {
            CommitOk(x) | PeekOk(x) => {
                cov!(0);
                chk!(s.at == w.at);
                if let Some(x) = x {
                    chk!(x == v);
                }
            }
            _ => {
                cov!(1);
                return;
            }
        }
    }
}
/// escaped: (parser | escape escape_parser)*
fn esc(w: &mut Walk, s: &Place, c: u8) -> u8 {
    loop {
        let at = w.at;
        match w.run(P) {
            COK | POK => (),
            CERR => return CERR,
            _ => {
                match s.peek(at) {
                    Some(x) if x == c => (),
                    _ => return w.ok(),
                }
                w.c = true;
                w.at = at.wrapping_add(1);
                if w.run(E) >= CERR {
                    return CERR;
                }
            }
        }
    }
}
fn value<T, X>(r: &ParseResult<T, X>) -> Option<&T> {
    match r {
        CommitOk(x) | PeekOk(x) => Some(x),
        _ => None,
    }
}

harnesses! {
    /// take_until and skip_until with an end of any outcomes, input ending anywhere, in four ways, run up to twice: at most 5 runs of the end (thorough 7)
    fn h_c11_until[2] {
        let l = log();
        let e = || probe(E, &l).cap(N);
        if nd::flag() { case(false, &l, take_until::<Vec<u8>, _, _>(e()).map(Some), 2) }
        else { case(false, &l, skip_until(e()).map(|_| None), 2) }
    }
    /// repeat_until and repeat_skip_until with any outcomes of both parsers
    fn h_c11_repeat[2] {
        let l = log();
        let e = || probe(E, &l).cap(N);
        let p = || probe(P, &l).cap(N).map(|_| idx(&l));
        if nd::flag() { case(true, &l, repeat_until::<Vec<u8>, _, _, _>(p(), e()).map(Some), 2) }
        else { case(true, &l, repeat_skip_until(p(), e()).map(|_| None), 2) }
    }
    /// escaped with any outcomes of both parsers and any escape token, run up to twice
    fn h_c11_escaped[2] {
        let l = log();
        let how = nd::choose(HOW);
        let c = nd::u8();
        const M: usize = q(5, 6);
        let mut p = escaped(probe(P, &l).cap(M), c, probe(E, &l).cap(M));
        let mut s = Place::finite();
        for _ in 0..2 {
            l.borrow_mut().clear();
            let start = s.at;
            let r = run(how, &mut p, &mut s);
            let ev = l.borrow();
            let mut w = Walk::new(&ev, start);
            let k = esc(&mut w, &s, c);
            w.done();
            chk!(kind_of(&r) == k);
            if k <= POK { cov!(0); chk!(s.at == w.at); } else { cov!(1); return; }
        }
    }
    /// iterate over 0..=3 (thorough 4) items from iterators with exact and inexact lengths, one parser per item with any outcome, run up to twice with the same parser
    fn h_c11_iterate[2] {
        let l = log();
        let how = nd::choose(HOW);
        let n = nd::range(0, q(3, 4)) as u8;
        let which = nd::choose(3);
        let mut s = Place::new();
        let mut state = Default::default();
        let mut state2 = Default::default();
        let mut state3 = Default::default();
        let mut a = iterate::<Vec<u8>, _, _, _, _>(0..n, |i: &u8, _: &mut Place| probe(*i, &l).map(|_| idx(&l)));
        let mut b = iterate::<Vec<u8>, _, _, _, _>((0..9u8).filter(move |x| *x < n), |i: &u8, _: &mut Place| probe(*i, &l).map(|_| idx(&l)));
        let mut c = iterate::<Vec<u8>, _, _, _, _>((0..n).collect::<Vec<_>>(), |i: &u8, _: &mut Place| probe(*i, &l).map(|_| idx(&l)));
        for _ in 0..3 {
            l.borrow_mut().clear();
            let start = s.at;
            // a state that is used again, also after a failure
            let r = if how == 3 {
                match which { 0 => a.parse_first(&mut s, &mut state), 1 => b.parse_first(&mut s, &mut state2), _ => c.parse_first(&mut s, &mut state3) }
            } else {
                match which { 0 => run(how, &mut a, &mut s), 1 => run(how, &mut b, &mut s), _ => run(how, &mut c, &mut s) }
            };
            let ev = l.borrow();
            let mut w = Walk::new(&ev, start);
            let mut v = vec![];
            let mut k = 9;
            for i in 0..n {
                if w.run(i) >= CERR { k = w.err(); break; }
                v.push(w.last());
            }
            if k == 9 { k = w.ok(); }
            w.done();
            chk!(kind_of(&r) == k);
            match value(&r) {
                Some(x) => { cov!(0); chk!(*x == v); chk!(s.at == w.at); }
                None => { cov!(1); chk!(k >= CERR); if how != 3 { return; } }
            }
        }
    }
    /// inside: a parser before, an optional around, a parser after; with detailed errors as well
    fn h_c11_inside[2] {
        let l = log();
        let how = nd::choose(HOW);
        let which = nd::choose(4);
        let easy_s = nd::flag();
        macro_rules! go { ($S:ty, $s:expr) => {{
            let mut s = $s;
            let e = || probe_on::<$S>(E, &l, 4).cap(N);
            let p = || probe_on::<$S>(P, &l, 3).cap(N).map(|_| idx(&l));
            let (a, z) = (probe_on::<$S>(2, &l, 4), probe_on::<$S>(3, &l, 4));
            let r = match which {
                0 => kind_of(&run(how, &mut (a, optional(take_until::<Vec<u8>, _, _>(e())), z), &mut s)),
                1 => kind_of(&run(how, &mut (a, optional(repeat_until::<Vec<u8>, _, _, _>(p(), e())), z), &mut s)),
                2 => kind_of(&run(how, &mut (a, optional(escaped(p(), 3, e())), z), &mut s)),
                _ => kind_of(&run(how, &mut (a, optional(iterate::<Vec<u8>, _, _, _, _>(0..2u8, |i: &u8, _: &mut $S| probe_on::<$S>(*i, &l, 4))), z), &mut s)),
            };
            (r, s.at())
        }}}
        let s0 = Place::finite();
        let (r, end) = if easy_s { go!(easy::Stream<Place>, easy::Stream(s0.clone())) } else { go!(Place, s0.clone()) };
        let l = l.borrow();
        let mut w = Walk::new(&l, s0.at);
        let k = (|| {
            if w.run(2) >= CERR { return w.err(); }
            let at = w.at;
            let c = std::mem::replace(&mut w.c, false);
            let k = match which {
                0 => until(&mut w, &s0, false).0,
                1 => until(&mut w, &s0, true).0,
                2 => esc(&mut w, &s0, 3),
                _ => { if w.run(0) >= CERR { w.err() } else if w.run(1) >= CERR { w.err() } else { w.ok() } }
            };
            w.c |= c;
            if k == CERR { return CERR; }
            if k == PERR { w.at = at; }
            if w.run(3) >= CERR { return w.err(); }
            w.ok()
        })();
        w.done();
        chk!(r == k);
        if k <= POK { cov!(0); chk!(end == w.at); } else { cov!(1) }
    }
    /// real ends over any 0..=5 (thorough 6) bytes of an alphabet of three: a sequence, with and without attempt, look-ahead, end of input
    fn h_c11_bytes[2] {
        let b = nd::alpha(0, q(5, 6), b'a', 3);
        let which = nd::choose(6);
        let mut s = &b[..];
        let n = b.len();
        let ab = |i: usize| i + 1 < n && b[i] == b'a' && b[i + 1] == b'b';
        // first place where the end succeeds, or where it fails having consumed input
        let (r, want) = match which {
            0 => (take_until::<Vec<u8>, _, _>(attempt((token(b'a'), token(b'b')))).parse_stream(&mut s), (0..n).find(|&i| ab(i))),
            1 => (take_until::<Vec<u8>, _, _>((token(b'a'), token(b'b'))).parse_stream(&mut s), (0..n).find(|&i| b[i] == b'a').filter(|&i| ab(i))),
            2 => (take_until::<Vec<u8>, _, _>(eof()).parse_stream(&mut s), Some(n)),
            3 => (repeat_until::<Vec<u8>, _, _, _>(any(), look_ahead(attempt((token(b'a'), token(b'b'))))).parse_stream(&mut s), (0..n).find(|&i| ab(i))),
            4 => (take_until::<Vec<u8>, _, _>(not_followed_by(one_of(*b"ab"))).parse_stream(&mut s), Some((0..n).find(|&i| b[i] == b'c').unwrap_or(n))),
            _ => (repeat_until::<Vec<u8>, _, _, _>(satisfy(|c| c != b'c'), token(b'c')).parse_stream(&mut s), (0..n).find(|&i| b[i] == b'c')),
        };
        match (value(&r), want) {
            (Some(v), Some(i)) => { cov!(0); chk!(v[..] == b[..i] && s.len() == n - i); }
            (None, None) => { cov!(1); chk!((kind_of(&r) == CERR) == (n > 0)); }
            _ => chk!(false),
        }
    }
}
