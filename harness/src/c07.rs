//! C07: sequencing.
use crate::nd::{self, q};
use crate::probe::*;
use combine::error::ParseResult::*;
use combine::parser::sequence::{between, skip, then, then_partial, then_ref, with};
use combine::stream::easy;
use combine::{struct_parser, Parser};
use std::cell::Cell;


/// `p` runs probes 0..n one after the other; `ids` are those whose values make up its output, in
/// order. Runs it up to `times` times in a row and compares with the rule.
fn case<P>(n: usize, ids: &[u8], log: &Log, mut p: P, times: usize)
where
    P: Parser<M, Output = Vec<u8>>,
{
    let how = nd::choose(HOW);
    let mut s = Place::vague();
    for _ in 0..times {
        log.borrow_mut().clear();
        let start = s.at;
        let r = run(how, &mut p, &mut s);
        let l = log.borrow();
        if !seq_rule(n, ids, start, &l, kind_of(&r), s.at, match &r { CommitOk(x) | PeekOk(x) => Some(&x[..]), _ => None }) {
            return;
        }
    }
}
/// Does the log and result of one run follow the rule? true if it was a success.
fn seq_rule(n: usize, ids: &[u8], start: usize, l: &[Ev], kind: u8, end: usize, val: Option<&[u8]>) -> bool {
    chk!(l.len() >= 1 && l.len() <= n);
    let mut at = start;
    let mut committed = false;
    let mut failed = false;
    for (i, e) in l.iter().enumerate() {
        chk!(!failed);
        chk!(e.id == i as u8);
        chk!(e.at == at);
        at = e.end;
        committed |= e.kind == COK || e.kind == CERR;
        failed = e.kind == CERR || e.kind == PERR;
    }
    chk!(failed || l.len() == n);
    nd::obs(kind as u64);
    chk!(kind == match (committed, failed) { (true, false) => COK, (false, false) => POK, (true, true) => CERR, _ => PERR });
    match val {
        Some(x) => {
            chk!(x.len() == ids.len());
            for (a, b) in x.iter().zip(ids) {
                chk!(a == b);
            }
            chk!(end == at);
            cov!(0);
            true
        }
        None => {
            cov!(1);
            false
        }
    }
}

macro_rules! tup {
    ($l:expr; $($i:literal)*) => { ($( probe($i, $l), )*) };
}
/// the values of a tuple, in the order of its fields
macro_rules! flat {
    ($($v:ident)*) => { |($($v,)*)| vec![$($v),*] };
}
const IDS: [u8; 20] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19];

struct Named {
    a: u8,
    b: u8,
    c: u8,
}
struct Un(u8, u8, u8);

harnesses! {
    /// tuples of 1..=6 parts with any outcomes, run up to twice (thorough three times), in each of four ways
    fn h_c07_tuple[2] {
        let l = log();
        let t = q(2, 3);
        let n = nd::range(1, 6);
        let ids = &IDS[..n];
        match n {
            1 => case(n, ids, &l, tup!(&l; 0).map(flat!(a)), t),
            2 => case(n, ids, &l, tup!(&l; 0 1).map(flat!(a b)), t),
            3 => case(n, ids, &l, tup!(&l; 0 1 2).map(flat!(a b c)), t),
            4 => case(n, ids, &l, tup!(&l; 0 1 2 3).map(flat!(a b c d)), t),
            5 => case(n, ids, &l, tup!(&l; 0 1 2 3 4).map(flat!(a b c d e)), 1),
            _ => case(n, ids, &l, tup!(&l; 0 1 2 3 4 5).map(flat!(a b c d e f)), 1),
        }
    }
    /// tuples of 7..=20 parts, any outcomes of the last four and of the first; the others consume
    fn h_c07_wide[2] {
        let l = log();
        let n = nd::range(7, 20);
        let ids = &IDS[..n];
        let t = 1;
        macro_rules! wide {
            ($($i:literal $v:ident)*) => { ($( probe_on::<M>($i, &l, if $i == 0 || $i + 3 >= n { 4 } else { 1 }), )*).map(flat!($($v)*)) };
        }
        match n {
            7 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g), t),
            8 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h), t),
            9 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i), t),
            10 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j), t),
            11 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j 10 k), t),
            12 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j 10 k 11 l), t),
            13 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j 10 k 11 l 12 m), t),
            14 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j 10 k 11 l 12 m 13 n), t),
            15 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j 10 k 11 l 12 m 13 n 14 o), t),
            16 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j 10 k 11 l 12 m 13 n 14 o 15 p), t),
            17 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j 10 k 11 l 12 m 13 n 14 o 15 p 16 q), t),
            18 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j 10 k 11 l 12 m 13 n 14 o 15 p 16 q 17 r), t),
            19 => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j 10 k 11 l 12 m 13 n 14 o 15 p 16 q 17 r 18 s), t),
            _ => case(n, ids, &l, wide!(0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j 10 k 11 l 12 m 13 n 14 o 15 p 16 q 17 r 18 s 19 t), t),
        }
    }
    /// with, skip, between, chains of them and nested tuples, any outcomes, run up to twice (thorough three times)
    fn h_c07_with[2] {
        let l = log();
        let p = |i| probe(i, &l);
        let t = q(2, 3);
        match nd::choose(9) {
            0 => case(2, &[1], &l, with(p(0), p(1)).map(|x| vec![x]), t),
            1 => case(2, &[0], &l, skip(p(0), p(1)).map(|x| vec![x]), t),
            2 => case(3, &[1], &l, between(p(0), p(2), p(1)).map(|x| vec![x]), t),
            3 => case(4, &[3], &l, p(0).with(p(1)).with(p(2)).with(p(3)).map(|x| vec![x]), t),
            4 => case(4, &[0], &l, p(0).skip(p(1)).skip(p(2)).skip(p(3)).map(|x| vec![x]), t),
            5 => case(4, &[1], &l, p(0).with(p(1)).skip(p(2)).skip(p(3)).map(|x| vec![x]), t),
            6 => case(4, &[0, 1, 2, 3], &l, ((p(0), p(1)), (p(2), p(3))).map(|((a, b), (c, d))| vec![a, b, c, d]), t),
            7 => case(4, &[0, 2, 3], &l, (p(0), p(1).with((p(2), (p(3),)))).map(|(a, (b, (c,)))| vec![a, b, c]), t),
            _ => case(5, &[0, 2, 4], &l, (p(0), between(p(1), p(3), p(2)), p(4)).map(|(a, b, c)| vec![a, b, c]), 1),
        }
    }
    /// then, then_partial, then_ref: the function sees the first value, once (then_partial: the same value each time), and only after a success
    fn h_c07_then[2] {
        let l = log();
        let p = |i| probe(i, &l);
        let t = q(2, 3);
        let calls = Cell::new(0u32);
        let call = |x: u8| { chk!(x == 0); calls.set(calls.get() + 1); };
        match nd::choose(7) {
            0 => case(2, &[1], &l, then(p(0), |x| { call(x); p(1) }).map(|x| vec![x]), t),
            1 => case(2, &[0, 1], &l, then_ref(p(0), |x| { call(*x); p(1) }).map(|(a, b)| vec![a, b]), t),
            2 => case(2, &[1], &l, then_partial(p(0), |x| { call(*x); p(1) }).map(|x| vec![x]), t),
            3 => case(3, &[2], &l, p(0).then(|_| p(1).then(|_| p(2))).map(|x| vec![x]), t),
            4 => case(4, &[0, 3], &l, (p(0).then_ref(|_| (p(1), p(2))).map(|x| x.0), p(3)).map(|(a, b)| vec![a, b]), t),
            5 => case(3, &[1, 2], &l, (p(0).then_partial(|_| p(1)), p(2)).map(|(a, b)| vec![a, b]), t),
            _ => case(4, &[0, 1, 2, 3], &l, p(0).then(|x| (p(1), p(2)).map(move |(a, b)| (x, a, b))).then(|(x, a, b)| p(3).map(move |c| vec![x, a, b, c])), t),
        }
    }
    /// struct_parser! with named, unnamed and ignored fields
    fn h_c07_struct[2] {
        let l = log();
        let p = |i| probe(i, &l);
        let t = q(1, 2);
        match nd::choose(4) {
            0 => case(5, &[0, 2, 4], &l, struct_parser!(Named { a: p(0), _: p(1), b: p(2), _: p(3), c: p(4) }).map(|n| vec![n.a, n.b, n.c]), t),
            1 => case(5, &[1, 2, 4], &l, struct_parser!(Named { _: p(0), c: p(1), a: p(2), _: p(3), b: p(4), }).map(|n| vec![n.c, n.a, n.b]), t),
            2 => case(3, &[0, 1, 2], &l, struct_parser!(Un(p(0), p(1), p(2))).map(|n: Un| vec![n.0, n.1, n.2]), t),
            _ => case(5, &[0, 2, 4], &l, struct_parser!(Un(p(0), _: p(1), p(2), _: p(3), p(4))).map(|n: Un| vec![n.0, n.1, n.2]), t),
        }
    }
    /// with detailed errors, which re-run parts of the sequence at the failure: same rule, and no part is run again
    fn h_c07_easy[2] {
        let l = log();
        type E = easy::Stream<M>;
        let p = |i| probe_on::<E>(i, &l, 4);
        let which = nd::choose(4);
        let mut s = easy::Stream(Place::finite());
        let start = s.0.at;
        let how = nd::choose(HOW);
        let (r, end) = match which {
            0 => { let mut p = (p(0), p(1), p(2), p(3)).map(|(a, b, c, d)| vec![a, b, c, d]); (run(how, &mut p, &mut s), s.0.at) }
            1 => { let mut p = p(0).with(p(1)).skip((p(2), p(3))).map(|a| vec![a]); (run(how, &mut p, &mut s), s.0.at) }
            2 => { let mut p = p(0).then(|a| (p(1), p(2), p(3)).map(move |(b, c, d)| vec![a, b, c, d])); (run(how, &mut p, &mut s), s.0.at) }
            _ => { let mut p = ((p(0), p(1)), (p(2), p(3))).map(|((a, b), (c, d))| vec![a, b, c, d]); (run(how, &mut p, &mut s), s.0.at) }
        };
        let l = log_of(&l);
        seq_rule(4, if which == 1 { &[1] } else { &[0, 1, 2, 3] }, start, &l, kind_of(&r), end, match &r { CommitOk(x) | PeekOk(x) => Some(&x[..]), _ => None });
    }
    /// sequences nested wider than 255 parts: a failure anywhere is an ordinary failure
    fn h_c07_huge[1] {
        use combine::parser::token::token;
        let t = || token::<easy::Stream<&[u8]>>(7);
        let r16 = || (t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t());
        let p = (r16(), r16(), r16(), r16(), r16(), r16(), r16(), r16(), r16(), r16(), r16(), r16(), r16(), r16(), r16(), r16(), t());
        let mut p = (p, t());
        let d = [7u8; 258];
        let at = [0, 1, 15, 16, 17, 200, 239, 240, 241, 255, 256, 257, 258][nd::choose(13)];
        let mut b = d.to_vec();
        let x = nd::u8();
        nd::assume(x != 7);
        if at < 258 { b[at] = x; }
        match p.parse(easy::Stream(&b[..])) {
            Ok(_) => chk!(at == 258),
            Err(e) => { cov!(0); chk!(at < 258); chk!(e.position.translate_position(&b[..]) == at); }
        }
    }
}
fn log_of(l: &Log) -> Vec<Ev> {
    l.borrow().clone()
}
