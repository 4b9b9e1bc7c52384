//! C09: repetition.
use crate::nd::{self, q};
use crate::probe::*;
use combine::error::ParseResult::*;
use combine::parser::repeat::*;
use combine::stream::easy;
use combine::{optional, Parser};

const P: u8 = 0;
const S: u8 = 1;

#[derive(Clone, Copy)]
enum R {
    Many,
    Many1,
    Mm(usize, usize),
    Sep(bool),
    SepEnd(bool),
}
/// The documented meaning, run over the log: kind and collected values.
fn sem(r: R, w: &mut Walk) -> (u8, Vec<u8>) {
    let mut v = vec![];
    match r {
        R::Many | R::Many1 | R::Mm(..) => {
            let (min, max) = match r {
                R::Many => (0, usize::MAX),
                R::Many1 => (1, usize::MAX),
                R::Mm(a, b) => (a, b),
                _ => (0, 0),
            };
            while v.len() < max {
                match w.run(P) {
                    COK | POK => v.push(w.last()),
                    CERR => return (CERR, v),
                    _ => break,
                }
            }
            if v.len() < min {
                return (w.err(), v);
            }
        }
        R::Sep(one) | R::SepEnd(one) => {
            let end = matches!(r, R::SepEnd(_));
            match w.run(P) {
                COK | POK => v.push(w.last()),
                CERR => return (CERR, v),
                _ => return (if one { PERR } else { POK }, v),
            }
            loop {
                let at = w.at;
                let s = w.run(S);
                match s {
                    COK | POK => (),
                    CERR => return (CERR, v),
                    _ => break,
                }
                match w.run(P) {
                    COK | POK => v.push(w.last()),
                    CERR => return (CERR, v),
                    _ if end => break,
                    _ if s == COK => return (CERR, v),
                    _ => {
                        w.at = at;
                        break;
                    }
                }
            }
        }
    }
    (w.ok(), v)
}
/// Runs `p` up to `times` times in a row. `vals`: does `p` collect?
fn case<Q: Parser<M, Output = Option<Vec<u8>>>>(r: R, log: &Log, mut p: Q, times: usize) {
    let how = nd::choose(HOW);
    let mut s = Place::vague();
    for _ in 0..times {
        log.borrow_mut().clear();
        let start = s.at;
        let out = run(how, &mut p, &mut s);
        let l = log.borrow();
        let mut w = Walk::new(&l, start);
        let (k, v) = sem(r, &mut w);
        w.done();
        nd::obs(k as u64);
        nd::obs_bytes(&v);
        chk!(kind_of(&out) == k);
        match out {
            CommitOk(x) | PeekOk(x) => {
                cov!(0);
                chk!(s.at == w.at);
                if let Some(x) = x {
                    chk!(x.len() == v.len());
                    for (a, b) in x.iter().zip(&v) { chk!(a == b); }
                }
            }
            _ => { cov!(1); return }
        }
    }
}
/// The same inside: a first item before it, an optional around it and another parser after it.
fn inside<Q: Parser<M, Output = Option<Vec<u8>>>>(r: R, log: &Log, p: Q) {
    let mut p = (probe(2, log), optional(p), probe(3, log));
    let how = nd::choose(HOW);
    let mut s = Place::vague();
    let start = s.at;
    let out = run(how, &mut p, &mut s);
    let l = log.borrow();
    let mut w = Walk::new(&l, start);
    let k = (|| {
        if w.run(2) >= CERR { return w.err(); }
        let at = w.at;
        let c = std::mem::replace(&mut w.c, false);
        let (k, v) = sem(r, &mut w);
        w.c |= c;
        match k {
            CERR => return CERR,
            PERR => w.at = at,
            _ => (),
        }
        if let CommitOk((_, x, _)) | PeekOk((_, x, _)) = &out {
            chk!(x.is_some() == (k <= POK));
            if let Some(Some(x)) = x { chk!(x.len() == v.len()); }
        }
        if w.run(3) >= CERR { return w.err(); }
        w.ok()
    })();
    w.done();
    chk!(kind_of(&out) == k);
    if k <= POK { cov!(0); chk!(s.at == w.at); } else { cov!(1); }
}

const N: usize = q(6, 8);
fn all(l: &Log, inner: bool, cap: usize) {
    let p = || probe(P, l).cap(cap).map(|_| idx(l));
    let s = || probe(S, l).cap(cap);
    macro_rules! go {
        ($r:expr, $p:expr) => { if inner { inside($r, l, $p) } else { case($r, l, $p, 2) } };
    }
    let min = if inner { 1 } else { nd::choose(3) };
    let max = if inner { 2 } else { min + nd::choose(3) };
    match nd::choose(15) {
        0 => go!(R::Many, many(p()).map(Some)),
        1 => go!(R::Many1, many1(p()).map(Some)),
        2 => go!(R::Many, skip_many(p()).map(|_| None)),
        3 => go!(R::Many1, skip_many1(p()).map(|_| None)),
        4 => go!(R::Mm(0, max), count(max, p()).map(Some)),
        5 => go!(R::Mm(0, max), skip_count(max, p()).map(|_| None)),
        6 => go!(R::Mm(min, max), count_min_max(min, max, p()).map(Some)),
        7 => go!(R::Mm(min, max), skip_count_min_max(min, max, p()).map(|_| None)),
        8 => go!(R::Sep(false), sep_by(p(), s()).map(Some)),
        9 => go!(R::Sep(true), sep_by1(p(), s()).map(Some)),
        10 => go!(R::SepEnd(false), sep_end_by(p(), s()).map(Some)),
        11 => go!(R::SepEnd(true), sep_end_by1(p(), s()).map(Some)),
        12 => go!(R::Sep(false), sep_by::<std::collections::VecDeque<u8>, _, _, _>(p(), s()).map(|v| Some(v.into_iter().collect()))),
        13 => go!(R::Many, many::<String, _, _>(p().map(|i| (b'a' + i) as char)).map(|t| Some(t.bytes().map(|b| b - b'a').collect()))),
        _ => go!(R::Many1, many1::<std::collections::LinkedList<u8>, _, _>(p()).map(|v| Some(v.into_iter().collect()))),
    }
}

harnesses! {
    /// every repetition combinator over items and separators with any outcomes (at most 4 runs each, thorough 6), limits 0..=4, run twice in a row, in each of four ways
    fn h_c09_all[2] {
        let l = log();
        all(&l, false, q(4, 6));
    }
    /// every repetition combinator inside (before, optional(..), after): at most 6 runs (thorough 8) in all
    fn h_c09_inside[2] {
        let l = log();
        all(&l, true, N);
    }
    /// Parser::iter: the items one by one, then into_result; dropping the iterator after k items leaves the stream after the k-th
    fn h_c09_iter[2] {
        let l = log();
        let mut s = Place::vague();
        let start = s.at;
        let stop = nd::choose(4);
        let mut p = probe(P, &l).cap(N).map(|_| idx(&l));
        let mut got = vec![];
        let mut it = (&mut p).iter(&mut s);
        let mut more = true;
        while got.len() < stop {
            match it.next() { Some(x) => got.push(x), None => { more = false; break } }
        }
        if more { cov!(0); drop(it); }
        else {
            cov!(1);
            let r: combine::ParseResult<(), _> = it.into_result(()).into();
            let l = l.borrow();
            let mut w = Walk::new(&l, start);
            let (k, v) = sem(R::Many, &mut w);
            chk!(kind_of(&r) == k && got == v);
            if k <= POK { chk!(s.at == w.at); }
            return;
        }
        let l = l.borrow();
        let mut w = Walk::new(&l, start);
        for (i, x) in got.iter().enumerate() { chk!(w.run(P) <= POK); chk!(*x == i as u8); }
        w.done();
        chk!(s.at == w.at);
    }
    /// nested: many(sep_by1(item, sep)), sep_by(many1(item), sep), many over an item that is itself a count
    fn h_c09_nested[1] {
        let l = log();
        let p = || probe_c(P, &l).cap(N).map(|_| idx(&l));
        let s = || probe_c(S, &l).cap(N);
        let mut st = Place::vague();
        let start = st.at;
        let how = nd::choose(HOW);
        let which = nd::choose(4);
        let out: (u8, Vec<Vec<u8>>) = {
            let r = match which {
                0 => run(how, &mut many(sep_by1(p(), s())), &mut st),
                1 => run(how, &mut sep_by(many1(p()), s()), &mut st),
                2 => run(how, &mut many(count_min_max(1, 2, p())), &mut st),
                _ => run(how, &mut sep_end_by1(count_min_max(2, 2, p()), s()), &mut st),
            };
            (kind_of(&r), match r { CommitOk(x) | PeekOk(x) => x, _ => vec![] })
        };
        let l = l.borrow();
        let mut w = Walk::new(&l, start);
        let inner = |w: &mut Walk, r: R| -> (u8, Vec<u8>) {
            // an inner repetition's own commitment
            let c = std::mem::replace(&mut w.c, false);
            let at = w.at;
            let (k, v) = sem(r, w);
            w.c |= c;
            if k == PERR { w.at = at; }
            (k, v)
        };
        let (k, v) = (|| {
            let mut v: Vec<Vec<u8>> = vec![];
            if which == 0 || which == 2 {
                loop {
                    let (k, x) = inner(&mut w, if which == 0 { R::Sep(true) } else { R::Mm(1, 2) });
                    match k { COK | POK => v.push(x), PERR => break, _ => return (CERR, v) }
                }
                return (w.ok(), v);
            }
            let ri = if which == 1 { R::Many1 } else { R::Mm(2, 2) };
            match inner(&mut w, ri) { (COK, x) | (POK, x) => v.push(x), (PERR, _) => return (if which == 1 { POK } else { PERR }, v), _ => return (CERR, v) }
            loop {
                let s = w.run(S);
                if s == CERR { return (CERR, v) }
                if s == PERR { return (w.ok(), v) }
                match inner(&mut w, ri) {
                    (COK, x) | (POK, x) => v.push(x),
                    (PERR, _) if which == 3 => return (w.ok(), v),
                    _ => return (CERR, v),
                }
            }
        })();
        w.done();
        cov!(0);
        chk!(out.0 == k);
        if k <= POK { chk!(out.1 == v && st.at == w.at); }
    }
    /// with detailed errors: same rule
    fn h_c09_easy[2] {
        let l = log();
        type E = easy::Stream<M>;
        let p = || probe_on::<E>(P, &l, 4).cap(N - 1).map(|_| idx(&l));
        let s = || probe_on::<E>(S, &l, 4).cap(N - 1);
        let mut st = easy::Stream(Place::finite());
        let start = st.0.at;
        let how = nd::choose(HOW);
        let (r, out) = match nd::choose(7) {
            0 => (R::Many, run(how, &mut many::<Vec<u8>, _, _>(p()), &mut st)),
            1 => (R::Many1, run(how, &mut many1(p()), &mut st)),
            2 => (R::Mm(1, 2), run(how, &mut count_min_max(1, 2, p()), &mut st)),
            3 => (R::Sep(false), run(how, &mut sep_by(p(), s()), &mut st)),
            4 => (R::Sep(true), run(how, &mut sep_by1(p(), s()), &mut st)),
            5 => (R::SepEnd(false), run(how, &mut sep_end_by(p(), s()), &mut st)),
            _ => (R::SepEnd(true), run(how, &mut sep_end_by1(p(), s()), &mut st)),
        };
        let l = l.borrow();
        let mut w = Walk::new(&l, start);
        let (k, v) = sem(r, &mut w);
        w.done();
        chk!(kind_of(&out) == k);
        match out { CommitOk(x) | PeekOk(x) => { cov!(0); chk!(x == v && st.0.at == w.at) } _ => cov!(1) }
    }
}
