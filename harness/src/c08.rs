//! C08: attempt, look_ahead, not_followed_by, optional.
use crate::nd::{self, q};
use crate::probe::*;
use combine::error::ParseResult::*;
use combine::parser::combinator::no_partial;
use combine::stream::easy;
use combine::{attempt, look_ahead, not_followed_by, optional, Parser};

const ATT: u8 = 0;
const LOOK: u8 = 1;
const NOT: u8 = 2;
const OPT: u8 = 3;
const NONE: u8 = 100;
const UNIT: u8 = 101;

type BP<'a> = Box<dyn Parser<M, Output = u8, PartialState = ()> + 'a>;
fn wrap<'a>(w: u8, p: BP<'a>) -> BP<'a> {
    match w {
        ATT => Box::new(no_partial(attempt(p))),
        LOOK => Box::new(no_partial(look_ahead(p))),
        NOT => Box::new(no_partial(not_followed_by(p).map(|_| UNIT))),
        _ => Box::new(no_partial(optional(p).map(|x| x.unwrap_or(NONE)))),
    }
}
/// outcome of the wrapper on an outcome of what it wraps: kind, value
fn rule(w: u8, (k, v): (u8, u8)) -> (u8, u8) {
    match (w, k) {
        (ATT, CERR) => (PERR, v),
        (LOOK, COK) => (POK, v),
        (NOT, COK) | (NOT, POK) => (PERR, v),
        (NOT, _) => (POK, UNIT),
        (OPT, PERR) => (POK, NONE),
        _ => (k, v),
    }
}
fn rules(ws: &[u8], k: u8, v: u8) -> (u8, u8) {
    let mut r = (k, v);
    for w in ws {
        r = rule(*w, r);
    }
    r
}
/// `p` is a probe 0 wrapped in `ws` (innermost first), followed by probe 1.
fn case<P>(ws: &[u8], log: &Log, mut p: P, times: usize)
where
    P: Parser<M, Output = (u8, u8)>,
{
    let how = nd::choose(HOW);
    let mut s = Place::vague();
    for _ in 0..times {
        log.borrow_mut().clear();
        let start = s.at;
        let r = run(how, &mut p, &mut s);
        let l = log.borrow();
        chk!(l.len() >= 1 && l.len() <= 2);
        chk!(l[0].id == 0 && l[0].at == start);
        let (k, v) = rules(ws, l[0].kind, 0);
        nd::obs(k as u64);
        if k == CERR || k == PERR {
            cov!(0);
            chk!(l.len() == 1);
            chk!(kind_of(&r) == k);
            return;
        }
        chk!(l.len() == 2);
        // the next parser starts exactly there
        let at = if k == COK { l[0].end } else { start };
        chk!(l[1].id == 1 && l[1].at == at);
        let c = k == COK || l[1].kind == COK || l[1].kind == CERR;
        let ok = l[1].kind == COK || l[1].kind == POK;
        chk!(kind_of(&r) == match (c, ok) { (true, true) => COK, (false, true) => POK, (true, false) => CERR, _ => PERR });
        match r {
            CommitOk((a, b)) | PeekOk((a, b)) => {
                cov!(1);
                chk!(a == v && b == 1);
                chk!(s.at == l[1].end);
            }
            _ => return,
        }
    }
}
/// `p` is a probe 0 wrapped in `ws`, alone: the input afterwards.
fn alone<P>(ws: &[u8], log: &Log, mut p: P)
where
    P: Parser<M, Output = u8>,
{
    let how = nd::choose(HOW);
    let mut s = Place::vague();
    let at = s.at;
    let r = run(how, &mut p, &mut s);
    let l = log.borrow();
    chk!(l.len() == 1 && l[0].id == 0 && l[0].at == at);
    let (k, v) = rules(ws, l[0].kind, 0);
    chk!(kind_of(&r) == k);
    match r {
        CommitOk(x) => { cov!(0); chk!(x == v && s.at == l[0].end) }
        PeekOk(x) => { cov!(1); chk!(x == v && s.at == at) }
        // an outermost look_ahead or not_followed_by leaves the input alone whatever happens
        _ => {
            let w = ws[ws.len() - 1];
            if w == NOT || how < 1 && k == PERR && w == LOOK { chk!(s.at == at) }
        }
    }
}
fn any_wraps(lo: usize, hi: usize) -> Vec<u8> {
    let n = nd::range(lo, hi);
    (0..n).map(|_| nd::choose(4) as u8).collect()
}

harnesses! {
    /// every nesting of 1..=3 (thorough 4) of the four, around any outcome, followed by a parser with any outcome, run up to twice
    fn h_c08_nest[2] {
        let l = log();
        let ws = any_wraps(1, q(3, 4));
        let mut p: BP = Box::new(probe(0, &l));
        for w in &ws { p = wrap(*w, p); }
        case(&ws, &l, (p, probe(1, &l)), 2);
    }
    /// every nesting of 1..=4 (thorough 5), alone: value, kind and the input afterwards
    fn h_c08_alone[2] {
        let l = log();
        let ws = any_wraps(1, q(4, 5));
        let mut p: BP = Box::new(probe(0, &l));
        for w in &ws { p = wrap(*w, p); }
        alone(&ws, &l, p);
    }
    /// statically typed nestings, through all four entry points, run up to twice (thorough three times)
    fn h_c08_static[2] {
        let l = log();
        let p = || probe(0, &l);
        let n = || probe(1, &l);
        let t = q(2, 3);
        match nd::choose(10) {
            0 => case(&[ATT], &l, (attempt(p()), n()), t),
            1 => case(&[LOOK], &l, (look_ahead(p()), n()), t),
            2 => case(&[NOT], &l, (not_followed_by(p()).map(|_| UNIT), n()), t),
            3 => case(&[OPT], &l, (optional(p()).map(|x| x.unwrap_or(NONE)), n()), t),
            4 => case(&[ATT, OPT], &l, (optional(attempt(p())).map(|x| x.unwrap_or(NONE)), n()), t),
            5 => case(&[LOOK, ATT, OPT], &l, (optional(attempt(look_ahead(p()))).map(|x| x.unwrap_or(NONE)), n()), t),
            6 => case(&[NOT, NOT], &l, (not_followed_by(not_followed_by(p()).map(|_| 0u8)).map(|_| UNIT), n()), t),
            7 => case(&[OPT, NOT, OPT], &l, (optional(not_followed_by(optional(p()).map(|_| 0u8))).map(|x| x.map_or(NONE, |_| UNIT)), n()), t),
            8 => case(&[ATT, ATT, LOOK], &l, (look_ahead(attempt(attempt(p()))), n()), t),
            _ => case(&[OPT, ATT, OPT], &l, (optional(attempt(optional(p()))).map(|x| x.flatten().unwrap_or(NONE)), n()), t),
        }
    }
    /// around a sequence of two parts, whose committed failure lies further into the input, inside a choice: the alternative and the parser after the choice start where they have to
    fn h_c08_seq[2] {
        let l = log();
        let w = nd::choose(4);
        let how = nd::choose(HOW);
        let ab = || (probe(0, &l), probe(1, &l)).map(|_| 0u8);
        let mut s = Place::vague();
        let start = s.at;
        let c = probe(2, &l);
        let d = probe(3, &l);
        let r = match w {
            0 => run(how, &mut (attempt(ab()).or(c), d), &mut s),
            1 => run(how, &mut (look_ahead(ab()).or(c), d), &mut s),
            2 => run(how, &mut (not_followed_by(ab()).map(|_| UNIT).or(c), d), &mut s),
            _ => run(how, &mut (optional(attempt(ab())).map(|x| x.unwrap_or(NONE)).or(c), d), &mut s),
        };
        let l = l.borrow();
        let ab: Vec<&Ev> = l.iter().filter(|e| e.id < 2).collect();
        let committed = ab.iter().any(|e| e.kind == COK || e.kind == CERR);
        let ok = ab.len() == 2 && ab[1].kind <= POK;
        chk!(ok || ab[ab.len() - 1].kind >= CERR);
        let k = match (committed, ok) { (true, true) => COK, (false, true) => POK, (true, false) => CERR, _ => PERR };
        let ws: &[u8] = match w { 0 => &[ATT], 1 => &[LOOK], 2 => &[NOT], _ => &[ATT, OPT] };
        let (k, v) = rules(ws, k, 0);
        let cc = l.iter().find(|e| e.id == 2);
        let dd = l.iter().find(|e| e.id == 3);
        let end = ab[ab.len() - 1].end;
        match k {
            PERR => { cov!(0); chk!(cc.is_some() && cc.unwrap().at == start); }
            CERR => { chk!(cc.is_none() && dd.is_none() && kind_of(&r) == CERR); }
            _ => {
                cov!(1);
                chk!(cc.is_none() && dd.is_some());
                chk!(dd.unwrap().at == if k == COK { end } else { start });
                if let CommitOk((x, _)) | PeekOk((x, _)) = r { chk!(x == v); }
            }
        }
    }
    /// the same with detailed errors
    fn h_c08_easy[2] {
        let l = log();
        type E = easy::Stream<M>;
        let p = || probe_on::<E>(0, &l, 4);
        let n = || probe_on::<E>(1, &l, 4);
        let mut s = easy::Stream(Place::finite());
        let start = s.0.at;
        let how = nd::choose(HOW);
        let (ws, r): (&[u8], _) = match nd::choose(6) {
            0 => (&[ATT], run(how, &mut (attempt(p()), n()), &mut s)),
            1 => (&[LOOK], run(how, &mut (look_ahead(p()), n()), &mut s)),
            2 => (&[NOT], run(how, &mut (not_followed_by(p()).map(|_| UNIT), n()), &mut s)),
            3 => (&[OPT], run(how, &mut (optional(p()).map(|x| x.unwrap_or(NONE)), n()), &mut s)),
            4 => (&[ATT, OPT], run(how, &mut (optional(attempt(p())).map(|x| x.unwrap_or(NONE)), n()), &mut s)),
            _ => (&[LOOK, NOT], run(how, &mut (not_followed_by(look_ahead(p())).map(|_| UNIT), n()), &mut s)),
        };
        let l = l.borrow();
        let (k, v) = rules(ws, l[0].kind, 0);
        if k >= CERR {
            cov!(0);
            chk!(l.len() == 1 && kind_of(&r) == k);
        } else {
            chk!(l.len() == 2 && l[1].at == if k == COK { l[0].end } else { start });
            let c = k == COK || l[1].kind == COK || l[1].kind == CERR;
            chk!((kind_of(&r) == COK || kind_of(&r) == CERR) == c);
            match r {
                CommitOk((a, _)) | PeekOk((a, _)) => { cov!(1); chk!(a == v && l[1].kind <= POK && s.0.at == l[1].end); }
                _ => chk!(l[1].kind >= CERR),
            }
        }
    }
}
