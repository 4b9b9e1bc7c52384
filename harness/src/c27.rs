//! C27: the regex parsers give what the engine matched and stop where their documentation says.
use crate::nd::{self, q};
use combine::error::ParseError;
use combine::error::ParseResult::{self, *};
use combine::parser::range::take;
use combine::parser::regex::{captures, captures_many, find, find_many, match_};
use combine::stream::easy;
use combine::{Parser, RangeStream};
use regex::{bytes, Found};
use std::collections::{LinkedList, VecDeque};

const PAT: &str = "ab*";
/// Any matches an engine can report: in order, not overlapping, no empty one right after another;
/// `places` are where a match can begin and end.
fn matches(places: &[usize], text: bool) -> Vec<Found> {
    let len = places[places.len() - 1];
    let place = |lo: usize, hi: usize| {
        if text {
            // (characters of several lengths: one path per place)
            let (lo, hi) = (places.iter().position(|x| *x == lo), places.iter().position(|x| *x == hi));
            return places[nd::range(lo.unwrap(), hi.unwrap())];
        }
        let p = nd::u8() as usize;
        nd::assume(lo <= p && p <= hi);
        p
    };
    let groups = nd::range(0, if text { q(1, 2) } else { 2 });
    let n = nd::range(0, q(2, 3));
    let mut v = Vec::new();
    let mut last = None;
    for _ in 0..n {
        let s = place(last.unwrap_or(0), len);
        let e = place(s, len);
        nd::assume(!(s == e && last == Some(e)));
        last = Some(e);
        let mut g = vec![Some((s, e))];
        for _ in 0..groups {
            // (a group need not take part)
            g.push(if nd::flag() {
                let a = place(s, e);
                Some((a, place(a, e)))
            } else {
                None
            });
        }
        v.push(Found(g));
    }
    v
}
trait Input: RangeStream {
    fn bytes(r: &Self::Range) -> (usize, usize);
    fn offset(&self) -> usize;
    fn formats(e: &Self::Error) -> usize;
}
fn place(x: &[u8]) -> (usize, usize) {
    (x.as_ptr() as usize, x.len())
}
macro_rules! input {
    ($t:ty, $r:ty, $bytes:expr) => {
        impl<'a> Input for easy::Stream<$r> {
            fn bytes(r: &$r) -> (usize, usize) {
                place($bytes(*r))
            }
            fn offset(&self) -> usize {
                place($bytes(self.0)).0
            }
            fn formats(e: &easy::ParseError<Self>) -> usize {
                e.errors.iter().filter(|x| matches!(x, easy::Error::Expected(easy::Info::Owned(s)) if s == "/ab*/")).count()
            }
        }
    };
}
input!(u8, &'a [u8], |x: &'a [u8]| x);
input!(char, &'a str, |x: &'a str| x.as_bytes());

/// `p` after `pre` bytes; the value, what it took and whether it was committed
fn went<S: Input, O>(r: ParseResult<O, S::Error>, committed: bool) -> Result<O, S::Error> {
    match r {
        CommitOk(x) => {
            chk!(committed);
            Ok(x)
        }
        PeekOk(x) => {
            chk!(!committed);
            Ok(x)
        }
        PeekErr(e) => Err(e.error),
        CommitErr(e) => {
            chk!(false);
            Err(e)
        }
    }
}
fn eq<S: Input>(x: &S::Range, base: usize, m: Option<(usize, usize)>) -> bool {
    let (a, n) = S::bytes(x);
    m.map_or(false, |(s, e)| a == base + s && n == e - s)
}
fn same<'a, S: Input + 'a>(x: impl IntoIterator<Item = &'a S::Range>, base: usize, f: impl IntoIterator<Item = Option<(usize, usize)>>) -> bool
where
    S::Range: 'a,
{
    let mut f = f.into_iter().flatten();
    let mut ok = true;
    for x in x {
        ok &= eq::<S>(x, base, f.next());
    }
    ok && f.next().is_none()
}
fn all<S: Input, R>(input: S, regex: R, misused: impl Fn() -> bool, rest: usize, found: &[Found])
where
    R: combine::parser::regex::Regex<S::Range> + Copy,
    S::Range: combine::stream::Range,
    S: combine::Stream,
{
    let mut input = input;
    let base = input.offset();
    let pos = input.position();
    let first = found.first();
    let first_end = first.map(|f| f.0[0].unwrap().1);
    let last_end = found.last().map_or(0, |f| f.0[0].unwrap().1);
    let failed = |e: S::Error, input: &S| {
        chk!(e.position() == pos && S::formats(&e) == 1);
        chk!(input.offset() == base);
        chk!(first.is_none());
        cov!(0);
    };
    match nd::choose(5) {
        0 => {
            let mut p = match_(regex);
            match went::<S, _>(p.parse_stream(&mut input), false) {
                Ok(x) => {
                    chk!(first.is_some() && eq::<S>(&x, base, Some((0, rest))));
                    chk!(input.offset() == base);
                    cov!(1);
                }
                Err(e) => failed(e, &input),
            }
        }
        1 => {
            let mut p = find(regex);
            match went::<S, _>(p.parse_stream(&mut input), first_end.map_or(false, |e| e > 0)) {
                Ok(x) => {
                    chk!(first.is_some() && eq::<S>(&x, base, first.unwrap().0[0]));
                    chk!(input.offset() == base + first_end.unwrap());
                    cov!(2);
                }
                Err(e) => failed(e, &input),
            }
        }
        2 => {
            let mut p = find_many::<Vec<S::Range>, _, _>(regex);
            match went::<S, _>(p.parse_stream(&mut input), last_end > 0) {
                Ok(v) => {
                    chk!(same::<S>(&v, base, found.iter().map(|f| f.0[0])));
                    chk!(input.offset() == base + last_end);
                    cov!(3);
                }
                Err(_) => chk!(false),
            }
        }
        3 => {
            let mut p = captures::<Vec<S::Range>, _, _>(regex);
            match went::<S, _>(p.parse_stream(&mut input), first_end.map_or(false, |e| e > 0)) {
                Ok(v) => {
                    chk!(first.is_some() && same::<S>(&v, base, first.unwrap().0.iter().copied()));
                    chk!(input.offset() == base + first_end.unwrap());
                    cov!(4);
                }
                Err(e) => failed(e, &input),
            }
        }
        _ => {
            let mut p = captures_many::<Vec<S::Range>, Vec<_>, _, _>(regex);
            match went::<S, _>(p.parse_stream(&mut input), last_end > 0) {
                Ok(v) => {
                    chk!(v.len() == found.len());
                    let mut ok = true;
                    for (v, f) in v.iter().zip(found) {
                        ok &= same::<S>(v, base, f.0.iter().copied());
                    }
                    chk!(ok);
                    chk!(input.offset() == base + last_end);
                    cov!(5);
                }
                Err(_) => chk!(false),
            }
        }
    }
    chk!(!misused());
}
harnesses! {
    /// bytes: every parser, everything an engine can report about what is left of the input
    fn h_c27_bytes[6] {
        let d = nd::bytes(0, q(5, 6));
        let pre = nd::within(q(1, 2).min(d.len()));
        let rest = d.len() - pre;
        let places: Vec<usize> = (0..=rest).collect();
        let found = matches(&places, false);
        let regex = bytes::Regex::reporting(PAT, rest, found.clone());
        let mut s = easy::Stream(&d[..]);
        let _ = take(pre).parse_stream(&mut s);
        all(s, &regex, || regex.misused(), rest, &found);
    }
    /// text: the same, for characters of every UTF-8 length
    fn h_c27_text[6] {
        let t = nd::text(0, 2, q(3, 4));
        let pre = t.char_indices().nth(nd::choose(2)).map_or(0, |x| x.0);
        let rest = t.len() - pre;
        let places: Vec<usize> = t[pre..].char_indices().map(|x| x.0).chain(Some(rest)).collect();
        let found = matches(&places, true);
        let regex = regex::Regex::reporting(PAT, rest, found.clone());
        let mut s = easy::Stream(&t[..]);
        let _ = take(pre).parse_stream(&mut s);
        all(s, &regex, || regex.misused(), rest, &found);
    }
    /// into other collections: of everything, in order
    fn h_c27_collect[1] {
        let d = nd::bytes(0, q(3, 4));
        let places: Vec<usize> = (0..=d.len()).collect();
        let found = matches(&places, false);
        let regex = bytes::Regex::reporting(PAT, d.len(), found.clone());
        let base = d.as_ptr() as usize;
        type S<'a> = easy::Stream<&'a [u8]>;
        let s = easy::Stream(&d[..]);
        match nd::choose(2) {
            0 => match find_many::<VecDeque<&[u8]>, _, _>(&regex).parse(s) {
                Ok((v, _)) => chk!(same::<S>(&v, base, found.iter().map(|f| f.0[0]))),
                Err(_) => chk!(false),
            },
            _ => match captures_many::<LinkedList<&[u8]>, VecDeque<_>, _, _>(regex).parse(s) {
                Ok((v, _)) => {
                    chk!(v.len() == found.len());
                    for (v, f) in v.iter().zip(&found) {
                        chk!(same::<S>(v, base, f.0.iter().copied()));
                    }
                    cov!(0);
                }
                Err(_) => chk!(false),
            },
        }
    }
}
