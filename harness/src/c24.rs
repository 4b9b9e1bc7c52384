//! C24: wrapping a parser does not change what it parses.
use crate::inner::*;
use crate::nd::{self, q};
use combine::error::ParseResult::{self, *};
use combine::error::Tracked;
use combine::parser::choice::{choice, optional, or, Optional, Or};
use combine::parser::combinator::*;
use combine::parser::error::{unexpected_any, Expected, Unexpected};
use combine::parser::function::env_parser;
use combine::parser::repeat::{many, many1, sep_by, Many};
use combine::parser::token::{token, value, Token, Value};
use combine::parser::{EasyParser, ParseMode};
use combine::stream::{decode, easy, MaybePartialStream};
use combine::{opaque, Parser, StdParseResult, StreamOnce};

/// What a run shows: value or error, commitment, what is left; all errors as a set.
struct Run<'a> {
    value: Option<u32>,
    commit: bool,
    used: usize,
    error: Option<easy::ParseError<S<'a>>>,
}
fn sum(x: V) -> u32 {
    x.0 as u32 * 256 + x.1 as u32
}
fn run<'a, Q: Parser<S<'a>, Output = u32>>(mut p: Q, d: &'a [u8]) -> Run<'a> {
    let mut s = easy::Stream(MaybePartialStream(d, false));
    let r = p.parse_stream(&mut s);
    let used = d.len() - (s.0).0.len();
    let commit = matches!(&r, CommitOk(_) | CommitErr(_));
    match r {
        CommitOk(x) | PeekOk(x) => Run { value: Some(x), commit, used, error: None },
        CommitErr(e) => Run { value: None, commit, used: 0, error: Some(e) },
        PeekErr(e) => Run { value: None, commit, used: 0, error: Some(e.error) },
    }
}
/// the same in two chunks
fn run_cut<'a, Q: Parser<S<'a>, Output = u32>>(mut p: Q, d: &'a [u8], cut: usize) -> Run<'a> {
    let mut state = Default::default();
    let mut at = 0;
    for &(end, partial) in &[(cut, true), (d.len(), false)] {
        let mut s = easy::Stream(MaybePartialStream(&d[at..end], partial));
        match decode(&mut p, &mut s, &mut state) {
            Ok((Some(x), n)) => return Run { value: Some(x), commit: false, used: at + n, error: None },
            Ok((None, n)) => {
                chk!(partial);
                at += n;
            }
            Err(e) => return Run { value: None, commit: false, used: 0, error: Some(e) },
        }
    }
    unreachable!()
}
fn same(a: Run, b: Run, errors: bool) {
    chk!(a.value == b.value);
    chk!(a.commit == b.commit);
    chk!(a.used == b.used);
    match (a.error, b.error) {
        (None, None) => {
            nd::obs(a.value.unwrap_or(0) as u64);
            cov!(0);
        }
        (Some(x), Some(y)) => {
            if errors {
                chk!(x.position == y.position);
                chk!(x.errors.len() == y.errors.len());
                chk!(x.errors.iter().all(|e| y.errors.contains(e)));
            }
            cov!(1);
        }
        _ => chk!(false),
    }
}
/// The places where the parser is used, each with its own demands.
const CONTEXTS: usize = 10;
fn context<'a, P: Parser<S<'a>, Output = V>, B: Parser<S<'a>, Output = V>>(c: usize, p: P, b: B, d: &'a [u8], cut: Option<usize>, errors: bool) {
    macro_rules! go {
        ($x:ident, $e:expr) => {
            same(
                { let $x = p; match cut { None => run($e, d), Some(c) => run_cut($e, d, c) } },
                { let $x = b; match cut { None => run($e, d), Some(c) => run_cut($e, d, c) } },
                errors,
            )
        };
    }
    match c {
        0 => go!(x, x.map(sum)),
        1 => go!(x, (x, t(b'c')).map(|(x, y)| sum(x) * 256 + y as u32)),
        2 => go!(x, (t(b'c'), x, t(b'c')).map(|(_, x, _)| sum(x))),
        3 => go!(x, x.map(sum).or(t(b'c').map(|_| 1))),
        4 => go!(x, t(b'c').map(|_| 1).or(x.map(sum))),
        5 => go!(x, optional(x).skip(t(b'c')).map(|x| x.map_or(0, sum))),
        6 => go!(x, (optional(t(b'c')), x).map(|(y, x)| sum(x) + y.map_or(0, |_| 1))),
        7 => go!(x, many(x).skip(t(b'c')).map(|x: Cnt| x.0 as u32 * 256 + x.1 as u32)),
        8 => go!(x, attempt((x, t(b'c'))).map(|(x, y)| sum(x) * 256 + y as u32).or(t(b'a').map(|_| 1))),
        _ => go!(x, sep_by(x, t(b'c')).map(|x: Cnt| x.0 as u32 * 256 + x.1 as u32)),
    }
}
combine::parser! {
    type PartialState = P::PartialState;
    fn by_macro['a, P](p: P)(S<'a>) -> V
    where [P: Parser<S<'a>, Output = V>]
    {
        p
    }
}
fn with_env<'a>(k: usize, input: &mut S<'a>) -> StdParseResult<V, S<'a>> {
    inner(k).parse_stream(input).into_result()
}
struct Id;
impl<'c, 'a: 'c> Converter<'c, S<'a>> for Id {
    type InputInner = &'c mut S<'a>;
    fn convert(&mut self, input: &'c mut S<'a>) -> Result<&'c mut S<'a>, Er<'a>> {
        Ok(input)
    }
    fn convert_error(&mut self, _: &'c mut S<'a>, e: Er<'a>) -> Er<'a> {
        e
    }
}
macro_rules! wrappers {
    ([$x:ident $k:ident $l:lifetime] $($e:expr;)*) => {
        /// Uses the wrapped parser number `w` where the bare one was.
        fn wrapped<$l>(w: usize, $k: usize, c: usize, d: &$l [u8], cut: Option<usize>, errors: bool) {
            let mut i = 0;
            $(
                if i == w {
                    #[allow(unused_mut)]
                    let mut $x = inner($k);
                    let _ = &mut $x;
                    return context(c, $e, inner($k), d, cut, errors);
                }
                i += 1;
            )*
            let _ = i;
        }
        const WRAPPERS: usize = [$(stringify!($e)),*].len();
    };
}
type Dyn<'a> = dyn Parser<S<'a>, Output = V, PartialState = InnerState<'a>> + 'a;
wrappers! {
    [x k 'a]
    &mut x;
    &mut &mut x;
    x.by_ref();
    Box::new(x);
    Box::new(x) as Box<Dyn<'a>>;
    &mut x as &mut Dyn<'a>;
    x.left::<Value<S<'a>, V>>();
    x.right::<Value<S<'a>, V>>();
    lazy(move || inner(k));
    factory(move |_: &mut S<'a>| inner(k));
    no_partial(x);
    opaque::<S<'a>, _, V, InnerState<'a>>(move |f| f(&mut x));
    opaque!(no_partial(inner(k)));
    x.map(|x| x);
    x.map_input(|x, _: &mut S<'a>| x);
    x.flat_map(Ok);
    x.and_then(Ok::<V, easy::Error<u8, &'a [u8]>>);
    by_macro(x);
    combine::dispatch!(k % 2; 0 => x, _ => inner(k));
    (x,).map(|x| x.0);
    choice((x,));
    choice([x]);
    x.skip(value(()));
    value(()).with(x);
    combine::parser(move |i: &mut S<'a>| x.parse_stream(i).into_result());
    env_parser(k, with_env);
}
/// Are the errors the same too? (Not for functions, which report their errors themselves, nor where a
/// sequence or choice is added around the parser, see C22's findings, nor in the known finding.)
fn errors(w: usize, k: usize, c: usize) -> bool {
    let seq = k == 6 || k == 7;
    if w >= LAYER {
        c == 0 && !(w == WITH && k == 7)
    } else if (HIDES.contains(&w)) && seq {
        c != 5 && c != 7
    } else {
        true
    }
}
/// lazy, factory, opaque, opaque!, parser!: the known finding
const HIDES: [usize; 5] = [8, 9, 11, 12, 17];
const LAYER: usize = 19;
const WITH: usize = 23;
/// Counts the calls of a user's function.
struct Calls(std::cell::Cell<u32>);
impl Calls {
    fn hit(&self) {
        self.0.set(self.0.get() + 1);
    }
    /// Parses, whole or in two chunks, and compares with how the bare parser went.
    fn expect<'a, Q: Parser<S<'a>, Output = u32>>(&self, q: Q, k: usize, d: &'a [u8], cut: Option<usize>, each: u32) {
        let r = match cut {
            None => run(q, d),
            Some(c) => run_cut(q, d, c),
        };
        let bare = run(inner(k).map(sum), d);
        chk!(r.value == bare.value);
        chk!(r.used == bare.used);
        chk!(self.0.get() == if bare.value.is_some() { each } else { 0 });
        if bare.value.is_some() {
            cov!(0);
        } else {
            cov!(1);
        }
    }
}
harnesses! {
    /// every wrapper, parser and place, on whole input
    fn h_c24_whole[2] {
        let (w, k, c) = (nd::choose(WRAPPERS), nd::choose(INNER), nd::choose(CONTEXTS));
        nd::assume(c != 7 || !nullable(k));
        let d = nd::bytes(0, q(3, 4));
        wrapped(w, k, c, &d, None, errors(w, k, c));
    }
    /// the same on chunks
    fn h_c24_chunks[2] {
        let (w, k, c) = (nd::choose(WRAPPERS), nd::choose(INNER), nd::choose(CONTEXTS));
        nd::assume(c != 7 || !nullable(k));
        let d = nd::bytes(0, q(3, 4));
        let cut = nd::within(d.len());
        wrapped(w, k, c, &d, Some(cut), errors(w, k, c));
    }
    /// the user's function runs once for each success, and not for a failure, whole or in chunks
    fn h_c24_calls[2] {
        let (w, k) = (nd::choose(7), nd::choose(INNER));
        let d = nd::bytes(0, q(3, 5));
        let cut = if nd::flag() { Some(nd::within(d.len())) } else { None };
        let n = &Calls(Default::default());
        let x = inner(k);
        match w {
            0 => n.expect(x.map(|v| { n.hit(); sum(v) }), k, &d, cut, 1),
            1 => n.expect(x.map_input(|v, _: &mut S| { n.hit(); sum(v) }), k, &d, cut, 1),
            2 => n.expect(x.flat_map(|v| { n.hit(); Ok(sum(v)) }), k, &d, cut, 1),
            3 => n.expect(x.and_then(|v| { n.hit(); Ok::<_, easy::Error<u8, &[u8]>>(sum(v)) }), k, &d, cut, 1),
            4 => n.expect(x.then(|v| { n.hit(); value(sum(v)) }), k, &d, cut, 1),
            5 => n.expect(x.then_partial(|v: &mut V| { n.hit(); value(sum(*v)) }), k, &d, cut, 1),
            _ => n.expect(x.then_ref(|v: &V| { n.hit(); value(sum(*v)) }).map(|x| x.1), k, &d, cut, 1),
        }
    }
    /// parsers made from what was parsed before, again and again: of the right thing each time, whole or in chunks
    fn h_c24_made[2] {
        let last = &std::cell::Cell::new(0);
        let d = nd::bytes(0, q(4, 6));
        let cut = nd::within(d.len());
        let first = || combine::any().map(|x: u8| last.set(x));
        let k = nd::choose(8);
        let r = match k {
            0 => run_cut(many::<Cnt, _, _>(first().with(factory(|_: &mut S| t(last.get())))).map(|c| c.0 as u32), &d, cut),
            1 => run_cut(many::<Cnt, _, _>(first().with(lazy(|| t(last.get())))).map(|c| c.0 as u32), &d, cut),
            2 => run_cut(many::<Cnt, _, _>(first().with(combine::parser(|i: &mut S| t(last.get()).parse_stream(i).into_result()))).map(|c| c.0 as u32), &d, cut),
            3 => run_cut(many::<Cnt, _, _>(first().then(|_| t(last.get()))).map(|c| c.0 as u32), &d, cut),
            4 => run_cut(many::<Cnt, _, _>(combine::any().then_partial(|x: &mut u8| t(*x))).map(|c| c.0 as u32), &d, cut),
            5 => run_cut(many::<Cnt, _, _>(combine::any().then_ref(|x: &u8| t(*x)).map(|x| x.1)).map(|c| c.0 as u32), &d, cut),
            6 => run_cut(many::<Cnt, _, _>(first().with(no_partial(lazy(|| t(last.get()))))).map(|c| c.0 as u32), &d, cut),
            _ => run_cut(many::<Cnt, _, _>(first().with(attempt(lazy(|| (t(last.get()), optional(t(b'c'))))).map(|x| x.0))).map(|c| c.0 as u32), &d, cut),
        };
        // pairs of the same byte (7: and a 'c' if there is one)
        let (mut at, mut n) = (0, 0);
        let want = loop {
            if at == d.len() {
                break Some(n);
            }
            if at + 1 == d.len() || d[at] != d[at + 1] {
                break None;
            }
            at += 2;
            n += 1;
            if k == 7 && d.get(at) == Some(&b'c') {
                at += 1;
            }
        };
        chk!(r.value == want);
        if r.value.is_some() {
            cov!(0);
        } else {
            cov!(1);
        }
    }
    /// several of them in a row, in a list: once for each item
    fn h_c24_each[2] {
        let n = &Calls(Default::default());
        let m = &Calls(Default::default());
        let d = nd::bytes(0, q(4, 6));
        let cut = nd::within(d.len());
        let mut p = many::<Cnt, _, _>(t(b'a').map(|x| { n.hit(); x })).skip(t(b'c')).map(|c| { m.hit(); c.0 as u32 });
        let _ = p.by_ref();
        let r = run_cut(p, &d, cut);
        let a = d.iter().take_while(|x| **x == b'a').count();
        chk!(n.0.get() as usize == a);
        chk!(m.0.get() == r.value.is_some() as u32);
        chk!(r.value == if d.get(a) == Some(&b'c') { Some(a as u32) } else { None });
        if r.value.is_some() {
            cov!(0);
        } else {
            cov!(1);
        }
    }
    /// known finding: optional(w((a, b))) before c, on nothing
    fn h_c24_known_hidden_sequence[0] {
        let d: &[u8] = b"";
        let bare = run(optional(inner(6)).skip(t(b'c')).map(|_| 0), d).error.unwrap();
        let w = run(optional(lazy(|| inner(6))).skip(t(b'c')).map(|_| 0), d).error.unwrap();
        chk!(w.position == bare.position);
        chk!(bare.errors.len() == 4 && w.errors.len() >= 3 && w.errors.iter().all(|e| bare.errors.contains(e)));
        known!(w.errors.len() == bare.errors.len());
    }
}
