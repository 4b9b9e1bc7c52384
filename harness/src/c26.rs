//! C26: failing conversions report the place and commitment of their input; spans delimit it.
use crate::inner::*;
use crate::nd::{self, q};
use combine::error::ParseResult::{self, *};
use combine::error::StreamError;
use combine::parser::choice::optional;
use combine::parser::combinator::{any_partial_state, attempt, from_str, recognize, spanned, AnyPartialState};
use combine::parser::range::{take, take_while, take_while1};
use combine::parser::repeat::{many1, skip_many};
use combine::parser::token::{any, position, satisfy, token, Token};
use combine::stream::{easy, span, MaybePartialStream, PointerOffset};
use combine::{Parser, Positioned};

/// what a parse gave, where it was left
struct Run<'a, O> {
    result: ParseResult<O, Er<'a>>,
    left: usize,
}
fn run<'a, P: Parser<S<'a>>>(mut p: P, d: &'a [u8], from: usize) -> Run<'a, P::Output> {
    let mut s = easy::Stream(MaybePartialStream(&d[from..], false));
    let result = p.parse_stream(&mut s);
    Run { result, left: (s.0).0.len() }
}
fn at(d: &[u8], p: PointerOffset<[u8]>) -> usize {
    p.translate_position(d)
}
type M<'a> = easy::Error<u8, &'a [u8]>;
fn says(e: &easy::ParseError<S>) -> bool {
    e.errors.iter().any(|x| matches!(x, easy::Error::Message(easy::Info::Static("conv"))))
}
/// `conv`, made of `bare` with a conversion: succeeds exactly if both do
fn conversion<'a, O: PartialEq>(bare: Run<'a, V>, conv: Run<'a, O>, want: Option<O>, d: &[u8], from: usize) {
    match (bare.result, conv.result) {
        (CommitOk(_), CommitOk(x)) | (PeekOk(_), PeekOk(x)) => {
            chk!(want.map_or(false, |w| w == x));
            chk!(bare.left == conv.left);
            cov!(0);
        }
        (CommitOk(_), CommitErr(e)) => {
            chk!(want.is_none());
            chk!(at(d, e.position) == from);
            // the conversion's error and nothing else
            chk!(says(&e) && e.errors.len() == 1);
            cov!(1);
        }
        (PeekOk(_), PeekErr(e)) => {
            let e = e.error;
            chk!(want.is_none());
            chk!(at(d, e.position) == from);
            chk!(says(&e));
            cov!(2);
        }
        (CommitErr(x), CommitErr(y)) => {
            chk!(x == y);
            cov!(3);
        }
        (PeekErr(x), PeekErr(y)) => chk!(x.error == y.error),
        _ => chk!(false),
    }
}
harnesses! {
    /// and_then and flat_map over every inner parser, somewhere in the input, converting or failing
    fn h_c26_convert[4] {
        let k = nd::choose(INNER);
        let d = nd::bytes(0, q(3, 5));
        let from = nd::within(d.len());
        let fails = nd::flag();
        let bare = run(inner(k), &d, from);
        let want = match &bare.result {
            CommitOk(x) | PeekOk(x) if !fails => Some((*x, 1u8)),
            _ => None,
        };
        let conv = match nd::choose(3) {
            0 => run(inner(k).and_then(|x| if fails { Err(M::message_static_message("conv")) } else { Ok((x, 1)) }), &d, from),
            1 => run(combine::parser::combinator::and_then(inner(k), |x| if fails { Err(M::message_static_message("conv")) } else { Ok((x, 1)) }), &d, from),
            _ => {
                let p = easy::Stream(&d[from..]).position();
                run(inner(k).flat_map(|x| if fails { Err(easy::Errors::new(p, M::message_static_message("conv"))) } else { Ok((x, 1)) }), &d, from)
            }
        };
        conversion(bare, conv, want, &d, from);
    }
    /// the conversion inside a sequence, a choice, a loop: the failing item's place
    fn h_c26_places[2] {
        let d = nd::bytes(0, q(4, 6));
        let bad = nd::u8();
        let item = || any().and_then(move |x| if x == bad { Err(M::message_static_message("conv")) } else { Ok(x) });
        let first = d.iter().position(|x| *x == bad);
        let r = match nd::choose(5) {
            0 => run(skip_many(item()), &d, 0).result,
            1 => run(skip_many(attempt(item())), &d, 0).result,
            2 => run(skip_many((item(), optional(item()))), &d, 0).result,
            3 => run(skip_many(item().or(any())), &d, 0).result,
            _ => run(skip_many(item().map(|_| ()).or(token(bad).map(|_| ()))), &d, 0).result,
        };
        match r {
            CommitErr(e) => {
                chk!(Some(at(&d, e.position)) == first && says(&e));
                cov!(0);
            }
            PeekErr(_) => chk!(false),
            // (attempt ends the loop before the bad one)
            CommitOk(_) | PeekOk(_) => cov!(1),
        }
    }
    /// from_str of ranges and collections of bytes: fails exactly where std's parse does, at the item
    fn h_c26_from_str[3] {
        let d = nd::bytes(0, q(4, 5));
        let from = nd::within(nd::q(1, 2).min(d.len()));
        let n = d[from..].iter().take_while(|x| **x != b';').count();
        let text = &d[from..from + n];
        let want: Option<u8> = std::str::from_utf8(text).ok().and_then(|s| s.parse().ok());
        let utf8 = std::str::from_utf8(text).is_ok();
        let r = match nd::choose(3) {
            0 => run(from_str(take_while(|x| x != b';')), &d, from),
            1 => run(from_str(many1::<Vec<u8>, _, _>(satisfy(|x| x != b';'))), &d, from),
            _ => run(from_str(recognize::<Vec<u8>, _, _>(skip_many(satisfy(|x| x != b';')))), &d, from),
        };
        match r.result {
            CommitOk(x) => {
                chk!(want == Some(x) && n > 0);
                chk!(r.left == d.len() - from - n);
                nd::obs(x as u64);
                cov!(0);
            }
            CommitErr(e) => {
                chk!(want.is_none() && n > 0);
                chk!(at(&d, e.position) == from);
                chk!(e.errors.len() == 1);
                chk!(utf8 != (e.errors[0] == easy::Error::Expected(easy::Info::Static("UTF-8"))));
                cov!(1);
            }
            PeekErr(e) => {
                chk!(n == 0 && at(&d, e.error.position) == from);
                cov!(2);
            }
            PeekOk(_) => chk!(false),
        }
    }
    /// positions taken before and after any parser delimit what it took
    fn h_c26_delimit[2] {
        let k = nd::choose(INNER);
        let d = nd::bytes(0, q(3, 5));
        let from = nd::within(d.len());
        let bare = run(inner(k), &d, from);
        let r = run((position(), inner(k), position()), &d, from);
        match (bare.result, r.result) {
            (CommitOk(x), CommitOk((a, y, b))) | (PeekOk(x), PeekOk((a, y, b))) => {
                chk!(x == y);
                chk!(at(&d, a) == from && at(&d, b) == d.len() - bare.left);
                cov!(0);
            }
            (CommitErr(x), CommitErr(y)) => chk!(x.position == y.position),
            (PeekErr(x), PeekErr(y)) => {
                chk!(x.error.position == y.error.position);
                cov!(1);
            }
            _ => chk!(false),
        }
    }
    /// the span of a failure goes from where the parser began to where it stopped; the innermost one stays
    fn h_c26_spans[4] {
        let k = nd::choose(8);
        let d = nd::bytes(0, q(4, 5));
        let before = nd::within(q(1, 2).min(d.len()));
        let pre = || take(before).map(|_| 0u8);
        let bare = spans(pre().with(grammar(k)), &d);
        match nd::choose(3) {
            0 => {
                let r = spans(pre().with(spanned(grammar(k))), &d);
                chk!(bare.1 == r.1 && bare.2 == r.2);
                match (bare.0, r.0) {
                    (Ok(x), Ok(y)) => {
                        chk!(x == y);
                        cov!(0);
                    }
                    (Err((s, e)), Err(r)) => {
                        chk!(s == e && before <= s);
                        if r.0 != r.1 {
                            // the place of the error is in it; it ends there, where the stream was left, or just past the failing item
                            chk!(r.0 == before && s <= r.1 && r.1 <= bare.2.max(s + 1) && r.1 <= d.len());
                            cov!(1);
                        } else {
                            chk!(r.0 == before && s == before);
                            cov!(2);
                        }
                    }
                    _ => chk!(false),
                }
            }
            1 => {
                // inside another one: that one only says more if the inner one is empty
                let inner = spans(pre().with(spanned(grammar(k))), &d);
                let r = spans(spanned(pre().with(spanned(grammar(k)))), &d);
                chk!(inner.1 == r.1 && inner.2 == r.2);
                match (inner.0, r.0) {
                    (Ok(_), Ok(_)) => (),
                    (Err(i), Err(r)) => {
                        if i.0 != i.1 {
                            chk!(r == i);
                            cov!(3);
                        } else {
                            chk!(r.0 == 0 && before <= r.1 && r.1 <= before + 1);
                        }
                    }
                    _ => chk!(false),
                }
            }
            _ => {
                // a span taken by the grammar itself
                let r = spans(pre().with((position(), grammar(k), position()).map(|(a, x, b)| {
                    chk!(a.start == a.end && b.start == b.end);
                    chk!(at(&d, a.start) == before);
                    nd::obs(at(&d, b.start) as u64);
                    x
                })), &d);
                chk!(r.0.is_ok() == bare.0.is_ok() && r.2 == bare.2);
            }
        }
    }
}
type Sp<'a> = span::Stream<easy::Stream<&'a [u8]>, Es<'a>>;
type Es<'a> = easy::Errors<u8, &'a [u8], span::Span<PointerOffset<[u8]>>>;
fn tk<'a>(x: u8) -> Token<Sp<'a>> {
    token(x)
}
fn grammar<'a>(k: usize) -> Box<dyn Parser<Sp<'a>, Output = u8, PartialState = AnyPartialState> + 'a> {
    macro_rules! g {
        ($e:expr) => {
            Box::new(any_partial_state($e.map(|_| 0u8)))
        };
    }
    match k {
        0 => g!((tk(b'a'), tk(b'b'), tk(b'c'))),
        1 => g!((tk(b'a'), tk(b'b')).map(|_| ()).or(tk(b'b').map(|_| ()))),
        2 => g!(attempt((tk(b'a'), tk(b'b'))).map(|_| ()).or((tk(b'a'), tk(b'c')).map(|_| ()))),
        3 => g!(skip_many(tk(b'a')).skip(tk(b'b'))),
        4 => g!(optional((tk(b'a'), tk(b'b'))).skip(tk(b'c'))),
        5 => g!((tk(b'a'), any()).and_then(|x| if x.1 == b'a' { Ok(x) } else { Err(M::message_static_message("conv")) })),
        6 => g!(take(2).map(|_| ()).with(tk(b'a'))),
        _ => g!(take_while1(|x| x == b'a').map(|_| ()).skip(tk(b'b'))),
    }
}
/// Runs on `d`, giving the outcome (value, or the error's span), committed, and where the stream was left.
fn spans<'a, P: Parser<Sp<'a>, Output = u8>>(mut p: P, d: &'a [u8]) -> (Result<u8, (usize, usize)>, bool, usize) {
    let mut s = Sp::from(easy::Stream(d));
    let r = p.parse_stream(&mut s);
    let end = s.position();
    chk!(end.start == end.end);
    let end = at(d, end.start);
    chk!(d.len() - end == (s.0).0.len());
    let f = |e: Es<'a>| {
        chk!(!e.errors.is_empty());
        (at(d, e.position.start), at(d, e.position.end))
    };
    match r {
        CommitOk(x) => (Ok(x), true, end),
        PeekOk(x) => (Ok(x), false, end),
        CommitErr(e) => (Err(f(e)), true, end),
        PeekErr(e) => (Err(f(e.error)), false, end),
    }
}
