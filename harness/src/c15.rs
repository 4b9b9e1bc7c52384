//! C15: chunking never changes the result of sequences, choices and look-ahead.
use crate::nd::{self, q};
use crate::prog::{self, Pg};
use crate::split::*;
use crate::grammars;
use combine::parser::choice::{choice, optional, or};
use combine::parser::combinator::{attempt, look_ahead, not_followed_by};
use combine::parser::sequence::between;
use combine::parser::token::{any, eof, satisfy, satisfy_map, token, value, Token};
use combine::error::StreamError;
use combine::stream::StreamErrorFor;
use combine::{Parser, Stream};

fn a<S: Stream<Token = u8>>() -> Token<S> {
    token(b'a')
}
fn b<S: Stream<Token = u8>>() -> Token<S> {
    token(b'b')
}
fn c<S: Stream<Token = u8>>() -> Token<S> {
    token(b'c')
}
#[derive(PartialEq)]
struct Fields {
    x: u8,
    y: Option<u8>,
}
/// (b c) or (b a), as text for not_followed_by
fn bc<S: Stream<Token = u8>>() -> impl Parser<S, Output = &'static str> {
    (b(), c()).map(|_| "bc")
}

grammars! { split COUNT [W [u8], u8]
    (a(), b(), any());
    ((a(), b()), (any(), c()));
    (optional(a()), optional(b()), optional(c()), any());
    (optional((a(), b())), any());
    (optional(a()), (optional(b()), c()), eof());
    ((a(),), optional((b(), c())), value(1u8));
    or(a(), b()).and(or(b(), c()));
    choice((a().with(b()), b().with(c()), c()));
    choice((attempt((a(), b())), attempt((a(), c())), (a(), any())));
    choice([(a(), b()), (b(), c()), (c(), a())]);
    choice([attempt((a(), b())), attempt((a(), c())), attempt((b(), a()))]).and(any());
    choice([(optional(a()), b()), (optional(c()), a()), (optional(b()), c())]);
    (optional(attempt((a(), b()))), any(), any());
    attempt((a(), any(), b())).map(|x| x.1).or((a(), any(), c()).map(|x| x.1));
    attempt((optional(a()), b(), c())).map(|x| x.2).or(any());
    attempt(attempt((a(), b())).and(c())).map(|_| 1).or((a(), b(), a()).map(|_| 2)).or(a().map(|_| 3));
    look_ahead((a(), b())).map(|x| x.1).and(any()).and(any());
    (look_ahead(optional(a())), look_ahead(any()), any());
    optional(look_ahead(a().with(any()))).and(any());
    (not_followed_by(bc()), any(), optional(any()));
    (any(), not_followed_by(a().map(|_| "a")), any());
    not_followed_by(attempt(bc())).and(b()).and(any());
    (a(), not_followed_by(any().map(|_| "any")));
    any().then(|x| (any(), token(x)));
    (optional(a()), any().then(|x| attempt((any(), token(x))).map(|y| y.0).or(any())));
    any().then_partial(|x| { let x = *x; (any(), token(x)) });
    optional(a()).then_partial(|x| { let n = x.is_some(); (any(), satisfy(move |y| n || y == b'b')) });
    any().then_ref(|x| (any(), token(*x)));
    optional(a()).then_ref(|_| (b(), c()));
    between(a(), c(), (any(), optional(b())));
    a().skip(b()).with(c().skip(optional(a()))).skip(eof());
    (a(), b()).map(|(x, y)| x as u32 * 256 + y as u32).and(any());
    (any(), any()).flat_map(|(x, y)| if x == y { Ok(x) } else { Err(err::<&[u8], W>()) });
    any().and_then(|x| if x == b'a' { Ok(x) } else { Err(StreamErrorFor::<W>::message_static_message("no")) }).and(any()).or((b(), a()));
    combine::struct_parser! { Fields { x: any(), _: b(), y: optional(c()) } };
    (a(), b(), c(), a(), optional(b()));
    (eof().map(|_| 0u8).or(any()), eof().map(|_| 0u8).or(any()), eof());
    satisfy_map(|x: u8| if x > b'a' { Some(x - 1) } else { None }).and(optional(satisfy(|x| x < b'c')));
    optional(optional(attempt(a().with(optional(b())).skip(c())))).and(optional(any()));
    or(attempt((look_ahead(any()), a(), b())), (look_ahead(a().or(b())), any(), any()));
    choice((a().with(any()), attempt(b().with(c())), b().with(a()), c().skip(optional(a())), any()));
    choice([attempt(look_ahead(a()).with(any().with(b()))), attempt(look_ahead(a()).with(any().with(c()))), attempt(look_ahead(b()).with(any().with(a())))]);
    (a(), optional(b()), c(), optional(a()), optional(b()), any());
    (optional(a()), optional(b()), optional(a()), optional(c()), optional(attempt((a(), b()))), optional(a()), eof());
    optional(choice((attempt((a(), b(), c())).map(|_| 1), attempt((a(), b())).map(|_| 2), (a(), any()).map(|_| 3)))).and(eof());
    combine::dispatch!(0u8; 0 => a().with(optional(b())), _ => c().with(optional(a())));
    any().then(|x| combine::dispatch!(x; b'a' => (b(), any()).map(|_| 1), b'b' => attempt((a(), any())).map(|_| 2), _ => value(3))).and(optional(any()));
    attempt(attempt(a().with(b())).or(a().with(c()))).and(any()).map(|_| 1).or((any(), any(), a()).map(|_| 2));
    (attempt((a(), a())).map(|_| ()).or(value(())), attempt((a(), b())).map(|_| ()).or(value(())), any());
    not_followed_by((a(), a()).map(|_| "aa")).with(any().and(optional(not_followed_by(b().map(|_| "b"))))).and(any());
    value(7u8).and(attempt((value(1u8), a())).or((value(2u8), any()))).and(any());
}

/// no repetition, no ranges
fn plain(p: &Pg) -> bool {
    use Pg::*;
    match p {
        Tok(_) | Any | Fail | Eof | Val(_) => true,
        Opt(a) | Look(a) | Not(a) | Attempt(a) => plain(a),
        Seq(a, b) | With(a, b) | Skip(a, b) | ThenP(a, b) | Or(a, b) | ChoiceSlice(a, b) => plain(a) && plain(b),
        _ => false,
    }
}

harnesses! {
    /// each of the grammars above on any input of up to 4 (thorough: 6) bytes, cut at any two (three) places, two messages with one state, on bare, error-collecting and positioned chunks
    fn h_c15_grammars[2] {
        let k = nd::choose(COUNT);
        let d = nd::bytes(0, q(4, 6));
        let cs = cuts(&d[..], q(2, 3));
        match nd::choose(3) {
            0 => split::<Part>(k, &d, &cs, 2),
            1 => split::<EasyPart>(k, &d, &cs, 2),
            _ => split::<PosPart>(k, &d, &cs, 2),
        };
    }
    /// byte by byte: any input of exactly 6 (thorough: 8) bytes
    fn h_c15_bytewise[2] {
        let k = nd::choose(COUNT);
        let d = nd::bytes_n(q(6, 8));
        let cs: Vec<usize> = (1..=d.len()).collect();
        split::<Part>(k, &d, &cs, 2);
    }
    /// every program of depth 1 or 2 without repetition, one cut
    fn h_c15_programs[2] {
        let p = match nd::choose(3) {
            0 => prog::unary(nd::choose(4), prog::unary(nd::choose(4), prog::leaf(nd::choose(5)))),
            1 => prog::unary(nd::choose(4), any_binary(0)),
            _ => any_binary(1),
        };
        nd::assume(plain(&p));
        let d = nd::bytes(q(3, 0), 3);
        let cs = cuts(&d[..], 1);
        chunks::<Part, _, _>(|| prog::build::<Part>(&p), &d[..], &cs, 1);
    }
}
fn any_binary(depth: usize) -> Pg {
    let sub = || {
        if depth == 0 || nd::flag() {
            prog::leaf(nd::choose(if depth == 0 { 5 } else { 3 }))
        } else if nd::flag() {
            prog::unary(nd::choose(4), prog::leaf(nd::choose(3)))
        } else {
            prog::binary(0, prog::leaf(nd::choose(3)), prog::leaf(1))
        }
    };
    let op = [0, 1, 8, 11][nd::choose(4)];
    prog::binary(op, sub(), sub())
}
