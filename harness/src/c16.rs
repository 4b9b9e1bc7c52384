//! C16: chunking never changes the result of repetition.
use crate::grammars;
use crate::nd::{self, q};
use crate::prog::{self, Pg};
use crate::split::*;
use combine::parser::choice::{choice, optional};
use combine::parser::combinator::{attempt, look_ahead};
use combine::parser::repeat::*;
use combine::parser::token::{any, eof, satisfy, token, Token};
use combine::{Parser, Stream};

fn a<S: Stream<Token = u8>>() -> Token<S> {
    token(b'a')
}
fn b<S: Stream<Token = u8>>() -> Token<S> {
    token(b'b')
}
fn c<S: Stream<Token = u8>>() -> Token<S> {
    token(b'c')
}
/// an item of one or two tokens
fn ab<S: Stream<Token = u8>>() -> impl Parser<S, Output = Option<u8>> {
    a().with(optional(b()))
}
type V = Vec<u8>;
type W2 = Vec<(u8, u8)>;
type VO = Vec<Option<u8>>;

grammars! { split COUNT [W [u8], u8]
    many::<V, _, _>(a()).and(any());
    many::<W2, _, _>((a(), b())).and(optional(any()));
    many::<W2, _, _>(attempt((a(), b()))).and(many::<V, _, _>(a()));
    many::<VO, _, _>(ab()).skip(eof());
    many1::<V, _, _>(a().or(b())).and(optional(c()));
    many1::<W2, _, _>(attempt((a(), any()))).skip(optional(a()));
    optional(many1::<VO, _, _>(ab())).and(many1::<V, _, _>(b()));
    skip_many(a().or(b().with(c()))).and(eof());
    skip_many1((optional(a()), b())).and(any());
    many::<Vec<V>, _, _>(many1::<V, _, _>(a()).skip(b())).and(optional(c()));
    many::<Vec<V>, _, _>(b().with(many::<V, _, _>(a())));
    many::<Vec<V>, _, _>(attempt(many1::<V, _, _>(a()).skip(b())));
    count::<V, _, _>(2, a()).and(any());
    count::<W2, _, _>(2, (a(), b())).and(optional(a()));
    skip_count(3, a().or(b())).and(any());
    count_min_max::<V, _, _>(1, 2, a()).and(many::<V, _, _>(any()));
    count_min_max::<VO, _, _>(2, 3, ab()).and(optional(b()));
    count_min_max::<W2, _, _>(2, 2, attempt((a(), b()))).map(|v| v.len()).or(count::<V, _, _>(3, any()).map(|v| v.len()));
    attempt(count_min_max::<V, _, _>(2, 3, a())).or(many1::<V, _, _>(any()));
    skip_count_min_max(1, 2, (a(), optional(b()))).and(eof());
    many::<Vec<V>, _, _>(count_min_max::<V, _, _>(1, 2, a()).skip(b()));
    sep_by::<V, _, _, _>(a(), b()).and(optional(any()));
    sep_by::<VO, _, _, _>(ab(), c()).and(eof());
    sep_by::<V, _, _, _>(a(), optional(b())).and(optional(any()));
    sep_by::<V, _, _, _>(a(), attempt((b(), c()))).and(optional((b(), b())));
    sep_by1::<V, _, _, _>(a().or(b()), c()).and(optional(any()));
    sep_by1::<W2, _, _, _>((a(), b()), c().with(optional(c()))).skip(eof());
    sep_by1::<Vec<V>, _, _, _>(many1::<V, _, _>(a()), b());
    sep_by::<Vec<V>, _, _, _>(sep_by1::<V, _, _, _>(a(), b()), c());
    optional(attempt(sep_by1::<V, _, _, _>(a(), b()))).and(many::<V, _, _>(any()));
    sep_end_by::<V, _, _, _>(a(), b()).and(optional(any()));
    sep_end_by::<VO, _, _, _>(ab(), c()).and(eof());
    sep_end_by1::<V, _, _, _>(a(), b().skip(optional(c()))).and(optional(any()));
    sep_end_by1::<W2, _, _, _>((a(), b()), c()).skip(eof());
    sep_end_by::<W2, _, _, _>(attempt((a(), b())), c()).and(many::<V, _, _>(any()));
    sep_end_by::<Vec<V>, _, _, _>(sep_end_by1::<V, _, _, _>(a(), b()), c());
    chainl1(any().map(|x| x as u32), b().map(|_| |l: u32, r: u32| l.wrapping_mul(31).wrapping_add(r))).and(optional(any()));
    chainl1(a().with(optional(b())).map(|x| x.is_some() as u32), c().skip(optional(c())).map(|_| |l: u32, r: u32| l * 3 + r)).skip(eof());
    chainl1(optional(a()).map(|x| x.is_some() as u32), attempt(b().with(c())).map(|_| |l: u32, r: u32| l * 3 + r)).and(optional(any()));
    chainr1(any().map(|x| x as u32), b().map(|_| |l: u32, r: u32| l.wrapping_mul(31).wrapping_add(r))).and(optional(any()));
    chainr1(a().with(optional(b())).map(|x| x.is_some() as u32), c().map(|_| |l: u32, r: u32| l * 3 + r));
    take_until::<V, _, _>(c()).and(any());
    take_until::<V, _, _>(attempt((a(), b()))).and((any(), any()));
    take_until::<V, _, _>((a(), b()).map(|_| ())).and(any());
    skip_until(attempt((optional(a()), b()))).and(any());
    take_until::<V, _, _>(look_ahead(b())).with(many1::<V, _, _>(b()));
    take_until::<V, _, _>(many1::<V, _, _>(b()).skip(eof())).and(any());
    repeat_until::<V, _, _, _>(a().or(b()), c()).and(any());
    repeat_until::<VO, _, _, _>(ab(), attempt((b(), c()))).and(optional(any()));
    repeat_until::<W2, _, _, _>((any(), any()), attempt((a(), b()))).and(any());
    repeat_until::<W2, _, _, _>((a(), any()), eof());
    repeat_skip_until((a(), any()), b()).and(any());
    escaped(satisfy(|x| x != b'a' && x != b'c'), b'a', b().or(c())).and(any());
    escaped(many1::<V, _, _>(b()), b'a', (b(), optional(c())));
    iterate::<Vec<V>, _, _, _, _>(0..3, |i: &usize, _: &mut W| count_min_max(*i, *i, any::<W>())).and(optional(any()));
    iterate::<VO, _, _, _, _>(0..2, |_: &usize, _: &mut W| ab::<W>()).and(optional(b()));
    iterate::<V, _, _, _, _>(vec![b'a', b'b'], |t: &u8, _: &mut W| token::<W>(*t).skip(optional(c()))).and(eof());
    attempt(iterate::<V, _, _, _, _>(vec![b'a', b'b', b'a'], |t: &u8, _: &mut W| token::<W>(*t))).or(many1::<V, _, _>(a().or(b())));
    any().then(|n| count::<V, _, _>((n & 3) as usize, any())).and(optional(any()));
    any().then_partial(|n| { let n = (*n & 3) as usize; count_min_max::<V, _, _>(n, n, any()) }).and(any());
    many::<Vec<(u8, V)>, _, _>(any().then_ref(|n| count::<V, _, _>((*n & 1) as usize, a())));
    choice((many1::<V, _, _>(a()).skip(b()), attempt(many1::<V, _, _>(b()).skip(c())), many1::<V, _, _>(any())));
    choice([many1::<V, _, _>(a()), many1::<V, _, _>(a()), many1::<V, _, _>(a())]).and(optional(any()));
    (many::<V, _, _>(a()), many::<V, _, _>(b()), many::<V, _, _>(a()), eof());
    take_until::<V, _, _>(iterate::<Vec<V>, _, _, _, _>(0..2u8, |i: &u8, _: &mut W| { let t = b'a' + *i; count_min_max::<V, W, _>(*i as usize, 1, satisfy(move |x| x == t)) })).and(any());
    take_until::<V, _, _>(repeat_until::<V, _, _, _>(a(), c())).and(any());
    take_until::<V, _, _>(count_min_max::<Vec<V>, _, _>(2, 2, count::<V, _, _>(1, a()).skip(optional(b())))).and(any());
    optional(repeat_until::<W2, _, _, _>(attempt((a(), b())), c())).and(any());
    optional(many1::<W2, _, _>(attempt((a(), b())))).and(any());
    optional(count_min_max::<W2, _, _>(1, 2, attempt((a(), b())))).and(any());
    optional(sep_by1::<W2, _, _, _>(attempt((a(), b())), c())).and(any());
    optional(sep_end_by1::<W2, _, _, _>(attempt((a(), b())), c())).and(any());
    optional(chainl1(attempt((a(), b())), c().map(|_| |l: (u8, u8), _: (u8, u8)| l))).and(any());
    optional(chainr1(attempt((a(), b())), c().map(|_| |l: (u8, u8), _: (u8, u8)| l))).and(any());
    optional(iterate::<W2, _, _, _, _>(0..2u8, |_: &u8, _: &mut W| attempt((a::<W>(), b::<W>())))).and(any());
    optional(escaped(attempt((a(), b())).map(|_| ()), b'c', attempt((a(), b())))).and(any());
    optional(iterate::<Vec<V>, _, _, _, _>(0..2u8, |i: &u8, _: &mut W| { let t = b'a' + *i; count_min_max::<V, W, _>(*i as usize, 1, satisfy(move |x| x == t)) })).and(any());
    look_ahead(many1::<V, _, _>(a()).skip(b())).and(many::<V, _, _>(any()));
}
/// something repeated
fn repeats(p: &Pg) -> bool {
    use Pg::*;
    match p {
        Tok(_) | Any | Fail | Eof | Val(_) | TakeWhile(_) | TakeWhile1(_) => false,
        Opt(a) | Look(a) | Not(a) | Attempt(a) | Recog(a) => repeats(a),
        Seq(a, b) | With(a, b) | Skip(a, b) | ThenP(a, b) | Or(a, b) | ChoiceSlice(a, b) => repeats(a) || repeats(b),
        _ => true,
    }
}

harnesses! {
    /// each of the grammars above on any input of up to 4 (thorough: 5) bytes, cut at any two (three) places, two messages with one state, on bare, error-collecting and positioned chunks
    fn h_c16_grammars[2] {
        let k = nd::choose(COUNT);
        let d = nd::bytes(0, q(4, 5));
        let cs = cuts(&d[..], q(2, 3));
        match nd::choose(3) {
            0 => split::<Part>(k, &d, &cs, 2),
            1 => split::<EasyPart>(k, &d, &cs, 2),
            _ => split::<PosPart>(k, &d, &cs, 2),
        };
    }
    /// byte by byte: any input of exactly 6 (thorough: 8) bytes, three messages
    fn h_c16_bytewise[2] {
        let k = nd::choose(COUNT);
        let d = nd::bytes_n(q(6, 8));
        let cs: Vec<usize> = (1..=d.len()).collect();
        split::<Part>(k, &d, &cs, 3);
    }
    /// every program of depth 1 or 2 with a repetition in it, one cut
    fn h_c16_programs[2] {
        let p = match nd::choose(2) {
            0 => prog::unary(nd::choose(prog::UNARY), prog::any_prog(1, 3)),
            _ => { let op = nd::choose(prog::BINARY); let x = prog::any_prog(1, 2); prog::binary(op, x, prog::leaf(nd::choose(3))) }
        };
        nd::assume(repeats(&p) && prog::wellformed(&p));
        let d = nd::bytes(q(3, 0), 3);
        let cs = cuts(&d[..], 1);
        chunks::<Part, _, _>(|| prog::build::<Part>(&p), &d[..], &cs, 1);
    }
}
