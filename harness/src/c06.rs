//! C06: choice.
use crate::nd::{self, q};
use crate::probe::*;
use combine::error::ParseResult::*;
use combine::choice;
use combine::parser::choice::or;
use combine::parser::combinator::no_partial;
use combine::parser::token::{token, value};
use combine::stream::easy;
use combine::{optional, Parser};

fn ch<P: combine::parser::choice::ChoiceParser<M>>(p: P) -> combine::parser::choice::Choice<P> {
    choice(p)
}
fn op<P: Parser<M>>(p: P) -> combine::parser::choice::Optional<P> {
    optional(p)
}
fn cm<'l>(a: Probe<'l>, b: Probe<'l>, c: Probe<'l>, d: Probe<'l>) -> impl Parser<M, Output = u8> + 'l {
    choice!(a, b, c, d)
}
fn alt_or<A: Parser<M>, B: Parser<M, Output = A::Output>>(a: A, b: B) -> combine::parser::choice::Or<A, B> {
    or(a, b)
}
/// `p` is a choice between probes 0..n: runs it `times` times and compares with the rule.
fn case<P>(n: usize, log: &Log, mut p: P, times: usize)
where
    P: Parser<Place, Output = u8>,
{
    let how = nd::choose(HOW);
    let mut s = Place::vague();
    for _ in 0..times {
        log.borrow_mut().clear();
        let start = s.at;
        let r = run(how, &mut p, &mut s);
        let l = log.borrow();
        chk!(l.len() >= 1 && l.len() <= n);
        for (i, e) in l.iter().enumerate() {
            chk!(e.id == i as u8);
            chk!(e.at == start);
            chk!(i + 1 == l.len() || e.kind == PERR);
        }
        let last = l[l.len() - 1];
        nd::obs(last.kind as u64);
        chk!(kind_of(&r) == last.kind);
        match &r {
            CommitOk(x) | PeekOk(x) => {
                chk!(*x == last.id);
                chk!(s.at == last.end);
                cov!(0);
            }
            CommitErr(_) => {
                chk!(s.at == last.end);
                return;
            }
            PeekErr(_) => {
                cov!(1);
                chk!(l.len() == n);
                if how < 2 {
                    // the entry points leave the input where it was
                    chk!(s.at <= start + 1);
                }
                return;
            }
        }
    }
}

type ES<'a> = easy::Stream<&'a [u8]>;
/// Adds what alternative `k` over token `t` expects at its first token.
fn firsts(k: usize, t: u8, out: &mut Vec<u8>) {
    if !out.contains(&t) {
        out.push(t);
    }
    if k == 1 && !out.contains(&(t + 1)) {
        out.push(t + 1);
    }
}
type BP<'a> = Box<dyn Parser<ES<'a>, Output = (), PartialState = ()> + 'a>;
fn alt<'a>(k: usize, t: u8) -> BP<'a> {
    match k {
        0 => Box::new(no_partial(token(t).map(|_| ()))),
        1 => Box::new(no_partial((optional(token(t + 1)), token(t)).map(|_| ()))),
        _ => Box::new(no_partial((value(()), token(t)).map(|_| ()))),
    }
}
/// The choice over `alts` failed on `d`: position, unexpected and expected have to be right.
fn err_check1<'a>(mut p: BP<'a>, alts: &[(usize, u8)], d: &'a [u8]) {
    let mut want = vec![];
    for (k, t) in alts {
        firsts(*k, *t, &mut want);
    }
    if d.len() > 0 {
        for w in &want {
            nd::assume(d[0] != *w);
        }
    }
    match Parser::parse(&mut p, easy::Stream(d)) {
        Ok(_) => chk!(false),
        Err(e) => {
            let mut seen = 0usize;
            chk!(e.position.0 == d.as_ptr() as usize);
            for x in &e.errors {
                match x {
                    easy::Error::Expected(easy::Info::Token(t)) => {
                        let mut i = 0;
                        while i < want.len() && want[i] != *t {
                            i += 1;
                        }
                        chk!(i < want.len());
                        seen |= 1 << i;
                    }
                    easy::Error::Unexpected(easy::Info::Token(t)) => chk!(d.len() > 0 && *t == d[0]),
                    easy::Error::Unexpected(_) => chk!(d.len() == 0 && *x == easy::Error::end_of_input()),
                    _ => chk!(false),
                }
            }
            chk!(seen == (1 << want.len()) - 1);
            let u = e.errors.iter().filter(|x| matches!(x, easy::Error::Unexpected(_))).count();
            chk!(u == 1);
            nd::obs(e.errors.len() as u64);
        }
    }
}

macro_rules! tup {
    ($l:expr; $($i:literal)*) => { ($( probe($i, $l), )*) };
}
harnesses! {
    /// tuple choice of 1, 2, 3, 4, 5, 8 and 26 alternatives with any outcomes, run up to twice (thorough three times), in each of four ways
    fn h_c06_tuple[2] {
        let l = log();
        let t = q(2, 3);
        match nd::choose(7) {
            0 => case(1, &l, ch(tup!(&l; 0)), t),
            1 => case(2, &l, ch(tup!(&l; 0 1)), t),
            2 => case(3, &l, ch(tup!(&l; 0 1 2)), t),
            3 => case(4, &l, ch(tup!(&l; 0 1 2 3)), t),
            4 => case(5, &l, ch(tup!(&l; 0 1 2 3 4)), t),
            5 => case(8, &l, ch(tup!(&l; 0 1 2 3 4 5 6 7)), t),
            _ => case(25, &l, ch(tup!(&l; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24)), 1),
        }
    }
    /// or, chains of or, the choice! macro, nested and borrowed choices
    fn h_c06_or[2] {
        let l = log();
        let p = |i| probe(i, &l);
        let t = q(2, 3);
        match nd::choose(7) {
            0 => case(2, &l, alt_or(p(0), p(1)), t),
            1 => case(3, &l, alt_or(alt_or(p(0), p(1)), p(2)), t),
            2 => case(3, &l, alt_or(p(0), alt_or(p(1), p(2))), t),
            3 => case(4, &l, cm(p(0), p(1), p(2), p(3)), t),
            4 => case(1, &l, combine::choice!(p(0)), t),
            5 => case(4, &l, ch((p(0), ch((p(1), p(2))), p(3))), t),
            _ => case(4, &l, ch((alt_or(p(0), p(1)), ch([p(2), p(3)]))), t),
        }
    }
    /// slice and array choices of 0..=6 alternatives with any outcomes, run up to twice (thorough three times)
    fn h_c06_slice[2] {
        let l = log();
        let t = q(2, 3);
        let n = nd::range(1, 6);
        let mut v: Vec<_> = (0..n).map(|i| probe(i as u8, &l)).collect();
        match nd::choose(3) {
            0 => case(n, &l, ch(&mut v[..]), t),
            1 => match n {
                1 => case(1, &l, ch([probe(0, &l)]), t),
                2 => case(2, &l, ch([probe(0, &l), probe(1, &l)]), t),
                3 => case(3, &l, ch([probe(0, &l), probe(1, &l), probe(2, &l)]), t),
                _ => case(5, &l, ch([probe(0, &l), probe(1, &l), probe(2, &l), probe(3, &l), probe(4, &l)]), t),
            },
            _ => {
                let mut a = [probe(0, &l), probe(1, &l), probe(2, &l)];
                case(3, &l, ch(&mut a), t)
            }
        }
    }
    /// an empty slice of alternatives fails without committing and without touching the input
    fn h_c06_empty[0] {
        let l = log();
        let mut v: Vec<Probe> = vec![];
        let mut s = Place::vague();
        let r = ch(&mut v[..]).parse_stream(&mut s);
        chk!(kind_of(&r) == PERR);
        let a: [Probe; 0] = [];
        let mut s = Place::vague();
        chk!(kind_of(&ch(a).parse_stream(&mut s)) == PERR);
        chk!(l.borrow().is_empty());
        let mut s = Place::vague();
        let mut v: Vec<Probe> = vec![];
        let at = s.at;
        let r = op(ch(&mut v[..])).parse_stream(&mut s);
        chk!(kind_of(&r) == POK && s.at == at);
    }
    /// alternatives that take up to two tokens before failing uncommitted, over streams with and without positions (iterator, slice, position-tracking, buffered): any input of up to 3 bytes
    fn h_c06_streams[2] {
        let d = nd::bytes(0, 3);
        let n = d.len();
        let g = |i: usize| if i < n { Some(d[i]) } else { None };
        let want: Option<(u8, usize)> = match (g(0), g(1), g(2)) {
            (Some(b'a'), Some(b'b'), Some(b'c')) => Some((1, 3)),
            (Some(b'a'), Some(b'b'), _) => Some((2, 2)),
            (Some(b'a'), Some(x), _) if x == b'c' || x == b'd' => Some((3, 2)),
            (Some(b'x'), _, _) | (Some(b'a'), _, _) => Some((4, 1)),
            _ => None,
        };
        match want { Some(_) => cov!(0), None => cov!(1) }
        let form = nd::choose(3);
        use combine::stream::{buffered, position, IteratorStream};
        match nd::choose(5) {
            0 => real(easy::Stream(&d[..]), want, n, form),
            1 => real(&d[..], want, n, form),
            2 => real(position::Stream::new(&d[..]), want, n, form),
            3 => real(buffered::Stream::new(easy::Stream(position::Stream::new(IteratorStream::new(d.clone().into_iter()))), 4), want, n, form),
            _ => real(position::Stream::new(IteratorStream::new(d.clone().into_iter())), want, n, form),
        }
    }
    /// real alternatives: 2 to 4 of {token, (optional token, token), (value, token)} over any tokens, failing on any input: the error lists exactly all expectations, as tuple, slice, array, or
    fn h_c06_errors[1] {
        let d = nd::bytes(0, 1);
        let n = nd::range(2, q(3, 4));
        let ks: Vec<(usize, u8)> = (0..n).map(|i| (nd::choose(3), b'a' + 2 * i as u8)).collect();
        cov!(0);
        err_forms(&ks, &d);
    }
}
fn err_forms<'a>(ks: &[(usize, u8)], d: &'a [u8]) {
    let a = |i: usize| alt::<'a>(ks[i].0, ks[i].1);
    let which = nd::choose(4);
    let p: BP<'a> = match (which, ks.len()) {
        (0, 2) => Box::new(no_partial(choice((a(0), a(1))))),
        (0, 3) => Box::new(no_partial(choice((a(0), a(1), a(2))))),
        (0, _) => Box::new(no_partial(choice((a(0), a(1), a(2), a(3))))),
        (1, 2) => Box::new(no_partial(a(0).or(a(1)))),
        (1, 3) => Box::new(no_partial(a(0).or(a(1)).or(a(2)))),
        (1, _) => Box::new(no_partial(a(0).or(a(1)).or(a(2)).or(a(3)))),
        (2, 2) => Box::new(no_partial(choice([a(0), a(1)]))),
        (2, 3) => Box::new(no_partial(choice([a(0), a(1), a(2)]))),
        (2, _) => Box::new(no_partial(choice([a(0), a(1), a(2), a(3)]))),
        (_, 2) => Box::new(no_partial(a(0).or(choice([a(1)])))),
        (_, 3) => Box::new(no_partial(choice((a(0), choice([a(1), a(2)]))))),
        (_, _) => Box::new(no_partial(choice((a(0), choice((a(1), a(2))), a(3))))),
    };
    err_check1(p, ks, d)
}

fn real<S: combine::Stream<Token = u8>>(s: S, want: Option<(u8, usize)>, n: usize, form: usize) {
    use combine::attempt;
    use combine::parser::token::{any, one_of};
    let a = || attempt((token(b'a'), token(b'b'), token(b'c'))).map(|_| 1u8);
    let b = || attempt((token(b'a'), token(b'b'))).map(|_| 2u8);
    let c = || attempt((token(b'a'), one_of(b"cd".iter().copied()))).map(|_| 3u8);
    let e = || one_of(b"ax".iter().copied()).map(|_| 4u8);
    let r = match form {
        0 => {
            let mut s = s;
            let r = choice((a(), b(), c(), e())).parse_stream(&mut s);
            end(r, s)
        }
        1 => {
            let mut s = s;
            let r = a().or(b()).or(c()).or(e()).parse_stream(&mut s);
            end(r, s)
        }
        _ => {
            let mut s = s;
            let r = choice([a().left().left(), b().right().left(), c().left().right(), e().right().right()]).parse_stream(&mut s);
            end(r, s)
        }
    };
    match (r, want) {
        (Some((x, left)), Some((y, used))) => chk!(x == y && left == n - used),
        (None, None) => (),
        _ => chk!(false),
    }
    fn end<S: combine::Stream<Token = u8>>(r: combine::ParseResult<u8, S::Error>, mut s: S) -> Option<(u8, usize)> {
        match r {
            CommitOk(x) => {
                let mut k = 0;
                while any().parse_stream(&mut s).is_ok() {
                    k += 1;
                }
                Some((x, k))
            }
            PeekOk(_) | CommitErr(_) => {
                chk!(false);
                None
            }
            PeekErr(_) => None,
        }
    }
}
