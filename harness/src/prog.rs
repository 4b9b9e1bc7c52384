//! Parser programs: a small abstract syntax, its construction out of the crate's combinators, and
//! an independent interpreter that says what an LL(1) parser combinator has to do with it.
use combine::error::ParseResult::{self, *};
use combine::parser::choice::{choice, optional, or};
use combine::parser::combinator::{any_partial_state, attempt, lazy, look_ahead, not_followed_by};
use combine::parser::sequence::between;
use combine::error::StreamError;
use combine::parser::error::unexpected_any;
use combine::parser::range::{range, recognize, take, take_while, take_while1};
use combine::parser::repeat::*;
use combine::parser::token::{any, eof, token, tokens, value};
use combine::parser::Parser;
use combine::stream::{RangeStream, StreamErrorFor};

pub type V = Vec<u8>;

#[derive(Clone, Debug)]
pub enum Pg {
    Tok(u8),
    Any,
    Eof,
    Val(u8),
    Fail,
    Seq(Box<Pg>, Box<Pg>),
    With(Box<Pg>, Box<Pg>),
    Skip(Box<Pg>, Box<Pg>),
    Or(Box<Pg>, Box<Pg>),
    ChoiceSlice(Box<Pg>, Box<Pg>),
    Attempt(Box<Pg>),
    Opt(Box<Pg>),
    Look(Box<Pg>),
    Not(Box<Pg>),
    Many(Box<Pg>),
    Many1(Box<Pg>),
    SkipMany(Box<Pg>),
    Count(usize, usize, Box<Pg>),
    SepBy(Box<Pg>, Box<Pg>),
    SepBy1(Box<Pg>, Box<Pg>),
    SepEndBy(Box<Pg>, Box<Pg>),
    SepEndBy1(Box<Pg>, Box<Pg>),
    Chainl(Box<Pg>, Box<Pg>),
    RepeatUntil(Box<Pg>, Box<Pg>),
    TakeUntil(Box<Pg>),
    ThenP(Box<Pg>, Box<Pg>),
    /// then_ref
    ThenR(Box<Pg>, Box<Pg>),
    /// the first if the next token is an 'a', else the second (by look_ahead and then)
    If(Box<Pg>, Box<Pg>),
    Recog(Box<Pg>),
    TakeWhile(u8),
    TakeWhile1(u8),
    Iter(usize, Box<Pg>),
    /// the literal "ab": as tokens, as a range
    Toks,
    Lit,
    /// n bytes
    Take(usize),
    Chainr(Box<Pg>, Box<Pg>),
    ChoiceTuple(Box<Pg>, Box<Pg>),
    Seq3(Box<Pg>, Box<Pg>, Box<Pg>),
    /// between(b, b, a)
    Between(Box<Pg>, Box<Pg>),
    SkipMany1(Box<Pg>),
    SkipCount(usize, usize, Box<Pg>),
    RepeatSkipUntil(Box<Pg>, Box<Pg>),
    SkipUntil(Box<Pg>),
    /// fails if what is parsed holds a 'b'
    AndThen(Box<Pg>),
    /// labelled
    Label(Box<Pg>),
    Msg(Box<Pg>),
    Silent(Box<Pg>),
    /// behind `lazy`
    Lazy(Box<Pg>),
}
use Pg::*;

/// A parser whose state has no lifetime in its type.
struct Keep<P>(P);
pub struct Erased(*mut (), unsafe fn(*mut ()));
impl Default for Erased {
    fn default() -> Self {
        Erased(std::ptr::null_mut(), |_| ())
    }
}
impl Drop for Erased {
    fn drop(&mut self) {
        unsafe { (self.1)(self.0) }
    }
}
impl<I: combine::Stream, P: Parser<I>> Parser<I> for Keep<P> {
    type Output = P::Output;
    type PartialState = Erased;
    combine::parse_mode!(I);
    fn parse_mode_impl<M: combine::parser::ParseMode>(&mut self, mode: M, input: &mut I, state: &mut Erased) -> ParseResult<P::Output, I::Error> {
        if state.0.is_null() {
            *state = Erased(Box::into_raw(Box::<P::PartialState>::default()) as *mut (), |p| drop(unsafe { Box::from_raw(p as *mut P::PartialState) }));
        }
        let inner = unsafe { &mut *(state.0 as *mut P::PartialState) };
        self.0.parse_mode(mode, input, inner)
    }
    fn add_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        self.0.add_error(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn parser_count(&self) -> combine::ErrorOffset {
        self.0.parser_count()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    COk(V),
    POk(V),
    CErr,
    PErr,
}
use R::*;

impl R {
    pub fn kind(&self) -> u64 {
        match self {
            COk(_) => 0,
            POk(_) => 1,
            CErr => 2,
            PErr => 3,
        }
    }
}

fn list(items: &[V]) -> V {
    let mut o = vec![items.len() as u8];
    for i in items {
        o.extend_from_slice(i);
    }
    o
}
fn pair(a: &V, b: &V) -> V {
    let mut o = a.clone();
    o.extend_from_slice(b);
    o
}
fn opt(a: &Option<V>) -> V {
    match a {
        None => vec![0],
        Some(x) => {
            let mut o = vec![1];
            o.extend_from_slice(x);
            o
        }
    }
}
fn fold(l: V, op: V, r: V) -> V {
    let mut o = vec![b'('];
    o.extend_from_slice(&l);
    o.extend_from_slice(&op);
    o.extend_from_slice(&r);
    o.push(b')');
    o
}

/// May this program succeed without taking anything?
pub fn nullable(p: &Pg) -> bool {
    match p {
        Tok(_) | Any | Fail | TakeWhile1(_) | Toks | Lit => false,
        Take(n) => *n == 0,
        RepeatSkipUntil(..) | SkipUntil(_) => true,
        Seq3(a, b, c) => nullable(a) && nullable(b) && nullable(c),
        Between(a, b) => nullable(a) && nullable(b),
        ChoiceTuple(a, b) => nullable(a) || nullable(b),
        SkipMany1(a) | AndThen(a) | Label(a) | Msg(a) | Silent(a) | Lazy(a) | Chainr(a, _) => nullable(a),
        Eof | Val(_) | Opt(_) | Look(_) | Not(_) | Many(_) | SkipMany(_) | SepBy(..) | SepEndBy(..) | TakeUntil(_) | TakeWhile(_) => true,
        RepeatUntil(..) => true,
        Seq(a, b) | With(a, b) | Skip(a, b) | ThenP(a, b) | ThenR(a, b) => nullable(a) && nullable(b),
        Or(a, b) | ChoiceSlice(a, b) | If(a, b) => nullable(a) || nullable(b),
        Attempt(a) | Many1(a) | Recog(a) => nullable(a),
        Count(n, _, a) | SkipCount(n, _, a) => *n == 0 || nullable(a),
        Iter(n, a) => *n == 0 || nullable(a),
        SepBy1(a, _) | SepEndBy1(a, _) | Chainl(a, _) => nullable(a),
    }
}
/// No loop whose body may succeed without taking anything (those do not terminate, by design).
pub fn wellformed(p: &Pg) -> bool {
    match p {
        Tok(_) | Any | Fail | Eof | Val(_) | TakeWhile(_) | TakeWhile1(_) | Toks | Lit | Take(_) => true,
        SkipUntil(a) | AndThen(a) | Label(a) | Msg(a) | Silent(a) | Lazy(a) | SkipCount(_, _, a) => wellformed(a),
        SkipMany1(a) => wellformed(a) && !nullable(a),
        Seq3(a, b, c) => wellformed(a) && wellformed(b) && wellformed(c),
        Between(a, b) | ChoiceTuple(a, b) => wellformed(a) && wellformed(b),
        Chainr(a, s) => wellformed(a) && wellformed(s) && !(nullable(a) && nullable(s)),
        RepeatSkipUntil(a, e) => wellformed(a) && wellformed(e) && !nullable(a),
        Opt(a) | Look(a) | Not(a) | Attempt(a) | Count(_, _, a) | TakeUntil(a) | Recog(a) | Iter(_, a) => wellformed(a),
        Many(a) | SkipMany(a) | Many1(a) => wellformed(a) && !nullable(a),
        Seq(a, b) | With(a, b) | Skip(a, b) | ThenP(a, b) | ThenR(a, b) | If(a, b) | Or(a, b) | ChoiceSlice(a, b) => wellformed(a) && wellformed(b),
        SepBy(a, s) | SepBy1(a, s) | Chainl(a, s) => wellformed(a) && wellformed(s) && !(nullable(a) && nullable(s)),
        SepEndBy(a, s) | SepEndBy1(a, s) => wellformed(a) && wellformed(s) && !nullable(s),
        RepeatUntil(a, e) => wellformed(a) && wellformed(e) && !nullable(a),
    }
}

/// Recorded deviation: `take_until` / `repeat_until` fail without commitment after having taken
/// input.
pub const UNTIL: u32 = 1;
/// The reference interpreter. `pos` is where the program starts and, after success, where it ends.
pub fn ev(p: &Pg, inp: &[u8], pos: &mut usize, q: u32) -> R {
    fn join(c1: bool, c2: bool, v: V) -> R {
        if c1 || c2 {
            COk(v)
        } else {
            POk(v)
        }
    }
    fn seq(a: &Pg, b: &Pg, inp: &[u8], pos: &mut usize, q: u32, f: &dyn Fn(&V, &V) -> V) -> R {
        let (x, c) = match ev(a, inp, pos, q) {
            COk(x) => (x, true),
            POk(x) => (x, false),
            e => return e,
        };
        match ev(b, inp, pos, q) {
            COk(y) => COk(f(&x, &y)),
            POk(y) => join(c, false, f(&x, &y)),
            CErr => CErr,
            PErr => {
                if c {
                    CErr
                } else {
                    PErr
                }
            }
        }
    }
    fn sep(a: &Pg, s: &Pg, inp: &[u8], pos: &mut usize, q: u32, ending: bool) -> R {
        let mut items = vec![];
        let mut c = match ev(a, inp, pos, q) {
            COk(x) => {
                items.push(x);
                true
            }
            POk(x) => {
                items.push(x);
                false
            }
            e => return e,
        };
        loop {
            let before = *pos;
            let mut c2 = match ev(s, inp, pos, q) {
                COk(_) => true,
                POk(_) => false,
                CErr => return CErr,
                PErr => {
                    *pos = before;
                    break;
                }
            };
            let mid = *pos;
            match ev(a, inp, pos, q) {
                COk(x) => {
                    c2 = true;
                    items.push(x);
                }
                POk(x) => items.push(x),
                CErr => return CErr,
                PErr => {
                    if ending {
                        *pos = mid;
                        c |= c2;
                        break;
                    }
                    if c2 {
                        return CErr;
                    }
                    *pos = before;
                    break;
                }
            }
            c |= c2;
        }
        join(c, false, list(&items))
    }
    let start = *pos;
    match p {
        Tok(c) => {
            if start < inp.len() && inp[start] == *c {
                *pos += 1;
                COk(vec![*c])
            } else {
                PErr
            }
        }
        Any => {
            if start < inp.len() {
                *pos += 1;
                COk(vec![inp[start]])
            } else {
                PErr
            }
        }
        Eof => {
            if start == inp.len() {
                POk(vec![])
            } else {
                PErr
            }
        }
        Val(x) => POk(vec![*x]),
        Fail => PErr,
        // `tokens` takes what matches; a range is taken whole or not at all
        Toks => match inp[start..] {
            [b'a', b'b', ..] => {
                *pos += 2;
                COk(vec![b'a', b'b'])
            }
            [b'a', ..] => CErr,
            _ => PErr,
        },
        Lit => match inp[start..] {
            [b'a', b'b', ..] => {
                *pos += 2;
                COk(vec![b'a', b'b'])
            }
            _ => PErr,
        },
        Take(n) => {
            if inp.len() - start < *n {
                PErr
            } else {
                *pos += *n;
                join(*n > 0, false, inp[start..*pos].to_vec())
            }
        }
        Seq3(a, b, c) => {
            let ab = Seq(a.clone(), b.clone());
            seq(&ab, c, inp, pos, q, &|x, y| pair(x, y))
        }
        Between(a, b) => {
            let ba = With(b.clone(), a.clone());
            seq(&ba, b, inp, pos, q, &|x, _| x.clone())
        }
        AndThen(a) => match ev(a, inp, pos, q) {
            COk(x) => if x.contains(&b'b') { CErr } else { COk(x) },
            POk(x) => if x.contains(&b'b') { PErr } else { POk(x) },
            e => e,
        },
        Label(a) | Msg(a) | Silent(a) | Lazy(a) => ev(a, inp, pos, q),
        SkipCount(..) | RepeatSkipUntil(..) => {
            let keep = match p {
                SkipCount(n, m, a) => Count(*n, *m, a.clone()),
                RepeatSkipUntil(a, e) => RepeatUntil(a.clone(), e.clone()),
                _ => unreachable!(),
            };
            match ev(&keep, inp, pos, q) {
                COk(_) => COk(vec![]),
                POk(_) => POk(vec![]),
                e => e,
            }
        }
        SkipUntil(e) => match ev(&TakeUntil(e.clone()), inp, pos, q) {
            COk(_) => COk(vec![]),
            POk(_) => POk(vec![]),
            e => e,
        },
        Chainr(a, o) => {
            let (mut l, mut c) = match ev(a, inp, pos, q) {
                COk(x) => (x, true),
                POk(x) => (x, false),
                e => return e,
            };
            let before = *pos;
            match ev(o, inp, pos, q) {
                PErr => *pos = before,
                CErr => return CErr,
                r @ (COk(_) | POk(_)) => {
                    let (op, c1) = match r {
                        COk(op) => (op, true),
                        POk(op) => (op, false),
                        _ => unreachable!(),
                    };
                    match ev(p, inp, pos, q) {
                        COk(r) => {
                            l = fold(l, op, r);
                            c = true;
                        }
                        POk(r) => {
                            l = fold(l, op, r);
                            c |= c1;
                        }
                        CErr => return CErr,
                        PErr => {
                            if c1 {
                                return CErr;
                            }
                            *pos = before;
                        }
                    }
                }
            }
            join(c, false, l)
        }
        Seq(a, b) => seq(a, b, inp, pos, q, &|x, y| pair(x, y)),
        With(a, b) => seq(a, b, inp, pos, q, &|_, y| y.clone()),
        Skip(a, b) => seq(a, b, inp, pos, q, &|x, _| x.clone()),
        ThenR(a, b) => seq(a, b, inp, pos, q, &|x, y| pair(x, y)),
        If(a, b) => ev(if inp.get(start) == Some(&b'a') { a } else { b }, inp, pos, q),
        ThenP(a, b) => seq(a, b, inp, pos, q, &|x, y| pair(y, x)),
        Or(a, b) | ChoiceSlice(a, b) | ChoiceTuple(a, b) => match ev(a, inp, pos, q) {
            PErr => {
                *pos = start;
                ev(b, inp, pos, q)
            }
            r => r,
        },
        Attempt(a) => match ev(a, inp, pos, q) {
            CErr => PErr,
            r => r,
        },
        Opt(a) => match ev(a, inp, pos, q) {
            COk(x) => COk(opt(&Some(x))),
            POk(x) => POk(opt(&Some(x))),
            CErr => CErr,
            PErr => {
                *pos = start;
                POk(opt(&None))
            }
        },
        Look(a) => match ev(a, inp, pos, q) {
            COk(x) | POk(x) => {
                *pos = start;
                POk(x)
            }
            r => r,
        },
        Not(a) => match ev(a, inp, pos, q) {
            COk(_) | POk(_) => PErr,
            _ => {
                *pos = start;
                POk(vec![])
            }
        },
        Many(a) | SkipMany(a) | Many1(a) | SkipMany1(a) => {
            let mut items = vec![];
            let mut c = false;
            loop {
                let before = *pos;
                match ev(a, inp, pos, q) {
                    COk(x) => {
                        c = true;
                        items.push(x);
                    }
                    POk(x) => items.push(x),
                    CErr => return CErr,
                    PErr => {
                        if matches!(p, Many1(_) | SkipMany1(_)) && items.is_empty() {
                            return PErr;
                        }
                        *pos = before;
                        break;
                    }
                }
            }
            join(c, false, if matches!(p, SkipMany(_) | SkipMany1(_)) { vec![] } else { list(&items) })
        }
        Count(min, max, a) => {
            let mut items = vec![];
            let mut c = false;
            while items.len() < *max {
                let before = *pos;
                match ev(a, inp, pos, q) {
                    COk(x) => {
                        c = true;
                        items.push(x);
                    }
                    POk(x) => items.push(x),
                    CErr => return CErr,
                    PErr => {
                        *pos = before;
                        break;
                    }
                }
            }
            if items.len() < *min {
                if c {
                    CErr
                } else {
                    PErr
                }
            } else {
                join(c, false, list(&items))
            }
        }
        Iter(n, a) => {
            let mut items = vec![];
            let mut c = false;
            for i in 0..*n {
                match ev(a, inp, pos, q) {
                    COk(x) => {
                        c = true;
                        items.push(pair(&vec![i as u8], &x));
                    }
                    POk(x) => items.push(pair(&vec![i as u8], &x)),
                    CErr => return CErr,
                    PErr => return if c { CErr } else { PErr },
                }
            }
            join(c, false, list(&items))
        }
        SepBy1(a, s) => sep(a, s, inp, pos, q, false),
        SepEndBy1(a, s) => sep(a, s, inp, pos, q, true),
        SepBy(a, s) | SepEndBy(a, s) => match sep(a, s, inp, pos, q, matches!(p, SepEndBy(..))) {
            PErr => {
                *pos = start;
                POk(vec![0])
            }
            r => r,
        },
        Chainl(a, o) => {
            let (mut l, mut c) = match ev(a, inp, pos, q) {
                COk(x) => (x, true),
                POk(x) => (x, false),
                e => return e,
            };
            loop {
                let before = *pos;
                let (op, c1) = match ev(o, inp, pos, q) {
                    COk(x) => (x, true),
                    POk(x) => (x, false),
                    CErr => return CErr,
                    PErr => {
                        *pos = before;
                        break;
                    }
                };
                match ev(a, inp, pos, q) {
                    COk(x) => {
                        l = fold(l, op, x);
                        c = true;
                    }
                    POk(x) => {
                        l = fold(l, op, x);
                        c |= c1;
                    }
                    CErr => return CErr,
                    PErr => {
                        if c1 {
                            return CErr;
                        }
                        *pos = before;
                        break;
                    }
                }
            }
            join(c, false, l)
        }
        RepeatUntil(a, e) => {
            let mut items = vec![];
            let mut c = false;
            loop {
                let before = *pos;
                match ev(e, inp, pos, q) {
                    COk(_) => {
                        *pos = before;
                        return join(c, true, list(&items));
                    }
                    POk(_) => {
                        *pos = before;
                        return join(c, false, list(&items));
                    }
                    CErr => return CErr,
                    PErr => *pos = before,
                }
                match ev(a, inp, pos, q) {
                    COk(x) => {
                        c = true;
                        items.push(x);
                    }
                    POk(x) => items.push(x),
                    CErr => return CErr,
                    PErr => return if c && q & UNTIL == 0 { CErr } else { PErr },
                }
            }
        }
        TakeUntil(e) => {
            let mut items = vec![];
            loop {
                let before = *pos;
                match ev(e, inp, pos, q) {
                    COk(_) => {
                        *pos = before;
                        return join(!items.is_empty(), true, items);
                    }
                    POk(_) => {
                        *pos = before;
                        return join(!items.is_empty(), false, items);
                    }
                    CErr => return CErr,
                    PErr => *pos = before,
                }
                if *pos == inp.len() {
                    return if items.is_empty() || q & UNTIL != 0 { PErr } else { CErr };
                }
                items.push(inp[*pos]);
                *pos += 1;
            }
        }
        Recog(a) => match ev(a, inp, pos, q) {
            COk(_) | POk(_) => join(*pos > start, false, inp[start..*pos].to_vec()),
            r => r,
        },
        TakeWhile(c) | TakeWhile1(c) => {
            while *pos < inp.len() && inp[*pos] == *c {
                *pos += 1;
            }
            let v = inp[start..*pos].to_vec();
            if !v.is_empty() {
                COk(v)
            } else if matches!(p, TakeWhile(_)) {
                POk(v)
            } else {
                PErr
            }
        }
    }
}

pub type BP<'p, S> = Box<dyn Parser<S, Output = V, PartialState = Erased> + 'p>;

/// Builds the program out of the crate's combinators.
pub fn build<'a, 'p, S>(p: &Pg) -> BP<'p, S>
where
    S: RangeStream<Token = u8, Range = &'a [u8]> + 'p,
    'a: 'p,
{
    macro_rules! bx {
        ($e:expr) => {
            Box::new(Keep($e)) as BP<'p, S>
        };
    }
    match p {
        Tok(c) => bx!(token(*c).map(|x| vec![x])),
        Any => bx!(any().map(|x| vec![x])),
        Eof => bx!(eof().map(|_| vec![])),
        Val(x) => bx!(value(vec![*x])),
        Fail => bx!(unexpected_any::<S, _, V>("fail")),
        Seq(a, b) => bx!((build::<S>(a), build::<S>(b)).map(|(x, y)| pair(&x, &y))),
        With(a, b) => bx!(build::<S>(a).with(build::<S>(b))),
        Skip(a, b) => bx!(build::<S>(a).skip(build::<S>(b))),
        ThenR(a, b) => {
            let b = (**b).clone();
            bx!(build::<S>(a).then_ref(move |_: &V| build::<S>(&b)).map(|(x, y)| pair(&x, &y)))
        }
        If(a, b) => {
            let (a, b) = ((**a).clone(), (**b).clone());
            bx!(look_ahead(optional(any())).then(move |x| build::<S>(if x == Some(b'a') { &a } else { &b })))
        }
        ThenP(a, b) => {
            let b = (**b).clone();
            bx!(build::<S>(a).then_partial(move |x: &mut V| {
                let x = x.clone();
                build::<S>(&b).map(move |y| pair(&y, &x))
            }))
        }
        Or(a, b) => bx!(or(build::<S>(a), build::<S>(b))),
        ChoiceSlice(a, b) => bx!(choice([build::<S>(a), build::<S>(b)])),
        Attempt(a) => bx!(attempt(build::<S>(a))),
        Opt(a) => bx!(optional(build::<S>(a)).map(|x| opt(&x))),
        Look(a) => bx!(look_ahead(build::<S>(a))),
        Not(a) => bx!(not_followed_by(build::<S>(a).map(|_| "x")).map(|_| vec![])),
        Many(a) => bx!(many::<Vec<V>, _, _>(build::<S>(a)).map(|v| list(&v))),
        Many1(a) => bx!(many1::<Vec<V>, _, _>(build::<S>(a)).map(|v| list(&v))),
        SkipMany(a) => bx!(skip_many(build::<S>(a)).map(|_| vec![])),
        Count(n, m, a) => bx!(count_min_max::<Vec<V>, _, _>(*n, *m, build::<S>(a)).map(|v| list(&v))),
        Iter(n, a) => {
            let a = (**a).clone();
            bx!(iterate::<Vec<V>, _, _, S, _>(0..*n, move |i: &usize, _: &mut S| {
                let i = *i as u8;
                build::<S>(&a).map(move |x| pair(&vec![i], &x))
            })
            .map(|v| list(&v)))
        }
        SepBy(a, s) => bx!(sep_by::<Vec<V>, _, _, _>(build::<S>(a), build::<S>(s)).map(|v| list(&v))),
        SepBy1(a, s) => bx!(sep_by1::<Vec<V>, _, _, _>(build::<S>(a), build::<S>(s)).map(|v| list(&v))),
        SepEndBy(a, s) => bx!(sep_end_by::<Vec<V>, _, _, _>(build::<S>(a), build::<S>(s)).map(|v| list(&v))),
        SepEndBy1(a, s) => bx!(sep_end_by1::<Vec<V>, _, _, _>(build::<S>(a), build::<S>(s)).map(|v| list(&v))),
        Chainl(a, o) => bx!(chainl1(build::<S>(a), build::<S>(o).map(|op| move |l, r| fold(l, op, r)))),
        RepeatUntil(a, e) => bx!(repeat_until::<Vec<V>, _, _, _>(build::<S>(a), build::<S>(e)).map(|v| list(&v))),
        TakeUntil(e) => bx!(take_until::<Vec<u8>, _, _>(build::<S>(e))),
        Recog(a) => bx!(recognize(build::<S>(a)).map(|r: &[u8]| r.to_vec())),
        Toks => bx!(tokens(|a: u8, b: u8| a == b, "ab", b"ab".iter().cloned()).map(|x| x.collect::<V>())),
        Lit => bx!(range(&b"ab"[..]).map(|x: &[u8]| x.to_vec())),
        Take(n) => bx!(take(*n).map(|x: &[u8]| x.to_vec())),
        Chainr(a, o) => bx!(chainr1(build::<S>(a), build::<S>(o).map(|op| move |l, r| fold(l, op, r)))),
        ChoiceTuple(a, b) => bx!(choice((build::<S>(a), build::<S>(b)))),
        Seq3(a, b, c) => bx!((build::<S>(a), build::<S>(b), build::<S>(c)).map(|(x, y, z)| pair(&pair(&x, &y), &z))),
        Between(a, b) => bx!(between(build::<S>(b), build::<S>(b), build::<S>(a))),
        SkipMany1(a) => bx!(skip_many1(build::<S>(a)).map(|_| vec![])),
        SkipCount(n, m, a) => bx!(skip_count_min_max(*n, *m, build::<S>(a)).map(|_| vec![])),
        RepeatSkipUntil(a, e) => bx!(repeat_skip_until(build::<S>(a), build::<S>(e)).map(|_| vec![])),
        SkipUntil(e) => bx!(skip_until(build::<S>(e)).map(|_| vec![])),
        AndThen(a) => bx!(build::<S>(a).and_then(|x: V| if x.contains(&b'b') {
            Err(StreamErrorFor::<S>::unexpected_static_message("b"))
        } else {
            Ok(x)
        })),
        Label(a) => bx!(build::<S>(a).expected("label")),
        Msg(a) => bx!(build::<S>(a).message("message")),
        Silent(a) => bx!(build::<S>(a).silent()),
        Lazy(a) => {
            let a = (**a).clone();
            bx!(any_partial_state(lazy(move || build::<S>(&a))))
        }
        TakeWhile(c) => {
            let c = *c;
            bx!(take_while(move |x| x == c).map(|r: &[u8]| r.to_vec()))
        }
        TakeWhile1(c) => {
            let c = *c;
            bx!(take_while1(move |x| x == c).map(|r: &[u8]| r.to_vec()))
        }
    }
}

pub fn outcome<E>(r: ParseResult<V, E>) -> R {
    match r {
        CommitOk(v) => COk(v),
        PeekOk(v) => POk(v),
        CommitErr(_) => CErr,
        PeekErr(_) => PErr,
    }
}

pub fn leaf(i: usize) -> Pg {
    match i {
        0 => Tok(b'a'),
        1 => Tok(b'b'),
        2 => Any,
        3 => Eof,
        4 => Val(b'v'),
        5 => Fail,
        6 => TakeWhile1(b'a'),
        7 => TakeWhile(b'a'),
        8 => Toks,
        9 => Lit,
        10 => Take(2),
        _ => Take(0),
    }
}
pub const LEAVES: usize = 12;
pub const UNARY: usize = 20;
pub fn unary(i: usize, a: Pg) -> Pg {
    let a = Box::new(a);
    match i {
        0 => Attempt(a),
        1 => Opt(a),
        2 => Look(a),
        3 => Not(a),
        4 => Many(a),
        5 => Many1(a),
        6 => SkipMany(a),
        7 => Count(1, 2, a),
        8 => Count(2, 2, a),
        9 => TakeUntil(a),
        10 => Iter(2, a),
        11 => Recog(a),
        12 => SkipMany1(a),
        13 => SkipUntil(a),
        14 => AndThen(a),
        15 => Label(Box::new(Msg(a))),
        16 => Silent(a),
        17 => Lazy(a),
        18 => SkipCount(1, 2, a),
        _ => Count(0, 1, a),
    }
}
pub const BINARY: usize = 19;
pub fn binary(i: usize, a: Pg, b: Pg) -> Pg {
    let (a, b) = (Box::new(a), Box::new(b));
    match i {
        0 => Seq(a, b),
        1 => Or(a, b),
        2 => SepBy(a, b),
        3 => SepEndBy(a, b),
        4 => SepBy1(a, b),
        5 => SepEndBy1(a, b),
        6 => Chainl(a, b),
        7 => RepeatUntil(a, b),
        8 => ThenP(a, b),
        9 => With(a, b),
        10 => Skip(a, b),
        11 => ChoiceSlice(a, b),
        12 => ChoiceTuple(a, b),
        13 => Seq3(a.clone(), b, a),
        14 => Between(a, b),
        15 => Chainr(a, b),
        16 => RepeatSkipUntil(a, b),
        17 => ThenR(a, b),
        _ => If(a, b),
    }
}
/// Any program of the given depth (0 = a leaf).
pub fn any_prog(depth: usize, leaves: usize) -> Pg {
    let k = crate::nd::choose(if depth == 0 { 1 } else { 3 });
    match k {
        0 => leaf(crate::nd::choose(leaves)),
        1 => {
            let op = crate::nd::choose(UNARY);
            let a = any_prog(depth - 1, leaves);
            unary(op, a)
        }
        _ => {
            let op = crate::nd::choose(BINARY);
            let a = any_prog(depth - 1, leaves);
            let b = any_prog(depth - 1, leaves);
            binary(op, a, b)
        }
    }
}
