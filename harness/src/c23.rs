//! C23: conversions of errors keep every item, its kind, the order and the position.
use crate::items::{is_eoi, leak, Item, What, E, TEXT};
use crate::nd::{self, q};
use combine::error::{self, ParseError, ParseErrorInto, StreamError, StreamErrorInto, StringStreamError, Tracked, UnexpectedParse};
use combine::stream::easy::{self, Error, Errors, Info};
use combine::stream::span::Span;
use combine::stream::{decoder, read};
use std::fmt;

const BOUNDARY: &str = "unexpected slice on character boundary";

/// an item, or some other error, or (an unexpected / a message) a range inside a character
#[derive(Clone, Copy)]
enum It {
    I(Item),
    Other,
    Boundary(usize),
}
impl It {
    fn any(n: usize) -> Vec<It> {
        (0..nd::range(0, n))
            .map(|_| match nd::choose(4) {
                0 => It::Other,
                1 => It::Boundary(nd::choose(3)),
                _ => It::I(Item::any()),
            })
            .collect()
    }
    fn few(n: usize) -> Vec<It> {
        (0..nd::range(0, n))
            .map(|_| match nd::choose(4) {
                0 => It::Other,
                1 => It::I(Item { kind: nd::choose(3), what: What::Static(nd::choose(2)) }),
                2 => It::I(Item { kind: nd::choose(3), what: What::Range(nd::u8()) }),
                _ => It::I(Item { kind: nd::choose(3), what: What::Token(nd::u8()) }),
            })
            .collect()
    }
    fn make(&self) -> E {
        match self {
            It::I(i) => i.make(),
            It::Other => Error::from(fmt::Error),
            It::Boundary(k) => match k {
                0 => Error::Unexpected(Info::Static(BOUNDARY)),
                1 => Error::Expected(Info::Static(BOUNDARY)),
                _ => Error::Message(Info::Static(BOUNDARY)),
            },
        }
    }
    fn same(&self, e: &E) -> bool {
        match (self, e) {
            (It::Other, Error::Other(x)) => x.is::<fmt::Error>(),
            (It::Boundary(k), _) => *e == It::Boundary(*k).make(),
            (It::I(i), e) => i.same(e),
            _ => false,
        }
    }
    fn eoi(&self) -> bool {
        match self {
            It::I(i) => is_eoi(i),
            _ => false,
        }
    }
    /// what another error type is told
    fn told(&self) -> Told {
        match self {
            It::I(i) if is_eoi(i) => Told(0, How::Eoi),
            It::I(i) => Told(
                i.kind,
                match i.what {
                    What::Token(t) => How::Token(t),
                    What::Range(t) => How::Range(t),
                    What::Static(k) => How::Static(TEXT[k]),
                    What::Owned(k) => How::Text(TEXT[k].to_string()),
                },
            ),
            It::Other => Told(2, How::Text(fmt::Error.to_string())),
            It::Boundary(k) => Told(*k, How::Static(BOUNDARY)),
        }
    }
    fn unexpected_parse(&self) -> UnexpectedParse {
        if self.eoi() {
            UnexpectedParse::Eoi
        } else {
            UnexpectedParse::Unexpected
        }
    }
    fn string(&self) -> StringStreamError {
        match self {
            It::Boundary(0) | It::Boundary(2) => StringStreamError::CharacterBoundary,
            _ if self.eoi() => StringStreamError::Eoi,
            _ => StringStreamError::UnexpectedParse,
        }
    }
}

/// An error type of the user's that records what it is given.
#[derive(Clone, PartialEq)]
enum How {
    Token(u8),
    Range(u8),
    Static(&'static str),
    Text(String),
    Eoi,
}
impl How {
    fn like(&self, o: &How) -> bool {
        use How::*;
        match (self, o) {
            (Static(a), Text(b)) | (Text(b), Static(a)) => a == b,
            _ => self == o,
        }
    }
}
#[derive(Clone, PartialEq)]
struct Told(usize, How);
impl Told {
    fn like(&self, o: &Told) -> bool {
        self.0 == o.0 && self.1.like(&o.1)
    }
}
macro_rules! rec_methods {
    ($($k:literal $token:ident $range:ident $format:ident $stat:ident;)*) => {$(
        fn $token(t: T) -> Self { Told($k, How::Token(t.byte())) }
        fn $range(t: R) -> Self { Told($k, How::Range(t.byte())) }
        fn $format<M: fmt::Display>(m: M) -> Self { Told($k, How::Text(m.to_string())) }
        fn $stat(m: &'static str) -> Self { Told($k, How::Static(m)) }
    )*};
}
trait Byte {
    fn byte(self) -> u8;
}
impl Byte for u8 {
    fn byte(self) -> u8 {
        self
    }
}
impl Byte for &'static [u8] {
    fn byte(self) -> u8 {
        self[0]
    }
}
#[derive(Clone, Copy, PartialEq)]
struct Tok(u8);
#[derive(Clone, Copy, PartialEq)]
struct Rng(u8);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Debug)]
struct Pos(u8);
impl From<u8> for Tok {
    fn from(b: u8) -> Tok {
        Tok(b.wrapping_add(1))
    }
}
impl From<&'static [u8]> for Rng {
    fn from(b: &'static [u8]) -> Rng {
        Rng(b[0].wrapping_add(2))
    }
}
impl From<u8> for Pos {
    fn from(b: u8) -> Pos {
        Pos(b.wrapping_add(3))
    }
}
impl Byte for Tok {
    fn byte(self) -> u8 {
        self.0.wrapping_sub(1)
    }
}
impl Byte for Rng {
    fn byte(self) -> u8 {
        self.0.wrapping_sub(2)
    }
}
impl<T: Byte, R: Byte> StreamError<T, R> for Told {
    rec_methods! {
        0 unexpected_token unexpected_range unexpected_format unexpected_static_message;
        1 expected_token expected_range expected_format expected_static_message;
        2 message_token message_range message_format message_static_message;
    }
    fn end_of_input() -> Self {
        Told(0, How::Eoi)
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.1 == How::Eoi
    }
    fn into_other<U: StreamError<T, R>>(self) -> U {
        unimplemented!()
    }
}
#[derive(PartialEq)]
struct Rec<P> {
    pos: P,
    told: Vec<Told>,
}
impl<T: Byte, R: Byte, P: PartialEq> ParseError<T, R, P> for Rec<P> {
    type StreamError = Told;
    fn empty(pos: P) -> Self {
        Rec { pos, told: vec![] }
    }
    fn set_position(&mut self, pos: P) {
        self.pos = pos;
    }
    fn add(&mut self, e: Told) {
        self.told.push(e);
    }
    fn set_expected<F: FnOnce(&mut Tracked<Self>)>(_: &mut Tracked<Self>, _: Told, _: F) {
        unimplemented!()
    }
    fn is_unexpected_end_of_input(&self) -> bool {
        self.told.iter().any(|t| t.1 == How::Eoi)
    }
    fn into_other<U: ParseError<T, R, P>>(self) -> U {
        unimplemented!()
    }
}
fn told_all(t: &[Told], v: &[It]) {
    chk!(t.len() == v.len());
    for i in 0..v.len() {
        chk!(t[i].like(&v[i].told()));
    }
}
fn errors(pos: u8, v: &[It]) -> Errors<u8, &'static [u8], u8> {
    Errors { position: pos, errors: v.iter().map(|i| i.make()).collect() }
}
fn same_all(e: &[E], v: &[It]) {
    chk!(e.len() == v.len());
    for i in 0..v.len() {
        chk!(v[i].same(&e[i]));
    }
}
/// what of several minimal errors is kept: that the input ended, or the last
fn kept<T: Copy + PartialEq>(v: &[T], none: T, eoi: T) -> T {
    v.iter().fold(none, |a, b| if a == eoi { eoi } else { *b })
}
type Es<P> = Errors<u8, &'static [u8], P>;
type R = &'static [u8];

harnesses! {
    /// map_position, map_token and map_range of errors with up to 2 (3) items
    fn h_c23_map[2] {
        let v = It::few(q(2, 3));
        let pos = nd::u8();
        let e = errors(pos, &v);
        let mut seen: Vec<u8> = vec![];
        match nd::choose(3) {
            0 => {
                let m = e.map_position(|p| { seen.push(p); Pos(p.wrapping_mul(3)) });
                chk!(seen == [pos] && m.position == Pos(pos.wrapping_mul(3)));
                same_all(&m.errors, &v);
            }
            1 => {
                let m = e.map_token(|t| { seen.push(t); Tok(t ^ 0x55) });
                let want: Vec<u8> = v.iter().filter_map(|i| match i { It::I(Item { what: What::Token(t), .. }) => Some(*t), _ => None }).collect();
                chk!(m.position == pos && seen == want);
                let back = m.map_token(|t| t.0 ^ 0x55);
                same_all(&back.errors, &v);
                if seen.len() == 2 { cov!(0); }
            }
            _ => {
                let m = e.map_range(|r| { seen.push(r[0]); Rng(r[0] ^ 0x55) });
                let want: Vec<u8> = v.iter().filter_map(|i| match i { It::I(Item { what: What::Range(t), .. }) => Some(*t), _ => None }).collect();
                chk!(m.position == pos && seen == want);
                let back = m.map_range(|r| leak(r.0 ^ 0x55));
                same_all(&back.errors, &v);
                if seen.len() == 2 { cov!(1); }
            }
        }
    }
    /// mapping a single error, whatever it holds, and its Info
    fn h_c23_map_one[2] {
        let v = It::any(1);
        nd::assume(v.len() == 1);
        let e = v[0].make();
        match nd::choose(4) {
            0 => {
                let m: Error<Tok, R> = e.map_token(Tok);
                chk!(match (&v[0], &m) {
                    (It::I(Item { kind, what: What::Token(t) }), Error::Unexpected(Info::Token(x))) => *kind == 0 && x.0 == *t,
                    (It::I(Item { kind, what: What::Token(t) }), Error::Expected(Info::Token(x))) => *kind == 1 && x.0 == *t,
                    (It::I(Item { kind, what: What::Token(t) }), Error::Message(Info::Token(x))) => *kind == 2 && x.0 == *t,
                    (It::I(Item { what: What::Token(_), .. }), _) => false,
                    _ => v[0].same(&m.map_token(|t| t.0)),
                });
                cov!(0);
            }
            1 => {
                let m: Error<u8, Rng> = e.map_range(|r| Rng(r[0]));
                chk!(v[0].same(&m.map_range(|r| leak(r.0))));
                cov!(1);
            }
            k => {
                let i = match e {
                    Error::Unexpected(i) | Error::Expected(i) | Error::Message(i) => i,
                    _ => return,
                };
                let back = if k == 2 { i.map_token(Tok).map_token(|t| t.0) } else { i.map_range(|r| Rng(r[0])).map_range(|r| leak(r.0)) };
                chk!(It::I(Item { kind: 0, ..match v[0] { It::I(i) => i, _ => return } }).same(&Error::Unexpected(back)));
            }
        }
    }
    /// a single easy error into any other kind of error, by StreamError::into_other and by StreamErrorInto
    fn h_c23_stream_error[2] {
        let v = It::any(1);
        nd::assume(v.len() == 1);
        let i = v[0];
        let e = i.make();
        let other = matches!(i, It::Other);
        chk!(StreamError::is_unexpected_end_of_input(&e) == i.eoi());
        let text = |e: &E| matches!(e, Error::Message(Info::Owned(s)) if *s == fmt::Error.to_string());
        match nd::choose(10) {
            0 => {
                let o: E = StreamError::into_other(e);
                chk!(if other { text(&o) } else { o == i.make() });
            }
            1 => chk!(StreamError::into_other::<UnexpectedParse>(e) == i.unexpected_parse()),
            2 => chk!(StreamError::into_other::<StringStreamError>(e) == i.string()),
            3 => chk!(matches!(StreamError::into_other::<read::Error>(e), read::Error::EndOfInput) == i.eoi()),
            4 => chk!(StreamError::into_other::<Told>(e).like(&i.told())),
            5 => {
                let o: E = StreamErrorInto::into_other_error::<E, u8, R>(e);
                chk!(if other { text(&o) } else { o == i.make() });
                cov!(0);
            }
            6 => chk!(StreamErrorInto::into_other_error::<UnexpectedParse, u8, R>(e) == i.unexpected_parse()),
            7 => chk!(StreamErrorInto::into_other_error::<StringStreamError, u8, R>(e) == i.string()),
            8 => chk!(StreamErrorInto::into_other_error::<Told, Tok, Rng>(e).like(&i.told())),
            _ => {
                let o: Error<Tok, Rng> = StreamErrorInto::into_other_error::<Error<Tok, Rng>, Tok, Rng>(e);
                let b = o.map_token(|t| t.byte()).map_range(|r| leak(r.byte()));
                chk!(if other { text(&b) } else { b == i.make() });
                cov!(1);
            }
        }
    }
    /// errors of up to 2 (3) items into other parse errors, by ParseError::into_other and by ParseErrorInto
    fn h_c23_parse_error[2] {
        let v = It::few(q(2, 3));
        let pos = nd::u8();
        let e = errors(pos, &v);
        let up: Vec<UnexpectedParse> = v.iter().map(|i| i.unexpected_parse()).collect();
        let st: Vec<StringStreamError> = v.iter().map(|i| i.string()).collect();
        let distinct = (0..v.len()).all(|i| v[..i].iter().all(|x| x.make() != v[i].make()));
        chk!(ParseError::is_unexpected_end_of_input(&e) == v.iter().any(|i| i.eoi()));
        match nd::choose(8) {
            0 => {
                nd::assume(distinct && !v.iter().any(|i| matches!(i, It::Other)));
                let o: Es<u8> = ParseError::into_other(e);
                chk!(o.position == pos);
                same_all(&o.errors, &v);
                if v.len() == 2 { cov!(0); }
            }
            1 => chk!(ParseError::into_other::<UnexpectedParse>(e) == kept(&up, UnexpectedParse::Unexpected, UnexpectedParse::Eoi)),
            2 => chk!(ParseError::into_other::<StringStreamError>(e) == kept(&st, StringStreamError::UnexpectedParse, StringStreamError::Eoi)),
            3 => {
                let o: Rec<u8> = ParseError::into_other(e);
                chk!(o.pos == pos);
                told_all(&o.told, &v);
            }
            4 => {
                nd::assume(distinct && !v.iter().any(|i| matches!(i, It::Other)));
                let o: Errors<Tok, Rng, Pos> = ParseErrorInto::into_other_error::<Errors<Tok, Rng, Pos>, Tok, Rng, Pos>(e);
                chk!(o.position == Pos::from(pos));
                same_all(&o.map_token(|t| t.byte()).map_range(|r| leak(r.byte())).errors, &v);
                if v.len() == 2 { cov!(1); }
            }
            5 => chk!(ParseErrorInto::into_other_error::<UnexpectedParse, u8, R, u8>(e) == kept(&up, UnexpectedParse::Unexpected, UnexpectedParse::Eoi)),
            6 => {
                let o: Es<Span<u8>> = ParseErrorInto::into_other_error::<Es<Span<u8>>, u8, R, Span<u8>>(e);
                chk!(o.position == Span { start: pos, end: pos });
                chk!(o.errors.len() <= v.len());
            }
            _ => {
                let o: Rec<Pos> = ParseErrorInto::into_other_error::<Rec<Pos>, Tok, Rng, Pos>(e);
                chk!(o.pos == Pos::from(pos));
                told_all(&o.told, &v);
            }
        }
    }
    /// the minimal error types (UnexpectedParse, StringStreamError, read::Error, a single easy error) into others
    fn h_c23_minimal[2] {
        let stream = nd::flag();
        match nd::choose(4) {
            0 => {
                let eoi = nd::flag();
                let u = if eoi { UnexpectedParse::Eoi } else { UnexpectedParse::Unexpected };
                let want = if eoi { How::Eoi } else { How::Static("parse") };
                chk!(ParseError::<u8, R, u8>::is_unexpected_end_of_input(&u) == eoi && StreamError::<u8, R>::is_unexpected_end_of_input(&u) == eoi);
                if stream {
                    chk!(StreamError::<u8, R>::into_other::<Told>(u) == Told(0, want.clone()));
                    chk!(StreamErrorInto::<u8, R>::into_other_error::<Told, Tok, Rng>(u) == Told(0, want));
                    chk!(StreamError::<u8, R>::into_other::<UnexpectedParse>(u) == u);
                    chk!(StreamError::<u8, R>::into_other::<StringStreamError>(u) == if eoi { StringStreamError::Eoi } else { StringStreamError::UnexpectedParse });
                } else {
                    let r: Rec<u8> = ParseError::<u8, R, u8>::into_other(u);
                    chk!(r.pos == 0 && r.told == [Told(0, want.clone())]);
                    let r: Rec<Pos> = ParseErrorInto::<u8, R, u8>::into_other_error::<Rec<Pos>, Tok, Rng, Pos>(u);
                    chk!(r.pos == Pos(3) && r.told == [Told(0, want)]);
                    let s: Es<u8> = ParseError::<u8, R, u8>::into_other(u);
                    chk!(s.position == 0 && s.errors.len() == 1 && ParseError::is_unexpected_end_of_input(&s) == eoi);
                }
                cov!(0);
            }
            1 => {
                let k = nd::choose(3);
                let u = [StringStreamError::Eoi, StringStreamError::UnexpectedParse, StringStreamError::CharacterBoundary][k];
                let want = [How::Eoi, How::Static("parse"), How::Static(BOUNDARY)][k].clone();
                chk!(ParseError::<u8, R, u8>::is_unexpected_end_of_input(&u) == (k == 0) && StreamError::<u8, R>::is_unexpected_end_of_input(&u) == (k == 0));
                if stream {
                    chk!(StreamError::<u8, R>::into_other::<Told>(u) == Told(0, want.clone()));
                    chk!(StreamErrorInto::<u8, R>::into_other_error::<Told, Tok, Rng>(u) == Told(0, want));
                    chk!(StreamError::<u8, R>::into_other::<StringStreamError>(u) == u);
                    chk!(StreamError::<u8, R>::into_other::<StringStreamError>(StreamError::<u8, R>::into_other::<E>(u)) == u);
                } else {
                    let r: Rec<u8> = ParseError::<u8, R, u8>::into_other(u);
                    chk!(r.pos == 0 && r.told == [Told(0, want.clone())]);
                    let r: Rec<Pos> = ParseErrorInto::<u8, R, u8>::into_other_error::<Rec<Pos>, Tok, Rng, Pos>(u);
                    chk!(r.pos == Pos(3) && r.told == [Told(0, want)]);
                }
            }
            2 => {
                let k = nd::choose(3);
                let u = match k {
                    0 => read::Error::EndOfInput,
                    1 => read::Error::Unexpected,
                    _ => read::Error::Io(std::io::ErrorKind::UnexpectedEof.into()),
                };
                let text = std::io::Error::from(std::io::ErrorKind::UnexpectedEof).to_string();
                let want = [Told(0, How::Eoi), Told(0, How::Static("parse")), Told(2, How::Text(text))][k].clone();
                chk!(ParseError::<u8, R, u8>::is_unexpected_end_of_input(&u) == (k == 0) && StreamError::<u8, R>::is_unexpected_end_of_input(&u) == (k == 0));
                if stream {
                    if nd::flag() {
                        chk!(StreamError::<u8, R>::into_other::<Told>(u) == want);
                    } else {
                        let e: E = StreamError::<u8, R>::into_other(u);
                        chk!(match e {
                            Error::Other(x) => k == 2 && x.is::<std::io::Error>(),
                            e => k != 2 && StreamError::is_unexpected_end_of_input(&e) == (k == 0),
                        });
                    }
                } else {
                    let r: Rec<u8> = ParseError::<u8, R, u8>::into_other(u);
                    chk!(r.pos == 0 && r.told == [want]);
                }
                cov!(1);
            }
            _ => {
                let v = It::any(1);
                nd::assume(v.len() == 1);
                let r: Rec<u8> = ParseError::<u8, R, u8>::into_other(v[0].make());
                chk!(r.pos == 0);
                told_all(&r.told, &v);
            }
        }
    }
    /// what StreamError and ParseError constructors, and From, make of an Info
    fn h_c23_info[1] {
        let i = Item::any();
        let e: Info<u8, R> = match i.what {
            What::Token(t) => match nd::choose(3) {
                0 => error::Info::<u8, R, &'static str>::Token(t).into(),
                1 => error::Info::<u8, R, &'static str>::from(t).into(),
                _ => t.into(),
            },
            What::Range(t) => match nd::choose(2) {
                0 => error::Info::<u8, R, &'static str>::Range(leak(t)).into(),
                _ => error::Info::<u8, R, &'static str>::from(error::Range(leak(t))).into(),
            },
            What::Static(k) => match nd::choose(3) {
                0 => error::Info::<u8, R, &'static str>::Static(TEXT[k]).into(),
                1 => error::Info::<u8, R, &'static str>::from(TEXT[k]).into(),
                _ => TEXT[k].into(),
            },
            What::Owned(k) => match nd::choose(3) {
                0 => error::Info::<u8, R, &'static str>::Format(TEXT[k]).into(),
                1 => error::Info::<u8, R, String>::from(error::Format(TEXT[k].to_string())).into(),
                _ => TEXT[k].to_string().into(),
            },
        };
        chk!(Item { kind: 1, ..i }.same(&Error::Expected(e)));
        // the constructors, generic and particular
        let (u, x, m): (E, E, E) = match i.what {
            What::Token(t) if nd::flag() => (StreamError::unexpected_token(t), StreamError::expected_token(t), StreamError::message_token(t)),
            What::Token(t) => (StreamError::unexpected(t), StreamError::expected(error::Token(t)), StreamError::message(&t)),
            What::Range(t) if nd::flag() => (StreamError::unexpected_range(leak(t)), StreamError::expected_range(leak(t)), StreamError::message_range(leak(t))),
            What::Range(t) => (StreamError::unexpected(error::Range(leak(t))), StreamError::expected(error::Info::<u8, R>::Range(leak(t))), StreamError::message(error::Range(leak(t)))),
            What::Static(k) if nd::flag() => (StreamError::unexpected_static_message(TEXT[k]), StreamError::expected_static_message(TEXT[k]), StreamError::message_static_message(TEXT[k])),
            What::Static(k) => (StreamError::unexpected(TEXT[k]), StreamError::expected(error::Info::<u8, R>::Static(TEXT[k])), StreamError::message(TEXT[k])),
            What::Owned(k) if nd::flag() => (StreamError::unexpected_format(TEXT[k]), StreamError::expected_format(TEXT[k]), StreamError::message_format(TEXT[k])),
            What::Owned(k) => (StreamError::unexpected(error::Format(TEXT[k])), StreamError::expected(error::Info::<u8, R, String>::Format(TEXT[k].to_string())), StreamError::message(error::Format(TEXT[k].to_string()))),
        };
        chk!(Item { kind: 0, ..i }.same(&u));
        chk!(Item { kind: 1, ..i }.same(&x));
        chk!(Item { kind: 2, ..i }.same(&m));
        cov!(0);
    }
    /// a decoder's error into easy errors
    fn h_c23_decoder[2] {
        let v = It::few(2);
        let pos = nd::u8();
        if nd::flag() {
            let e: Es<u8> = decoder::Error::Parse(errors(pos, &v)).into();
            chk!(e.position == pos);
            same_all(&e.errors, &v);
            cov!(0);
        } else {
            let kind = [std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::Other][nd::choose(2)];
            let e: Es<u8> = decoder::Error::<Es<u8>, u8>::Io { position: pos, error: kind.into() }.into();
            chk!(e.position == pos && e.errors.len() == 1);
            chk!(match &e.errors[0] {
                Error::Other(x) => matches!(x.downcast_ref::<std::io::Error>(), Some(x) if x.kind() == kind),
                _ => false,
            });
            cov!(1);
        }
    }
    /// spans: from a position, and mapped
    fn h_c23_span[1] {
        let (a, b) = (nd::u8(), nd::u8());
        let mut n = 0;
        let s = Span { start: a, end: b }.map(|p| { n += 1; p as u16 * 2 });
        chk!(n == 2 && s.start == a as u16 * 2 && s.end == b as u16 * 2);
        let s: Span<u8> = a.into();
        chk!(s.start == a && s.end == a);
        cov!(0);
    }
}
#[allow(unused)]
type Unused = easy::Error<u8, R>;
