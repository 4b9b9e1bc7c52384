//! C22: errors name exactly what was expected where parsing failed.
use crate::nd::{self, q};
use crate::prog::Pg::{self, *};
use crate::prog::{build, nullable, wellformed, BP};
use combine::stream::easy::{self, Error, Info};
use combine::stream::position;
use combine::Parser;

/// a set of tokens (bit per letter a..) and whether the label / message is in it
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Set {
    tok: u32,
    label: bool,
    message: bool,
}
impl Set {
    const NONE: Set = Set { tok: 0, label: false, message: false };
    fn and(self, o: Set) -> Set {
        Set { tok: self.tok | o.tok, label: self.label | o.label, message: self.message | o.message }
    }
}
fn bit(c: u8) -> u32 {
    1 << (c - b'a')
}
#[derive(Clone, Copy)]
struct Out {
    ok: bool,
    commit: bool,
    /// where it ended: after success, or where it failed
    at: usize,
    /// what could also have come there
    exp: Set,
}
/// What the grammar says: outcome, furthest place, and what would have been accepted there.
fn ev(p: &Pg, d: &[u8], at: usize) -> Out {
    let then = |a: Out, b: Out| -> Out {
        let exp = if b.at == a.at && !b.commit { a.exp.and(b.exp) } else { b.exp };
        Out { commit: a.commit | b.commit, exp, ..b }
    };
    let seq = |a: Out, b: &Pg| -> Out {
        if a.ok {
            then(a, ev(b, d, a.at))
        } else {
            a
        }
    };
    let or = |a: Out, b: Out| -> Out {
        if a.ok || a.commit {
            return a;
        }
        if b.at > at || b.commit {
            return b;
        }
        Out { exp: a.exp.and(b.exp), ..b }
    };
    let many = |first: Option<Out>, a: &Pg| -> Out {
        let mut o = first.unwrap_or(Out { ok: true, commit: false, at, exp: Set::NONE });
        while o.ok {
            let n = ev(a, d, o.at);
            let exp = if n.at == o.at && !n.commit { o.exp.and(n.exp) } else { n.exp };
            if !n.ok && !n.commit {
                o.exp = exp;
                break;
            }
            o = Out { commit: true, exp, ..n };
        }
        o
    };
    match p {
        Tok(c) => {
            if d.get(at) == Some(c) {
                Out { ok: true, commit: true, at: at + 1, exp: Set::NONE }
            } else {
                Out { ok: false, commit: false, at, exp: Set { tok: bit(*c), ..Set::NONE } }
            }
        }
        TakeWhile1(c) => {
            let n = d[at.min(d.len())..].iter().take_while(|x| *x == c).count();
            Out { ok: n > 0, commit: n > 0, at: at + n, exp: Set::NONE }
        }
        Iter(n, a) => {
            let mut o = Out { ok: true, commit: false, at, exp: Set::NONE };
            for _ in 0..*n {
                o = seq(o, a);
            }
            o
        }
        Chainl(a, s) | Chainr(a, s) => many(Some(ev(a, d, at)), &With(s.clone(), a.clone())),
        RepeatUntil(a, e) => {
            let mut o = Out { ok: true, commit: false, at, exp: Set::NONE };
            loop {
                let end = ev(e, d, o.at);
                if end.ok || end.commit {
                    return then(o, end);
                }
                let item = ev(a, d, o.at);
                let both = if item.commit || item.at > o.at { item } else { Out { exp: end.exp.and(item.exp), ..item } };
                o = then(o, both);
                if !o.ok {
                    return o;
                }
            }
        }
        Val(_) => Out { ok: true, commit: false, at, exp: Set::NONE },
        Seq(a, b) | With(a, b) | Skip(a, b) => seq(ev(a, d, at), b),
        Seq3(a, b, c) => seq(seq(ev(a, d, at), b), c),
        Between(a, b) => seq(seq(ev(b, d, at), a), b),
        Or(a, b) | ChoiceTuple(a, b) | ChoiceSlice(a, b) => {
            let a = ev(a, d, at);
            if a.ok || a.commit {
                a
            } else {
                or(a, ev(b, d, at))
            }
        }
        Opt(a) => or(ev(a, d, at), Out { ok: true, commit: false, at, exp: Set::NONE }),
        Many(a) | SkipMany(a) => many(None, a),
        Many1(a) | SkipMany1(a) => many(Some(ev(a, d, at)), a),
        SepBy1(a, s) => many(Some(ev(a, d, at)), &With(s.clone(), a.clone())),
        SepBy(a, s) => or(ev(&SepBy1(a.clone(), s.clone()), d, at), Out { ok: true, commit: false, at, exp: Set::NONE }),
        Label(a) => {
            let o = ev(a, d, at);
            if o.commit {
                o
            } else {
                Out { exp: Set { tok: 0, label: o.exp != Set::NONE || !o.ok, ..o.exp }, ..o }
            }
        }
        Silent(a) => {
            let o = ev(a, d, at);
            Out { exp: Set { message: o.exp.message && o.commit, ..Set::NONE }, ..o }
        }
        Lazy(a) => ev(a, d, at),
        Msg(a) => {
            let mut o = ev(a, d, at);
            o.exp.message |= !o.ok || (!o.commit && o.exp != Set::NONE);
            o
        }
        _ => unreachable!(),
    }
}
type S<'a> = easy::Stream<position::Stream<&'a [u8], position::IndexPositioner>>;
fn check(p: &Pg, d: &[u8]) {
    check_but(p, d, 0, 0, false)
}
/// `more`, `fewer`: tokens that a listed finding adds or drops (`strict`: must not)
fn check_but(p: &Pg, d: &[u8], more: u32, fewer: u32, strict: bool) {
    let o = ev(p, d, 0);
    let mut s: S = easy::Stream(position::Stream::with_positioner(d, position::IndexPositioner::new()));
    let mut b: BP<S> = build(p);
    match b.parse_stream(&mut s).into_result() {
        Ok(_) => chk!(o.ok),
        Err(e) => {
            chk!(!o.ok);
            let e = e.into_inner().error;
            chk!(e.position == o.at);
            let mut got = Set::NONE;
            let mut unexpected = 0;
            for x in &e.errors {
                match x {
                    Error::Expected(Info::Token(t)) => {
                        let b = bit(*t);
                        chk!(got.tok & b == 0);
                        got.tok |= b;
                    }
                    Error::Expected(Info::Static(l)) => {
                        chk!(*l == "label" && !got.label);
                        got.label = true;
                    }
                    Error::Unexpected(i) => {
                        unexpected += 1;
                        chk!(match (i, d.get(o.at)) {
                            (Info::Token(t), Some(u)) => t == u,
                            (Info::Static(m), None) => *m == "end of input",
                            _ => false,
                        });
                    }
                    Error::Message(Info::Static(m)) => {
                        chk!(*m == "message" && !got.message);
                        got.message = true;
                    }
                    _ => chk!(false),
                }
            }
            chk!(unexpected == 1);
            nd::obs(got.tok as u64);
            chk!(got.tok & !more & !fewer == o.exp.tok & !more & !fewer && got.tok & !more & !o.exp.tok == 0 && o.exp.tok & !fewer & !got.tok == 0);
            chk!(got.label == o.exp.label);
            chk!(got.message == o.exp.message);
            if strict {
                known!(got == o.exp);
            }
            if o.at > 0 {
                cov!(1);
            } else {
                cov!(0);
            }
        }
    }
}
fn bx(p: Pg) -> Box<Pg> {
    Box::new(p)
}
fn letter() -> Pg {
    Tok(b"abc"[nd::choose(3)])
}
/// parsers of one token: plain, labelled, behind lazy, with a message, silent, alternatives
fn token1(k: usize) -> Pg {
    let l = letter();
    match nd::choose(k) {
        0 => l,
        1 => Or(bx(l), bx(letter())),
        2 => Label(bx(l)),
        3 => Msg(bx(l)),
        4 => Silent(bx(l)),
        5 => ChoiceSlice(bx(Label(bx(l))), bx(letter())),
        6 => Label(bx(Or(bx(l), bx(letter())))),
        _ => Lazy(bx(Or(bx(l), bx(Label(bx(letter())))))),
    }
}
const TOKENS: usize = 8;
const PARTS: usize = 9;
/// a loop with something around it
fn wrapped_loop(t: usize) -> Pg {
    let l = match nd::choose(3) {
        0 => Many(bx(token1(t))),
        1 => Many1(bx(token1(t))),
        _ => SepBy1(bx(token1(t)), bx(Tok(b'd'))),
    };
    match nd::choose(4) {
        0 => Msg(bx(l)),
        1 => Label(bx(l)),
        2 => Silent(bx(l)),
        _ => Lazy(bx(l)),
    }
}
fn alternatives(p: &Pg) -> bool {
    match p {
        Or(..) | ChoiceSlice(..) => true,
        Label(a) | Msg(a) | Silent(a) | Lazy(a) => alternatives(a),
        _ => false,
    }
}
/// parts of a sequence: one token, optional or repeated
fn last(k: usize, t: usize) -> Pg {
    let l = token1(t);
    match nd::choose(k) {
        0 => l,
        1 => Opt(bx(l)),
        2 => Many(bx(l)),
        3 => Label(bx(Opt(bx(l)))),
        4 => Many1(bx(l)),
        5 => SkipMany(bx(l)),
        6 => SepBy(bx(l), bx(Tok(b'd'))),
        7 => SkipMany1(bx(l)),
        _ => SepBy1(bx(l), bx(Tok(b'd'))),
    }
}
/// the same before another part (but for the known finding)
fn part(k: usize, t: usize) -> Pg {
    let p = last(k, t);
    nd::assume(match &p {
        Opt(l) | Many(l) | SkipMany(l) | SepBy(l, _) => !alternatives(l),
        Label(o) => !matches!(&**o, Opt(l) if alternatives(l)),
        _ => true,
    });
    p
}
fn seq2(a: Pg, b: Pg) -> Pg {
    match nd::choose(3) {
        0 => Seq(bx(a), bx(b)),
        1 => With(bx(a), bx(b)),
        _ => Skip(bx(a), bx(b)),
    }
}
harnesses! {
    /// every pair of parts (of any token parser)
    fn h_c22_two[2] {
        let a = part(q(6, PARTS), q(3, TOKENS));
        let p = seq2(a, last(PARTS, q(2, TOKENS)));
        let d = nd::bytes(0, q(2, 3));
        check(&p, &d);
    }
    /// one part, of every kind, over longer input
    fn h_c22_one[2] {
        let p = last(PARTS, TOKENS);
        let p = match nd::choose(3) {
            0 => p,
            1 => Msg(bx(p)),
            _ => seq2(Tok(b'a'), p),
        };
        let d = nd::bytes(0, q(3, 4));
        check(&p, &d);
    }
    /// three parts in one sequence
    fn h_c22_three[2] {
        let (a, b, c) = (part(q(4, 7), q(1, 4)), part(q(4, 7), q(1, 3)), part(q(4, 7), 1));
        let p = Seq3(bx(a), bx(b), bx(c));
        let d = nd::bytes(0, q(2, 3));
        check(&p, &d);
    }
    /// a loop inside a label, a message, silent or lazy, before another part
    fn h_c22_wrapped[2] {
        let a = wrapped_loop(q(1, 3));
        let p = seq2(a, last(q(3, 5), 1));
        let d = nd::bytes(0, q(3, 4));
        check(&p, &d);
    }
    /// parsers that take input and then fail inside: after a token, all of it
    fn h_c22_inside[2] {
        let item = token1(q(4, TOKENS));
        let p = match nd::choose(5) {
            0 => Chainl(bx(item), bx(Tok(b'd'))),
            1 => Chainr(bx(item), bx(Tok(b'd'))),
            // (nothing taken: known finding)
            2 => Iter(nd::range(1, 3), bx(item)),
            3 => Seq(bx(item), bx(TakeWhile1(b'd'))),
            _ => Seq3(bx(TakeWhile1(b'd')), bx(item), bx(TakeWhile1(b'd'))),
        };
        let d = nd::bytes(1, q(3, 4));
        nd::assume(!matches!(p, Iter(..)) || ev(&p, &d, 0).commit);
        check(&p, &d);
    }
    /// repeat_until
    fn h_c22_until[2] {
        let item = token1(q(4, TOKENS));
        let p = RepeatUntil(bx(item), bx(Tok(b'd')));
        let p = if nd::flag() { Seq(bx(Tok(b'a')), bx(p)) } else { p };
        let d = nd::bytes(0, q(3, 4));
        check(&p, &d);
    }
    /// sequences nested at the end of sequences
    fn h_c22_nested[2] {
        let (a, b, c) = (part(q(3, 5), q(1, 2)), part(q(3, 5), q(1, 2)), part(q(3, 5), q(2, 3)));
        // (known finding: an optional part before a sequence that fails without taking input)
        nd::assume(matches!(a, Tok(_) | Label(_) | Many1(_)) && !matches!(&a, Label(o) if matches!(**o, Opt(_))));
        let p = seq2(a, Seq3(bx(b), bx(c), bx(letter())));
        check(&p, &nd::bytes(0, q(2, 3)));
    }
    /// alternatives that are sequences
    fn h_c22_choice[2] {
        // tokens: the two alternatives share `b` at most
        let tok = |x: u8, k: usize| {
            let l = if k == 0 { Tok(x) } else { Tok([x, b'b'][nd::choose(2)]) };
            match nd::choose(k + 1) {
                0 => l,
                1 => Label(bx(l)),
                2 => Msg(bx(l)),
                _ => Or(bx(l), bx(Tok(b'd'))),
            }
        };
        let alt = |x: u8, k: usize| {
            let a = tok(x, k);
            match nd::choose(4) {
                0 => a,
                1 => Seq(bx(a), bx(Tok(b'b'))),
                2 => Seq(bx(a), bx(Opt(bx(Tok(b'b'))))),
                _ => Seq(bx(Opt(bx(a))), bx(tok(b'c', 0))),
            }
        };
        let (a, b) = (alt(b'a', q(1, 3)), alt(b'd', q(1, 2)));
        let p = match nd::choose(3) {
            0 => Or(bx(a), bx(b)),
            1 => ChoiceSlice(bx(a), bx(b)),
            _ => ChoiceTuple(bx(a), bx(b)),
        };
        let p = if nd::flag() { p } else { Seq(bx(Tok(b'd')), bx(p)) };
        let d = nd::bytes(0, q(2, 3));
        check(&p, &d);
    }
    /// a list whose items are sequences, as the whole grammar
    fn h_c22_list[2] {
        let (a, b) = (token1(q(2, 4)), part(q(3, 5), 1));
        let s = if nd::flag() { Seq(bx(a), bx(b)) } else { nd::assume(!alternatives(&a)); Seq(bx(Opt(bx(a))), bx(letter())) };
        let p = match nd::choose(4) {
            0 => Many1(bx(s)),
            1 => SepBy1(bx(s), bx(Tok(b'd'))),
            2 => Many(bx(s)),
            _ => Opt(bx(s)),
        };
        let d = nd::bytes(0, q(3, 4));
        check(&p, &d);
    }
    /// an optional or repeated sequence before another part (but for the known finding)
    fn h_c22_optional_sequence[2] {
        let (x, y) = (Tok(b'b'), letter());
        let Tok(t) = y else { unreachable!() };
        let s = if nd::flag() { Seq(bx(x), bx(y)) } else { With(bx(x), bx(y)) };
        let s = Opt(bx(s));
        let p = if nd::flag() { seq2(s, letter()) } else { Seq3(bx(s), bx(Opt(bx(letter()))), bx(Tok(b'd'))) };
        check_but(&p, &nd::bytes(0, q(3, 4)), bit(t), 0, false);
    }
    /// a sequence nested first in another (but for the known finding)
    fn h_c22_nested_commit[2] {
        let (x, y) = (letter(), letter());
        let Tok(t) = y else { unreachable!() };
        let y = if nd::flag() { Opt(bx(y)) } else { Many(bx(y)) };
        let p = Seq(bx(Seq(bx(x), bx(y))), bx(letter()));
        check_but(&p, &nd::bytes(0, q(3, 4)), 0, bit(t), false);
    }
    /// known finding: iterate(0..1, a) on nothing
    fn h_c22_known_iterate[0] {
        check_but(&Iter(1, bx(Tok(b'a'))), b"", 0, bit(b'a'), true);
    }
    /// known finding: optional((b, a)) before c, on nothing
    fn h_c22_known_optional_sequence[0] {
        let p = Seq(bx(Opt(bx(Seq(bx(Tok(b'b')), bx(Tok(b'a')))))), bx(Tok(b'c')));
        check_but(&p, b"", bit(b'a'), 0, true);
    }
    /// known finding: ((a, optional(b)), c) on "ad"
    fn h_c22_known_nested_commit[0] {
        let p = Seq(bx(Seq(bx(Tok(b'a')), bx(Opt(bx(Tok(b'b')))))), bx(Tok(b'c')));
        check_but(&p, b"ad", 0, bit(b'b'), true);
    }
    /// known finding: (optional(a or b), c) on nothing
    fn h_c22_known_optional_choice[0] {
        let p = Seq(bx(Opt(bx(Or(bx(Tok(b'a')), bx(Tok(b'b')))))), bx(Tok(b'c')));
        check_but(&p, b"", 0, bit(b'c'), true);
    }
    /// known finding: ((optional(a), optional(b)), c, d) on nothing
    fn h_c22_known_nested_optional[0] {
        let p = Seq3(bx(Seq(bx(Opt(bx(Tok(b'a')))), bx(Opt(bx(Tok(b'b')))))), bx(Tok(b'c')), bx(Tok(b'd')));
        check_but(&p, b"", bit(b'd'), 0, true);
    }
    /// known finding: (optional(d), (optional(a), b)) on nothing
    fn h_c22_known_nested_last[0] {
        let p = Seq(bx(Opt(bx(Tok(b'd')))), bx(Seq(bx(Opt(bx(Tok(b'a')))), bx(Tok(b'b')))));
        check_but(&p, b"", 0, bit(b'b'), true);
    }
    /// known finding: (many((a, b)), c) on "ab"
    fn h_c22_known_many_sequence[0] {
        let p = Seq(bx(Many(bx(Seq(bx(Tok(b'a')), bx(Tok(b'b')))))), bx(Tok(b'c')));
        check_but(&p, b"ab", bit(b'b'), bit(b'c'), true);
    }
}
