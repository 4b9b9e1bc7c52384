//! C20: errors merged from alternatives keep the furthest position and every item reported there.
use crate::items::{is_eoi, leak, Es, Item, What, E, TEXT};
use crate::nd::{self, q};
use combine::error::{self, ParseError, StreamError, Tracked};
use combine::parser::choice::{choice, optional, or};
use combine::parser::combinator::attempt;
use combine::parser::sequence::skip;
use combine::parser::token::token;
use combine::stream::easy::{self, Error, Errors, Info};
use combine::stream::{position, ResetStream};
use combine::Parser;

fn distinct(v: &[Item]) -> bool {
    (0..v.len()).all(|i| !v[..i].contains(&v[i]))
}
/// `got` is the set `want`, each once
fn is_set(got: &[E], want: &[Item]) -> bool {
    got.len() == want.len() && want.iter().all(|w| got.iter().any(|g| w.like(g))) && got.iter().all(|g| want.iter().any(|w| w.like(g)))
}
fn same_set(a: &[E], b: &[E]) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.contains(x)) && b.iter().all(|x| a.contains(x))
}
fn add(v: &mut Vec<Item>, i: Item) {
    if !v.contains(&i) {
        v.push(i);
    }
}
struct Err3 {
    pos: u8,
    items: Vec<Item>,
}
impl Err3 {
    fn any(n: usize, full: bool) -> Err3 {
        let items = (0..nd::range(0, n)).map(|_| if full { Item::any() } else { Item::few() }).collect::<Vec<_>>();
        nd::assume(distinct(&items));
        Err3 { pos: nd::u8(), items }
    }
    fn make(&self) -> Es<u8> {
        Errors { position: self.pos, errors: self.items.iter().map(|i| i.make()).collect() }
    }
}
fn merge2(a: &Err3, b: &Err3) {
    let m = ParseError::merge(a.make(), b.make());
    let mut want = vec![];
    let pos = if a.pos < b.pos { b.pos } else { a.pos };
    for e in [a, b] {
        if e.pos == pos {
            for i in &e.items {
                add(&mut want, *i);
            }
        }
    }
    chk!(m.position == pos);
    chk!(ParseError::position(&m) == pos);
    chk!(is_set(&m.errors, &want));
    let m2 = ParseError::merge(b.make(), a.make());
    chk!(m2.position == m.position);
    chk!(same_set(&m.errors, &m2.errors));
    if a.pos == b.pos && want.len() < a.items.len() + b.items.len() {
        cov!(0);
    }
    if a.pos < b.pos {
        cov!(1);
    }
}
fn merge3(n: usize) {
    let (a, b, c) = (Err3::any(n, false), Err3::any(n, false), Err3::any(n, false));
    let l = ParseError::merge(ParseError::merge(a.make(), b.make()), c.make());
    let r = ParseError::merge(a.make(), ParseError::merge(b.make(), c.make()));
    chk!(l.position == r.position);
    chk!(same_set(&l.errors, &r.errors));
    let mut want = vec![];
    for e in [&a, &b, &c] {
        if e.pos == l.position {
            for i in &e.items {
                add(&mut want, *i);
            }
        }
        chk!(e.pos <= l.position);
    }
    chk!(is_set(&l.errors, &want));
    cov!(0);
}
/// the info of an item as a parser gives it
fn with_info(i: &Item, e: &mut Es<u8>) {
    macro_rules! go {
        ($x:expr) => {
            match i.kind {
                0 => e.add_unexpected($x),
                1 => e.add_expected($x),
                _ => e.add_message($x),
            }
        };
    }
    match i.what {
        What::Token(t) => {
            if nd::flag() {
                go!(t)
            } else {
                go!(error::Token(t))
            }
        }
        What::Range(t) => go!(error::Range(leak(t))),
        What::Static(k) => go!(TEXT[k]),
        What::Owned(k) => go!(error::Format(TEXT[k])),
    }
}
/// adding, expecting, clearing on an error that has some items
fn history(n: usize) {
    let s = Err3::any(n, false);
    let mut e = s.make();
    let mut w = s.items.clone();
    let i = Item::any();
    let mut pos = s.pos;
    match nd::choose(8) {
        0 => {
            e.add(i.make());
            add(&mut w, i);
        }
        1 => {
            e.add_error(i.make());
            add(&mut w, i);
        }
        2 => {
            with_info(&i, &mut e);
            add(&mut w, i);
        }
        3 => {
            e.clear_expected();
            w.retain(|x| x.kind != 1);
        }
        4 => {
            let info = match (Item { kind: 1, ..i }).make() {
                Error::Expected(x) => x,
                _ => unreachable!(),
            };
            Errors::set_expected(&mut e, info);
            w.retain(|x| x.kind != 1);
            w.push(Item { kind: 1, ..i });
        }
        5 => {
            // what is added inside is dropped if it is an expectation, and replaced by the label
            let (x, y) = (Item::few(), Item::few());
            let label = Item { kind: 1, ..i };
            let mut t = Tracked::from(e);
            ParseError::set_expected(&mut t, label.make(), |t| {
                t.error.add(x.make());
                t.error.add(y.make());
            });
            e = t.error;
            for z in [x, y] {
                if z.kind != 1 {
                    add(&mut w, z);
                }
            }
            add(&mut w, label);
            cov!(0);
        }
        6 => {
            pos = nd::u8();
            ParseError::<u8, &'static [u8], u8>::set_position(&mut e, pos);
        }
        _ => {
            e = if nd::flag() {
                w = vec![i];
                ParseError::from_error(pos, i.make())
            } else {
                w = vec![];
                ParseError::empty(pos)
            };
            if nd::flag() {
                add(&mut w, Item { kind: 0, what: What::Static(1) });
                e.add(StreamError::end_of_input());
            }
        }
    }
    chk!(e.position == pos);
    chk!(is_set(&e.errors, &w));
    chk!(ParseError::is_unexpected_end_of_input(&e) == w.iter().any(is_eoi));
}

// ---- whole parsers

type S<'a> = easy::Stream<position::Stream<&'a [u8], position::IndexPositioner>>;
fn stream(d: &[u8]) -> S<'_> {
    easy::Stream(position::Stream::with_positioner(d, position::IndexPositioner::new()))
}
type Pe<'a> = Errors<u8, &'a [u8], usize>;
fn run<'a, P: Parser<S<'a>, Output = ()>>(d: &'a [u8], mut p: P) -> Result<(), Pe<'a>> {
    let mut s = stream(d);
    let at = s.checkpoint();
    let r = p.parse_stream(&mut s).into_result();
    s.reset(at).unwrap();
    match r {
        Ok(_) => Ok(()),
        Err(e) => Err(e.into_inner().error),
    }
}
fn set<'a>(m: &mut Vec<Error<u8, &'a [u8]>>, e: Vec<Error<u8, &'a [u8]>>) {
    for x in e {
        if !m.contains(&x) {
            m.push(x);
        }
    }
}
/// Checks the error of a choice against the errors of its alternatives alone. `strict`: also that
/// there is nothing from the start of the choice in an error that is further on.
fn alternatives<'a>(whole: Result<(), Pe<'a>>, each: Vec<Result<(), Pe<'a>>>, first: Option<u8>, starts: &[u8], strict: bool, at: usize) {
    let mut pos = 0;
    for e in &each {
        match e {
            // (the alternatives take at most as much as those that fail, or the choice succeeds)
            Ok(_) => {
                chk!(whole.is_ok());
                return;
            }
            Err(e) => {
                if e.position > pos {
                    pos = e.position;
                }
            }
        }
    }
    let mut want = vec![];
    for e in each {
        if let Err(e) = e {
            if e.position == pos {
                set(&mut want, e.errors);
            }
        }
    }
    match whole {
        Ok(_) => chk!(false),
        Err(e) => {
            chk!(e.position == pos);
            // every item from there
            chk!(want.iter().all(|w| e.errors.contains(w)));
            // each once
            chk!((0..e.errors.len()).all(|i| !e.errors[..i].contains(&e.errors[i])));
            // and nothing else, but for the known finding: what was unexpected and expected at the start
            for x in &e.errors {
                let start = pos > at
                    && match x {
                        Error::Unexpected(Info::Token(t)) => first == Some(*t),
                        Error::Expected(Info::Token(t)) => starts.contains(t),
                        _ => false,
                    };
                chk!(start || want.contains(x));
                if strict {
                    known!(want.contains(x));
                }
            }
            if pos > at {
                cov!(1);
            } else {
                cov!(0);
            }
        }
    }
}
fn t2<'a>(a: u8, b: u8) -> impl Parser<S<'a>, Output = ()> {
    (token(a), token(b)).map(|_| ())
}
fn t3<'a>(a: u8, b: u8, c: u8) -> impl Parser<S<'a>, Output = ()> {
    skip(skip(token(a), token(b)), token(c)).map(|_| ())
}
fn opt<'a>(a: u8, b: u8) -> impl Parser<S<'a>, Output = ()> {
    optional(token(a)).skip(token(b)).map(|_| ())
}

harnesses! {
    /// two errors, any positions, up to 1 (2) of any items each: unexpected, expected, message × token, range, static and owned text
    fn h_c20_merge[2] {
        let n = q(1, 2);
        merge2(&Err3::any(n, true), &Err3::any(1, true));
    }
    /// two errors with up to 2 (3) items each: tokens and texts
    fn h_c20_merge_few[2] {
        let n = q(2, 3);
        merge2(&Err3::any(n, false), &Err3::any(2, false));
    }
    /// three errors of one item each, in both groupings
    fn h_c20_group[1] {
        merge3(1);
    }
    /// one operation on an error with up to 2 (3) items
    fn h_c20_add[1] {
        history(q(2, 3));
    }
    /// choices (tuple, or, nested) of two attempted sequences and a literal, all bytes symbolic, over any 3 bytes at most
    fn h_c20_attempts[2] {
        let d = nd::bytes(0, 3);
        let l = nd::bytes_n(5);
        let p = || attempt(t2(l[0], l[1]));
        let r = || attempt(t2(l[2], l[3]));
        let s = || token(l[4]).map(|_| ());
        let whole = match nd::choose(3) {
            0 => run(&d, choice((p(), r(), s()))),
            1 => run(&d, p().or(r()).or(s())),
            _ => run(&d, or(p(), choice((r(), s())))),
        };
        alternatives(whole, vec![run(&d, p()), run(&d, r()), run(&d, s())], d.first().copied(), &[l[0], l[2], l[4]], false, 0);
    }
    /// slices and arrays of two and three attempted sequences
    fn h_c20_slices[2] {
        let d = nd::bytes(0, 3);
        let l = nd::bytes_n(6);
        let p = |i: usize| attempt(t2(l[i], l[i + 1]));
        let starts = [l[0], l[2], l[4]];
        let three = nd::flag();
        let (whole, mut each) = match three {
            true => (run(&d, choice([p(0), p(2), p(4)])), vec![run(&d, p(0)), run(&d, p(2)), run(&d, p(4))]),
            _ => (run(&d, choice(&mut [p(0), p(2)][..])), vec![run(&d, p(0)), run(&d, p(2))]),
        };
        if nd::flag() {
            each.reverse();
        }
        alternatives(whole, each, d.first().copied(), &starts, false, 0);
    }
    /// the same choices behind a first token, and four alternatives of three tokens
    fn h_c20_nested[2] {
        let d = nd::bytes(0, q(3, 4));
        let l = nd::bytes_n(8);
        let p = || attempt(t3(l[0], l[1], l[2]));
        let r = || attempt(t2(l[3], l[4]));
        let s = || opt(l[5], l[6]);
        let f = || token(l[7]).map(|_| ());
        if nd::flag() {
            let t = || token(b'(');
            nd::assume(d.len() > 1 && d[0] == b'(' && d[1] != l[5]);
            let whole = match nd::flag() {
                true => run(&d, t().with(choice((p(), r(), s(), f())))),
                _ => run(&d, (t(), p().or(r()).or(f()).or(s())).map(|_| ())),
            };
            let each = vec![run(&d, t().with(p())), run(&d, t().with(r())), run(&d, t().with(s())), run(&d, t().with(f()))];
            alternatives(whole, each, d.get(1).copied(), &[l[0], l[3], l[5], l[6], l[7]], false, 1);
        } else {
            nd::assume(d.is_empty() || d[0] != l[5]);
            let whole = run(&d, choice((p(), r(), s(), f())));
            alternatives(whole, vec![run(&d, p()), run(&d, r()), run(&d, s()), run(&d, f())], d.first().copied(), &[l[0], l[3], l[5], l[6], l[7]], false, 0);
        }
    }
    /// the same with longer sequences and with an optional first part
    fn h_c20_sequences[2] {
        let d = nd::bytes(0, q(2, 3));
        let l = nd::bytes_n(5);
        let p = || attempt(t3(l[0], l[1], l[2]));
        let r = || opt(l[3], l[4]);
        nd::assume(d.is_empty() || d[0] != l[3]);
        let whole = match nd::choose(3) {
            0 => run(&d, choice((p(), r()))),
            1 => run(&d, choice((p(), r()))),
            _ => run(&d, or(r(), p())),
        };
        alternatives(whole, vec![run(&d, p()), run(&d, r())], d.first().copied(), &[l[0], l[3], l[4]], false, 0);
    }
    /// known finding: an attempt that fails past the start of a choice
    fn h_c20_attempt_start[1] {
        let d = [b'a', nd::u8()];
        let l = [b'a', nd::u8(), nd::u8()];
        let p = || attempt(t2(l[0], l[1]));
        let r = || attempt(t2(l[0], l[2]));
        alternatives(run(&d, p().or(r())), vec![run(&d, p()), run(&d, r())], d.first().copied(), &[l[0]], true, 0);
    }
}
