//! C12: range parsers return the exact sub-slice.
use crate::nd::{self, q};
use crate::probe::*;
use crate::prog::*;
use crate::streams::*;
use crate::{with_bytes, with_text};
use combine::error::{ParseError, ParseResult::{self, *}};
use combine::parser::byte::{take_until_byte, take_until_byte2, take_until_byte3, take_until_bytes};
use combine::parser::range::*;
use combine::parser::token::{any, satisfy};
use combine::stream::{RangeStream, StreamOnce};
use combine::Parser;

/// The documented result: the sub-slice ends there (how committed), or the failure (PERR, CERR), or
/// the input is too short (EOI: on a partial stream a committed end of input, otherwise a failure).
#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    End(usize),
    Fail,
    Eoi,
}
use Want::*;

/// Judges result `r` of a range parser started at byte `a` of `b`, the stream being `s` afterwards.
fn judge<S>(r: ParseResult<S::Range, S::Error>, s: &S, b: &[u8], a: usize, want: Want)
where
    S: RangeStream,
    S::Range: Rng + combine::stream::Range,
{
    let k = kind_of(&r);
    nd::obs(k as u64);
    match r {
        CommitOk(x) | PeekOk(x) => {
            cov!(0);
            match want {
                End(e) => {
                    chk!(x.b() == &b[a..e]);
                    chk!(s.range().b() == &b[e..]);
                    chk!((k == COK) == (e > a));
                }
                _ => chk!(false),
            }
        }
        CommitErr(e) => {
            cov!(1);
            chk!(want == Eoi);
            if s.is_partial() { chk!(e.is_unexpected_end_of_input()); }
        }
        PeekErr(_) => {
            cov!(1);
            match want {
                Eoi => chk!(!s.is_partial()),
                w => chk!(w == Fail),
            }
        }
    }
}
/// Starts after `n` tokens.
fn skip<S: StreamOnce>(s: &mut S, n: usize) {
    for _ in 0..n {
        let _ = s.uncons();
    }
}
fn find(b: &[u8], a: usize, n: &[u8]) -> Option<usize> {
    (a..b.len() + 1).find(|&i| i + n.len() <= b.len() && b[i..i + n.len()] == *n)
}
/// Is `o` between two characters of the text, or at its ends?
fn bound(b: &[u8], o: usize) -> bool {
    o == b.len() || !(0x80..0xc0).contains(&b[o])
}
/// longest run from `a`; on a partial stream it must not reach the end of what is there
fn run_end(b: &[u8], a: usize, f: impl Fn(u8) -> bool, partial: bool, one: bool) -> Want {
    let mut e = a;
    while e < b.len() && f(b[e]) { e += 1; }
    if e == b.len() && (partial || one && a == e) { Eoi } else if one && a == e { Fail } else { End(e) }
}
const L: usize = q(4, 6);

harnesses! {
    /// range: a literal of 1..=3 arbitrary bytes against 0..=4 (thorough 6) arbitrary bytes, from any start
    fn h_c12_range[2] {
        let w = nd::choose(BYTES);
        let b = nd::bytes(0, L);
        let t = nd::bytes(1, 3);
        let a = nd::range(0, b.len().min(1));
        let want = if b.len() - a < t.len() { Eoi } else if b[a..a + t.len()] == t[..] { End(a + t.len()) } else { Fail };
        with_bytes!(w, &b, |s| { let mut s = s; skip(&mut s, a); let r = range(&t[..]).parse_stream(&mut s); judge(r, &s, &b, a, want) })
    }
    /// range and take over text: any characters of 1 or 2 bytes, literals and lengths that end inside a character as well
    fn h_c12_text[2] {
        let w = nd::choose(TEXTS);
        let tx = nd::text(0, q(3, 4), 2);
        let b = tx.as_bytes();
        match nd::choose(3) {
            0 => {
                let t = nd::text(1, 2, 2);
                let n = t.len();
                let want = if b.len() < n { Eoi } else if b[..n] == *t.as_bytes() { End(n) } else { Fail };
                with_text!(w, &tx, |s| { let mut s = s; let r = range(&t[..]).parse_stream(&mut s); judge(r, &s, b, 0, want) })
            }
            1 => {
                let n = nd::range(0, 5);
                let want = if b.len() < n { Eoi } else if bound(b, n) { End(n) } else { Fail };
                with_text!(w, &tx, |s| { let mut s = s; let r = take(n).parse_stream(&mut s); judge(r, &s, b, 0, want) })
            }
            _ => {
                // runs of two-byte characters
                let one = nd::flag();
                let mut e = 0;
                while e < b.len() && b[e] >= 0x80 { e += 2; }
                with_text!(w, &tx, |s| {
                    let mut s = s;
                    let partial = s.is_partial();
                    let want = if e == b.len() && (partial || one && e == 0) { Eoi } else if one && e == 0 { Fail } else { End(e) };
                    let r = if one { take_while1(|c: char| c >= '\u{80}').parse_stream(&mut s) } else { take_while(|c: char| c >= '\u{80}').parse_stream(&mut s) };
                    judge(r, &s, b, 0, want)
                })
            }
        }
    }
    /// take(n), take_while, take_while1 and length_prefix over bytes, from any start
    fn h_c12_take[2] {
        let w = nd::choose(BYTES);
        let b = nd::bytes(0, L);
        let a = nd::range(0, b.len().min(1));
        match nd::choose(4) {
            0 => {
                let n = nd::range(0, L + 1);
                let want = if b.len() - a < n { Eoi } else { End(a + n) };
                with_bytes!(w, &b, |s| { let mut s = s; skip(&mut s, a); let r = take(n).parse_stream(&mut s); judge(r, &s, &b, a, want) })
            }
            k @ 1..=2 => with_bytes!(w, &b, |s| {
                let mut s = s;
                skip(&mut s, a);
                let f = |c: u8| c >= 100;
                let want = run_end(&b, a, f, s.is_partial(), k == 2);
                let r = if k == 2 { take_while1(f).parse_stream(&mut s) } else { take_while(f).parse_stream(&mut s) };
                judge(r, &s, &b, a, want)
            }),
            _ => with_bytes!(w, &b, |s| {
                let mut s = s;
                skip(&mut s, a);
                let r = length_prefix(any()).parse_stream(&mut s);
                let rest = b.len() - a;
                let k = kind_of(&r);
                match r {
                    CommitOk(x) => { cov!(0); chk!(rest > 0 && b[a] as usize <= rest - 1); let n = b[a] as usize; chk!(*x == b[a + 1..a + 1 + n]); chk!(*s.range() == b[a + 1 + n..]); }
                    PeekOk(_) => chk!(false),
                    CommitErr(e) => { cov!(1); chk!(rest == 0 && s.is_partial() || rest > 0 && b[a] as usize > rest - 1); chk!(is_eoi(&s, &e)); }
                    PeekErr(_) => chk!(rest == 0 && !s.is_partial()),
                }
                nd::obs(k as u64);
            }),
        }
    }
    /// take_until_range, take_until_bytes, take_until_byte/2/3 and take_fn over bytes: any needle of 1..=3 bytes, any input, from any start
    fn h_c12_until[2] {
        let w = nd::choose(BYTES);
        let which = nd::choose(6);
        let b = nd::alpha(0, q(5, 6), b'a', 3);
        let a = nd::range(0, b.len().min(1));
        let t = match which { 0 | 1 => nd::alpha(0, 3, b'a', 3), 2 | 5 => nd::alpha_n(1, b'a', 3), 3 => nd::alpha_n(2, b'a', 3), _ => nd::alpha_n(3, b'a', 3) };
        let at = if which < 2 { find(&b, a, &t) } else { (a..b.len()).find(|&i| t.contains(&b[i])) };
        with_bytes!(w, &b, |s| {
            let mut s = s;
            skip(&mut s, a);
            let r = match which {
                0 => take_until_range(&t[..]).parse_stream(&mut s),
                1 => take_until_bytes(&t[..]).parse_stream(&mut s),
                2 => take_until_byte(t[0]).parse_stream(&mut s),
                3 => take_until_byte2(t[0], t[1]).parse_stream(&mut s),
                4 => take_until_byte3(t[0], t[1], t[2]).parse_stream(&mut s),
                _ => take_fn(|r: &[u8]| r.iter().position(|x| *x == t[0])).parse_stream(&mut s),
            };
            judge(r, &s, &b, a, at.map_or(Eoi, End))
        })
    }
    /// the same over text of characters of 1, 2 or 3 bytes
    fn h_c12_until_text[2] {
        let w = nd::choose(TEXTS);
        let which = nd::choose(4);
        // characters that share bytes with each other
        fn tx(n: usize) -> String {
            let mut v = vec![];
            for _ in 0..n {
                let y = nd::u8();
                match nd::choose(3) {
                    0 => { nd::assume(y == b'a' || y == b'b'); v.push(y) }
                    1 => { nd::assume(y == 0xa9 || y == 0xaa); v.extend([0xc3, y]) }
                    _ => { nd::assume(y == 0xa9 || y == 0xaa); v.extend([0xe3, 0xaa, y]) }
                }
            }
            nd::to_text(v)
        }
        let n = nd::range(0, q(3, 4));
        let s0 = tx(n);
        let b = s0.as_bytes();
        let m = nd::range(1, 2);
        let t = tx(m);
        let at = if which < 2 { find(b, 0, t.as_bytes()) } else { (0..b.len()).find(|&i| b[i] == b'a') };
        with_text!(w, &s0, |s| {
            let mut s = s;
            let r = match which {
                0 => take_until_range(&t[..]).parse_stream(&mut s),
                1 => take_until_bytes(t.as_bytes()).parse_stream(&mut s),
                2 => take_until_byte(b'a').parse_stream(&mut s),
                _ => take_fn(|r: &str| r.bytes().position(|x| x == b'a')).parse_stream(&mut s),
            };
            judge(r, &s, b, 0, at.map_or(Eoi, End))
        })
    }
    /// recognize and recognize_with_value around any parser program of depth 1 over any input of 0..=3 bytes: the slice is what the parser took, the outcome is the parser's
    fn h_c12_recognize[2] {
        let p = any_prog(1, LEAVES);
        if !wellformed(&p) { return; }
        let b = nd::alpha(0, 3, b'a', 3);
        let mut e = 0;
        let want = ev(&p, &b, &mut e, 0);
        let with = nd::flag();
        let mut s = &b[..];
        let (k, r, v) = if with {
            let r = recognize_with_value(build::<&[u8]>(&p)).parse_stream(&mut s);
            let k = kind_of(&r);
            match r { CommitOk((x, v)) | PeekOk((x, v)) => (k, Some(x), Some(v)), _ => (k, None, None) }
        } else {
            let r = recognize(build::<&[u8]>(&p)).parse_stream(&mut s);
            let k = kind_of(&r);
            match r { CommitOk(x) | PeekOk(x) => (k, Some(x), None), _ => (k, None, None) }
        };
        match want {
            R::COk(x) | R::POk(x) => {
                cov!(0);
                chk!(r == Some(&b[..e]));
                chk!(s.len() == b.len() - e);
                if with { chk!(v == Some(x)); }
            }
            R::CErr => { cov!(1); chk!(k == CERR) }
            R::PErr => { cov!(1); chk!(k == PERR) }
        }
    }
    /// nested recognize, between other parsers, with and without a rest, over text
    fn h_c12_nested[1] {
        let tx = nd::text(0, q(3, 4), 2);
        let b = tx.as_bytes();
        let mut s = &tx[..];
        let wide = || satisfy(|c: char| c >= '\u{80}');
        let r = (recognize((any(), recognize(combine::skip_many(wide())))), combine::optional(recognize(any())), recognize(combine::value(0))).parse_stream(&mut s);
        if b.is_empty() { chk!(kind_of(&r) == PERR); return; }
        let w = |i: usize| if b[i] < 0x80 { 1 } else { 2 };
        let mut e = w(0);
        while e < b.len() && b[e] >= 0x80 { e += 2; }
        match r {
            CommitOk((x, y, z)) => {
                cov!(0);
                chk!(x.as_bytes() == &b[..e]);
                chk!(y.map_or(&b[..0], |y| y.as_bytes()) == if e < b.len() { &b[e..e + w(e)] } else { &b[..0] });
                chk!(z.is_empty());
                chk!(s.as_bytes() == if e < b.len() { &b[e + w(e)..] } else { &b[..0] });
            }
            _ => chk!(false),
        }
    }
}
