//! C13: token and character-class parsers accept exactly their class.
use crate::nd::{self, q};
use crate::probe::*;
use crate::streams::*;
use crate::{with_bytes, with_text};
use combine::error::ParseResult::*;
use combine::parser::{byte, char};
use combine::parser::token::*;
use combine::stream::{RangeStream, ResetStream, StreamOnce};
use combine::{eof, produce, unexpected_any, value, Parser};

/// `r` of a single-token parser on stream `s` (which held `b`, its first token `w` bytes long and, if
/// it lies in the class, worth `want`).
fn one<S, O: PartialEq + Clone>(r: combine::ParseResult<O, S::Error>, s: &mut S, b: &[u8], w: usize, want: Option<O>)
where
    S: RangeStream,
    S::Range: Rng + combine::stream::Range,
{
    let k = kind_of(&r);
    nd::obs(k as u64);
    match r {
        CommitOk(x) => {
            cov!(0);
            chk!(want == Some(x));
            chk!(s.range().b() == &b[w..]);
        }
        PeekOk(_) => chk!(false),
        CommitErr(e) => chk!(b.is_empty() && s.is_partial() && is_eoi(s, &e)),
        PeekErr(_) => {
            cov!(1);
            chk!(want.is_none());
            chk!(!(b.is_empty() && s.is_partial()));
        }
    }
}
/// `r` of a literal: `m` of its `n` tokens match the input, `more`: the next token of the input exists
fn lit<S, O>(r: &combine::ParseResult<O, S::Error>, s: &S, b: &[u8], m: usize, n: usize, more: bool, end: usize) -> bool
where
    S: RangeStream,
    S::Range: Rng + combine::stream::Range,
{
    let k = kind_of(r);
    nd::obs(k as u64);
    if m == n {
        cov!(0);
        chk!(k == if n == 0 { POK } else { COK });
        chk!(s.range().b() == &b[end..]);
        true
    } else {
        cov!(1);
        chk!(k == if m > 0 || !more && s.is_partial() { CERR } else { PERR });
        if let CommitErr(e) = r { chk!(!s.is_partial() || is_eoi(s, e) == !more); }
        false
    }
}
/// the classes of the ASCII characters, written out
fn ascii(class: usize, c: u8) -> bool {
    match class {
        0 => c >= b'0' && c <= b'9',
        1 => c == b' ' || c >= 9 && c <= 13 && c != 11,
        2 => c == b'\n',
        3 => c == b'\t',
        4 => c >= b'A' && c <= b'Z',
        5 => c >= b'a' && c <= b'z',
        6 => ascii(0, c) || ascii(4, c) || ascii(5, c),
        7 => ascii(4, c) || ascii(5, c),
        8 => c >= b'0' && c <= b'7',
        _ => ascii(0, c) || c >= b'a' && c <= b'f' || c >= b'A' && c <= b'F',
    }
}

harnesses! {
    /// every byte class parser on every first byte (and none), on six streams
    fn h_c13_bytes[2] {
        let w = nd::choose(BYTES);
        let class = nd::choose(10);
        let b = nd::bytes(0, 2);
        let want = if !b.is_empty() && ascii(class, b[0]) { Some(b[0]) } else { None };
        with_bytes!(w, &b, |s| {
            let mut s = s;
            let r = match class {
                0 => byte::digit().parse_stream(&mut s),
                1 => byte::space().parse_stream(&mut s),
                2 => byte::newline().parse_stream(&mut s),
                3 => byte::tab().parse_stream(&mut s),
                4 => byte::upper().parse_stream(&mut s),
                5 => byte::lower().parse_stream(&mut s),
                6 => byte::alpha_num().parse_stream(&mut s),
                7 => byte::letter().parse_stream(&mut s),
                8 => byte::oct_digit().parse_stream(&mut s),
                _ => byte::hex_digit().parse_stream(&mut s),
            };
            one(r, &mut s, &b, 1, want)
        })
    }
    /// every character class parser on every ASCII first character, on two streams (thorough: five)
    fn h_c13_ascii[2] {
        let w = if q(0, 1) == 0 { 1 + nd::choose(2) } else { nd::choose(TEXTS) };
        let class = nd::choose(10);
        let n = nd::range(0, 1);
        let tx = nd::text_n(n, 1);
        let b = tx.as_bytes();
        // `char::is_whitespace` counts the vertical tab
        let want = if n > 0 && (ascii(class, b[0]) || class == 1 && b[0] == 11) { Some(b[0] as char) } else { None };
        with_text!(w, &tx, |s| {
            let mut s = s;
            let r = match class {
                0 => char::digit().parse_stream(&mut s),
                1 => char::space().parse_stream(&mut s),
                2 => char::newline().parse_stream(&mut s),
                3 => char::tab().parse_stream(&mut s),
                4 => char::upper().parse_stream(&mut s),
                5 => char::lower().parse_stream(&mut s),
                6 => char::alpha_num().parse_stream(&mut s),
                7 => char::letter().parse_stream(&mut s),
                8 => char::oct_digit().parse_stream(&mut s),
                _ => char::hex_digit().parse_stream(&mut s),
            };
            one(r, &mut s, b, 1, want)
        })
    }
    /// every character class parser on every character of two bytes (thorough: of any width): the class is the one of the standard library that the documentation names
    fn h_c13_unicode[2] {
        let class = nd::choose(10);
        let mut v = vec![];
        let width = nd::range(2, q(2, 4));
        nd::push_char(&mut v, width);
        let tx = nd::to_text(v);
        let b = tx.as_bytes();
        let c = std::char::from_u32(decode1(b).0).unwrap();
        let yes = match class {
            1 => c.is_whitespace(),
            4 => c.is_uppercase(),
            5 => c.is_lowercase(),
            6 => c.is_alphabetic() || c.is_numeric(),
            7 => c.is_alphabetic(),
            _ => false,
        };
        let want = if yes { Some(c) } else { None };
        let mut s = &tx[..];
        let r = match class {
            0 => char::digit().parse_stream(&mut s),
            1 => char::space().parse_stream(&mut s),
            2 => char::newline().parse_stream(&mut s),
            3 => char::tab().parse_stream(&mut s),
            4 => char::upper().parse_stream(&mut s),
            5 => char::lower().parse_stream(&mut s),
            6 => char::alpha_num().parse_stream(&mut s),
            7 => char::letter().parse_stream(&mut s),
            8 => char::oct_digit().parse_stream(&mut s),
            _ => char::hex_digit().parse_stream(&mut s),
        };
        one(r, &mut s, b, b.len(), want)
    }
    /// token, satisfy, satisfy_map, one_of, none_of, any with arbitrary tokens and sets of up to three, on six byte streams
    fn h_c13_tokens[2] {
        let w = nd::choose(BYTES);
        let b = nd::bytes(0, 2);
        let which = nd::choose(7);
        let t = nd::bytes_n(3);
        let n = nd::range(0, 3);
        let f = if b.is_empty() { None } else { Some(b[0]) };
        with_bytes!(w, &b, |s| {
            let mut s = s;
            if which == 6 {
                let r = satisfy_map(|c: u8| if c > t[0] { Some(c as u16 + 1) } else { None }).parse_stream(&mut s);
                one(r, &mut s, &b, 1, f.filter(|c| *c > t[0]).map(|c| c as u16 + 1))
            } else {
                let (r, want) = match which {
                    0 => (token(t[0]).parse_stream(&mut s), f.filter(|c| *c == t[0])),
                    1 => (byte::byte(t[0]).parse_stream(&mut s), f.filter(|c| *c == t[0])),
                    2 => (satisfy(|c: u8| c < t[0] || c == t[1]).parse_stream(&mut s), f.filter(|c| *c < t[0] || *c == t[1])),
                    3 => (one_of(t[..n].iter().cloned()).parse_stream(&mut s), f.filter(|c| t[..n].contains(c))),
                    4 => (none_of(t[..n].iter().cloned()).parse_stream(&mut s), f.filter(|c| !t[..n].contains(c))),
                    _ => (any().parse_stream(&mut s), f),
                };
                one(r, &mut s, &b, 1, want)
            }
        })
    }
    /// the same over characters of any width
    fn h_c13_chars[2] {
        let w = nd::choose(TEXTS);
        let tx = nd::text(0, 2, q(3, 4));
        let b = tx.as_bytes();
        let which = nd::choose(4);
        let cs = nd::text_n(2, 2);
        let t = [std::char::from_u32(decode1(cs.as_bytes()).0).unwrap(), std::char::from_u32(decode1(&cs.as_bytes()[decode1(cs.as_bytes()).1..]).0).unwrap()];
        let f = if b.is_empty() { None } else { std::char::from_u32(decode1(b).0) };
        let width = if b.is_empty() { 0 } else { decode1(b).1 };
        with_text!(w, &tx, |s| {
            let mut s = s;
            let (r, want) = match which {
                0 => (char::char(t[0]).parse_stream(&mut s), f.filter(|c| *c == t[0])),
                1 => (one_of(t).parse_stream(&mut s), f.filter(|c| t.contains(c))),
                2 => (none_of(t).parse_stream(&mut s), f.filter(|c| !t.contains(c))),
                _ => (any().parse_stream(&mut s), f),
            };
            one(r, &mut s, b, width, want)
        })
    }
    /// tokens, tokens_cmp, bytes_cmp with any literal of up to 3 bytes and any input of up to 4 (thorough: 5), compared exactly or up to the case bit, from any start
    fn h_c13_literal[2] {
        let w = nd::choose(BYTES);
        let n = nd::range(0, 3);
        let t = nd::bytes_n(n);
        let all = nd::bytes(0, q(4, 5));
        let a = nd::range(0, all.len().min(1));
        let b = &all[a..];
        let which = nd::choose(3);
        let eq = |x: u8, y: u8| if which == 2 { x | 32 == y | 32 } else { x == y };
        let mut m = 0;
        while m < n && m < b.len() && eq(t[m], b[m]) { m += 1; }
        with_bytes!(w, &all, |s| {
            let mut s = s;
            if a == 1 { let _ = s.uncons(); }
            let ok = if which == 0 {
                let r = tokens(|x, y| x == y, "lit", t.iter().cloned()).parse_stream(&mut s);
                let ok = lit(&r, &s, b, m, n, m < b.len(), n);
                if let CommitOk(x) | PeekOk(x) = r { chk!(x.eq(t.iter().cloned())); }
                ok
            } else {
                let r = tokens_cmp(t.iter().cloned(), eq).parse_stream(&mut s);
                lit(&r, &s, b, m, n, m < b.len(), n)
            };
            nd::obs(ok as u64);
        })
    }
    /// bytes, string, string_cmp and crlf with fixed literals against any input
    fn h_c13_fixed[2] {
        let which = nd::choose(5);
        if which < 3 {
            let w = nd::choose(BYTES);
            let b = nd::bytes(0, q(4, 5));
            let l: &'static [u8] = match which { 0 => b"abc", 1 => b"ab", _ => b"\r\n" };
            let n = l.len();
            let eq = |x: u8, y: u8| if which == 1 { x | 32 == y | 32 } else { x == y };
            let mut m = 0;
            while m < n && m < b.len() && eq(l[m], b[m]) { m += 1; }
            with_bytes!(w, &b, |s| {
                let mut s = s;
                let ok = match which {
                    0 => { let r = byte::bytes(l).parse_stream(&mut s); if let CommitOk(x) = &r { chk!(*x == l); } lit(&r, &s, &b, m, n, m < b.len(), n) }
                    1 => { let r = byte::bytes_cmp(l, eq).parse_stream(&mut s); if let CommitOk(x) = &r { chk!(*x == l); } lit(&r, &s, &b, m, n, m < b.len(), n) }
                    _ => { let r = byte::crlf().parse_stream(&mut s); if let CommitOk(x) = &r { chk!(*x == b'\n'); } lit(&r, &s, &b, m, n, m < b.len(), n) }
                };
                nd::obs(ok as u64);
            })
        } else {
            let w = nd::choose(TEXTS);
            let tx = nd::text(0, q(3, 4), 2);
            let b = tx.as_bytes();
            let l = if which == 3 { "a\u{e9}b" } else { "\r\n" };
            // the two are the same byte by byte, but take input by characters
            let lb = l.as_bytes();
            let mut m = 0;
            let mut at = 0;
            for (i, c) in l.char_indices() {
                let n = c.len_utf8();
                if i < b.len() && i + n <= b.len() && b[i..i + n] == lb[i..i + n] { m += 1; at = i + n; } else { break; }
            }
            let n = l.chars().count();
            with_text!(w, &tx, |s| {
                let mut s = s;
                let ok = if which == 3 {
                    let r = char::string(l).parse_stream(&mut s);
                    if let CommitOk(x) = &r { chk!(*x == l); }
                    lit(&r, &s, b, m, n, at < b.len(), at)
                } else {
                    let r = char::crlf().parse_stream(&mut s);
                    if let CommitOk(x) = &r { chk!(*x == '\n'); }
                    lit(&r, &s, b, m, n, at < b.len(), at)
                };
                nd::obs(ok as u64);
            })
        }
    }
    /// eof, value, produce, position, unexpected and a class parser that was reset
    fn h_c13_still[2] {
        let w = nd::choose(BYTES);
        let b = nd::bytes(0, 2);
        let which = nd::choose(5);
        with_bytes!(w, &b, |s| {
            let mut s = s;
            let before = s.checkpoint();
            let (k, eoi) = match which {
                0 => { let r = eof().parse_stream(&mut s); (kind_of(&r), match &r { CommitErr(e) => is_eoi(&s, e), _ => false }) }
                1 => { let r = value(7).parse_stream(&mut s); chk!(matches!(r, PeekOk(7))); (POK, false) }
                2 => { let mut n = 0; let r = produce(|| { n += 1; n }).parse_stream(&mut s); chk!(matches!(r, PeekOk(1))); (POK, false) }
                3 => { let r = unexpected_any::<_, _, u8>("x").parse_stream(&mut s); (kind_of(&r), false) }
                _ => { let r = position().map(|_| ()).parse_stream(&mut s); (kind_of(&r), false) }
            };
            let p = s.is_partial();
            let want = match which { 0 if b.is_empty() && p => CERR, 0 if b.is_empty() => POK, 0 | 3 => PERR, _ => POK };
            chk!(k == want);
            if k == CERR { chk!(eoi); }
            if k == POK { cov!(0); chk!(*s.range() == b[..]); } else { cov!(1) }
            chk!(s.reset(before).is_ok());
            chk!(*s.range() == b[..]);
        })
    }
}
