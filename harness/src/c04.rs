//! C04: positions are the fold of the consumed input.
use crate::nd::{self, q};
use crate::streams::*;
use combine::stream::position::{self, IndexPositioner, Positioner, RangePositioner, SourcePosition};
use combine::stream::{state, easy, buffered, IteratorStream, PointerOffset, Positioned, RangeStream, RangeStreamOnce, ResetStream, StreamOnce, SliceStream};
use combine::{Parser, EasyParser};

/// Line and column by counting, over the tokens `0..k`.
fn fold(m: &Model, from: (i32, i32), k: usize) -> (i32, i32) {
    let (mut l, mut c) = from;
    for i in 0..k {
        if m.codes[i] == 10 {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    (l, c)
}
/// Any operations, backtracking included; afterwards the position has to be `want(tokens taken)`.
fn drive<S>(s: &mut S, m: &Model, n: usize, want: &dyn Fn(usize) -> S::Position)
where
    S: RangeStream,
    S::Token: Tok,
    S::Range: Rng,
    S::Position: PartialEq,
{
    let mut off = 0usize;
    chk!(s.position() == want(0));
    let total = m.bytes.len();
    for _ in 0..n {
        let i = m.tok_of(off);
        match nd::choose(5) {
            0 => {
                if s.uncons().is_ok() {
                    off = m.ends[i];
                }
            }
            1 => {
                let w = nd::choose(total - off + 1);
                if s.uncons_range(w).is_ok() {
                    off += w;
                }
            }
            k @ 2 | k @ 3 => {
                let mut j = i;
                while j < m.ntok() && m.codes[j] & 0x10 == 0 {
                    j += 1;
                }
                if k == 2 {
                    let _ = s.uncons_while(|t| t.code() & 0x10 == 0);
                } else {
                    let _ = s.uncons_while1(|t| t.code() & 0x10 == 0);
                }
                off = m.at(j);
            }
            _ => {
                // try something and go back
                cov!(0);
                let c = s.checkpoint();
                let _ = s.uncons_while(|t| t.code() & 1 == 0);
                let _ = s.uncons();
                let w = nd::choose(2);
                let _ = s.uncons_range(w);
                chk!(s.reset(c).is_ok());
            }
        }
        chk!(s.range().b() == &m.bytes[off..]);
        chk!(s.position() == want(m.tok_of(off)));
    }
    nd::obs(off as u64);
}

harnesses! {
    /// line and column over text: any text of 0..=3 scalar values (widths up to 2; thorough 3 and 3), any 2 operations (thorough 3), any start position
    fn h_c04_source_str[1] {
        let d = nd::text(0, 3, q(2, 3));
        let m = Model::of_text(&d);
        let start = if nd::flag() { SourcePosition::new() } else {
            SourcePosition { line: (nd::u8() as i32) + 1, column: (nd::u8() as i32) + 1 }
        };
        let (l, c) = (start.line, start.column);
        let want = |k: usize| { let (l, c) = fold(&m, (l, c), k); SourcePosition { line: l, column: c } };
        match nd::choose(3) {
            0 => drive(&mut position::Stream::with_positioner(&d[..], start), &m, q(2, 3), &want),
            1 => drive(&mut easy::Stream(state::Stream { stream: position::Stream::with_positioner(&d[..], start), state: () }), &m, q(2, 3), &want),
            _ => {
                // the positioner may also be borrowed
                let mut p = start;
                let mut s = position::Stream::with_positioner(&d[..], &mut p);
                for i in 0..=m.ntok() {
                    chk!(s.position() == want(i));
                    let _ = s.uncons();
                }
                chk!(p == want(m.ntok()));
                let mut p = start;
                let pp = &mut p;
                let mut pp = pp;
                RangePositioner::<char, &str>::update_range(&mut pp, &&d[..]);
                chk!(p == want(m.ntok()));
            }
        }
    }
    /// long texts: 4..=20 ASCII characters taken by one scan or range, line and column
    fn h_c04_source_long[0] {
        let n = nd::range(4, q(12, 20));
        let d = nd::text_n(n, 1);
        let m = Model::of_text(&d);
        let mut s = position::Stream::new(&d[..]);
        let k = match nd::choose(3) {
            0 => { let k = nd::choose(n + 1); chk!(s.uncons_range(k).is_ok()); k }
            1 => { let k = nd::choose(n + 1); let mut i = 0; let _ = s.uncons_while(|_| { i += 1; i <= k }); k }
            _ => { let k = 1 + nd::choose(n); let mut i = 0; let _ = s.uncons_while1(|_| { i += 1; i <= k }); k }
        };
        let (l, c) = fold(&m, (1, 1), k);
        chk!(s.position() == SourcePosition { line: l, column: c });
        nd::obs(l as u64);
    }
    /// line and column over a stream of bytes, token by token (iterator source, buffered, with backtracking)
    fn h_c04_source_bytes[0] {
        let d = nd::bytes(0, q(4, 6));
        let m = Model::of_bytes(&d);
        let p = SourcePosition::new();
        let want = |k: usize| { let (l, c) = fold(&m, (1, 1), k); SourcePosition { line: l, column: c } };
        let mut s = buffered::Stream::new(position::Stream::with_positioner(IteratorStream::new(d.iter().copied()), ByteSource(p)), 8);
        let mut at = 0;
        for _ in 0..d.len() {
            if nd::flag() {
                let c = s.checkpoint();
                let _ = s.uncons();
                let _ = s.uncons();
                chk!(s.reset(c).is_ok());
                chk!(s.position() == want(at));
            }
            chk!(s.uncons().is_ok());
            at += 1;
            chk!(s.position() == want(at));
        }
        // and directly
        let mut p = SourcePosition::new();
        for i in 0..d.len() {
            Positioner::<u8>::update(&mut p, &d[i]);
            chk!(p == want(i + 1));
        }
        let c = Positioner::<u8>::checkpoint(&p);
        Positioner::<u8>::update(&mut p, &b'\n');
        Positioner::<u8>::reset(&mut p, c);
        chk!(Positioner::<u8>::position(&p) == want(d.len()));
    }
    /// index positions over slices of 0..=4 bytes: any 2 operations (thorough 3), any start
    fn h_c04_index[1] {
        let d = nd::bytes(0, q(4, 5));
        let m = Model::of_bytes(&d);
        let start = nd::u16() as usize;
        let want = |k: usize| start + k;
        match nd::choose(3) {
            0 => drive(&mut position::Stream::with_positioner(&d[..], IndexPositioner::new_with_position(start)), &m, q(2, 3), &want),
            1 => drive(&mut position::Stream::with_positioner(SliceStream(&d[..]), IndexPositioner::new_with_position(start)), &m, q(2, 3), &want),
            _ => {
                nd::assume(start == 0);
                drive(&mut easy::Stream(position::Stream::new(&d[..])), &m, q(2, 3), &want)
            }
        }
    }
    /// pointer positions of slices and texts translate to the number of bytes taken
    fn h_c04_pointer[0] {
        let t = nd::text(0, 3, q(2, 4));
        let d = t.as_bytes();
        let m = Model::of_text(&t);
        let k = nd::choose(m.ntok() + 1);
        let mut s = &t[..];
        for _ in 0..k { chk!(s.uncons().is_ok()); }
        chk!(s.position().translate_position(&t) == m.at(k));
        let mut b = d;
        let n = nd::choose(d.len() + 1);
        chk!(b.uncons_range(n).is_ok());
        chk!(b.position().translate_position(d) == n);
        let mut e = easy::Stream(&t[..]);
        chk!(e.uncons_while(|_| true).is_ok());
        chk!(e.position().translate_position(&t[..]) == d.len());
        let p: PointerOffset<str> = PointerOffset::new(t.as_ptr() as usize + m.at(k));
        chk!(p.translate_position(&t) == m.at(k));
        chk!(p == s.position());
        let mut ss = SliceStream(d);
        chk!(ss.uncons_range(n).is_ok());
        chk!(ss.position().translate_position(d) == n);
    }
    /// the position() parser and the position of a failing token, text of 0..=3 characters
    fn h_c04_parser[0] {
        let t = nd::text(0, 3, 2);
        let m = Model::of_text(&t);
        let k = nd::choose(m.ntok() + 1);
        let want = |k: usize| { let (l, c) = fold(&m, (1, 1), k); SourcePosition { line: l, column: c } };
        let mut p = (combine::skip_count(k, combine::any()), combine::position(), combine::any());
        match p.easy_parse(position::Stream::new(&t[..])) {
            Ok((((), pos, _), rest)) => {
                chk!(k < m.ntok());
                chk!(pos == want(k));
                chk!(rest.position() == want(k + 1));
            }
            Err(e) => {
                chk!(k == m.ntok());
                chk!(e.position == want(k));
            }
        }
    }
}
/// `SourcePosition` over bytes inside `position::Stream` (it implements the trait for `char` too).
struct ByteSource(SourcePosition);
impl Positioner<u8> for ByteSource {
    type Position = SourcePosition;
    type Checkpoint = SourcePosition;
    fn position(&self) -> SourcePosition {
        Positioner::<u8>::position(&self.0)
    }
    fn update(&mut self, t: &u8) {
        Positioner::<u8>::update(&mut self.0, t)
    }
    fn checkpoint(&self) -> SourcePosition {
        Positioner::<u8>::checkpoint(&self.0)
    }
    fn reset(&mut self, c: SourcePosition) {
        Positioner::<u8>::reset(&mut self.0, c)
    }
}
