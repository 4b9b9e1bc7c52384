use crate::nd::{self, q};
use crate::prog::*;
use combine::Parser;

/// Runs a program and compares the outcome, the value and the position with the interpreter.
pub fn agree(p: &Pg, d: &[u8]) {
    let mut pos = 0;
    let want = ev(p, d, &mut pos, 0);
    let mut s = d;
    let got = outcome(build::<&[u8]>(p).parse_stream(&mut s));
    chk!(got == want);
    if matches!(want, R::COk(_) | R::POk(_)) {
        chk!(s.len() == d.len() - pos);
    }
    nd::obs(got.kind());
}
harnesses! {
    /// every program of depth 1 (an operator over leaves) over every input of up to 3 (4) bytes
    fn h_c25_depth1[1] {
        let p = any_prog(1, LEAVES);
        nd::assume(wellformed(&p));
        let d = nd::bytes(0, q(3, 4));
        agree(&p, &d);
        cov!(0);
    }
    /// every program of depth 2 with one operand per operator, all leaves and operators, inputs of 2 (3) bytes
    fn h_c25_unary2[1] {
        let op = nd::choose(UNARY);
        let p = unary(op, any_prog(1, if (q(0, 1) == 1) { LEAVES } else { 5 }));
        nd::assume(wellformed(&p));
        let d = nd::bytes(q(2, 3), q(2, 3));
        agree(&p, &d);
        cov!(0);
    }
    /// every binary operator over an operator and a leaf, either way
    fn h_c25_binary2[1] {
        let op = nd::choose(BINARY);
        let (a, b) = (any_prog(1, q(3, 4)), leaf(nd::choose(q(3, 4))));
        let p = if nd::flag() { binary(op, a, b) } else { binary(op, b, a) };
        nd::assume(wellformed(&p));
        let d = nd::bytes(2, q(2, 3));
        agree(&p, &d);
        cov!(0);
    }
    /// every operator entered again and again in a loop, through three levels
    fn h_c25_reenter[1] {
        let u1 = nd::choose(UNARY);
        let u2 = nd::choose(UNARY);
        let u3 = if (q(0, 1) == 1) { nd::choose(UNARY) } else { nd::choose(2) };
        let b = nd::choose(2);
        let p = unary(u1, unary(u2, unary(u3, leaf(0))));
        let p = Pg::Many(Box::new(binary(b, p, leaf(2))));
        nd::assume(wellformed(&p));
        let d = nd::bytes_n(q(3, 4));
        agree(&p, &d);
        cov!(0);
    }
    /// a binary operator in a loop or tried first and given up
    fn h_c25_reenter2[1] {
        let inner = binary(nd::choose(BINARY), leaf(nd::choose(q(2, 4))), leaf(1));
        let inner = if nd::flag() { Pg::Attempt(Box::new(inner)) } else { inner };
        let p = match nd::choose(3) {
            0 => Pg::Many(Box::new(inner)),
            1 => binary(1 + 11 * nd::choose(2), inner, leaf(2)),
            _ => Pg::SepEndBy(Box::new(inner), Box::new(Pg::Tok(b','))),
        };
        nd::assume(wellformed(&p));
        let d = nd::bytes_n(q(3, 4));
        agree(&p, &d);
        cov!(0);
    }
    /// a binary operator tried, given up for any token, and tried again
    fn h_c25_retry[1] {
        let inner = binary(nd::choose(BINARY), leaf(nd::choose(3)), leaf(nd::choose(q(2, 3))));
        let inner = match nd::choose(3) {
            0 => inner,
            1 => Pg::Attempt(Box::new(inner)),
            _ => Pg::Recog(Box::new(Pg::Attempt(Box::new(inner)))),
        };
        let p = Pg::Many(Box::new(match nd::choose(3) {
            0 => Pg::Or(Box::new(inner), Box::new(Pg::Any)),
            1 => Pg::ChoiceTuple(Box::new(inner), Box::new(Pg::Any)),
            _ => Pg::Seq(Box::new(Pg::Opt(Box::new(inner))), Box::new(Pg::Any)),
        }));
        nd::assume(wellformed(&p));
        let d = nd::bytes_n(q(3, 4));
        agree(&p, &d);
        cov!(0);
    }
    /// every pair of binary operators over leaves (thorough: with an operator on both sides)
    fn h_c25_pairs[1] {
        let op = nd::choose(BINARY);
        let a = any_prog(1, 2);
        let b = if (q(0, 1) == 1) { any_prog(1, 2) } else { binary(nd::choose(2), leaf(nd::choose(2)), leaf(0)) };
        let p = binary(op, a, b);
        nd::assume(wellformed(&p));
        let d = nd::bytes_n(q(2, 3));
        agree(&p, &d);
        cov!(0);
    }
}
