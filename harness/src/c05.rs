//! C05: the algebra of committed and peeked results.
use crate::nd;
use combine::error::{Commit, ParseResult, ParseResult::*, StdParseResult2, Tracked};

type P = ParseResult<u8, u16>;
fn any_result() -> P {
    match nd::choose(4) {
        0 => CommitOk(nd::u8()),
        1 => PeekOk(nd::u8()),
        2 => CommitErr(nd::u16()),
        _ => PeekErr(tracked(nd::u16())),
    }
}
/// an uncommitted error as the crate produces it: fresh, with nothing left to add, or inside a
/// sequence
fn tracked(e: u16) -> Tracked<u16> {
    use combine::parser::token::{any, token, value};
    use combine::Parser;
    let mut t = Tracked::from(e);
    match nd::choose(3) {
        0 => (),
        1 => {
            let mut s: &[u8] = &[0];
            let mut p = combine::choice((
                (value(()), token(1u8)).map(|_| ()),
                token(2u8).map(|_| ()),
            ));
            match p.parse_first(&mut s, &mut Default::default()) {
                PeekErr(x) => t.offset = x.offset,
                _ => chk!(false),
            }
        }
        _ => t.offset = Parser::<&[u8]>::parser_count(&(any::<&[u8]>(), any(), any())),
    }
    t
}
/// committed?, Ok value or error
fn parts<T: Clone, E: Clone>(r: &ParseResult<T, E>) -> (bool, Result<T, E>) {
    match r {
        CommitOk(x) => (true, Ok(x.clone())),
        PeekOk(x) => (false, Ok(x.clone())),
        CommitErr(e) => (true, Err(e.clone())),
        PeekErr(e) => (false, Err(e.error.clone())),
    }
}
fn parts_std<T: Clone, E: Clone>(r: &StdParseResult2<T, E>) -> (bool, Result<T, E>) {
    match r {
        Ok((x, c)) => (!c.is_peek(), Ok(x.clone())),
        Err(e) => (!e.is_peek(), Err(e.as_ref().error.clone())),
    }
}
fn any_commit(x: u8) -> Commit<u8> {
    if nd::flag() {
        Commit::Commit(x)
    } else {
        Commit::Peek(x)
    }
}

harnesses! {
    /// ParseResult: every outcome with any payload; and_then with every outcome of the continuation
    fn h_c05_parse_result[4] {
        let a = any_result();
        let (c, r) = parts(&a);
        chk!(a.is_ok() == r.is_ok());
        chk!(a.is_err() == r.is_err());
        {
            let ar = a.as_ref();
            let (c2, r2) = match &ar { CommitOk(x) => (true, Ok(**x)), PeekOk(x) => (false, Ok(**x)), CommitErr(e) => (true, Err(**e)), PeekErr(e) => (false, Err(*e.error)) };
            chk!(c2 == c && r2 == r);
            if let (PeekErr(x), PeekErr(y)) = (&a, &ar) { chk!(x.offset == y.offset); }
        }
        let k = nd::u8();
        chk!(parts(&a.clone().map(|x| x ^ k)) == (c, r.map(|x| x ^ k)));
        let m = a.clone().map_err(|e| (e, k));
        chk!(parts(&m) == (c, r.map_err(|e| (e, k))));
        if let (PeekErr(x), PeekErr(y)) = (&a, &m) { chk!(x.offset == y.offset); }
        // conversions there and back
        let s: StdParseResult2<u8, u16> = a.clone().into();
        chk!(parts_std(&s) == (c, r));
        chk!(parts(&P::from(s)) == (c, r));
        chk!(parts_std(&a.clone().into_result()) == (c, r));
        if let (PeekErr(x), PeekErr(y)) = (&a, &P::from(a.clone().into_result())) { chk!(x.offset == y.offset); }
        let u: Result<Commit<u8>, Commit<Tracked<u16>>> = a.clone().into();
        match u {
            Ok(x) => { chk!(x.is_peek() == !c); chk!(Ok(x.into_inner()) == r); }
            Err(e) => { chk!(e.is_peek() == !c); chk!(Err(e.into_inner().error) == r); }
        }
        // composition
        let b = any_result();
        let (cb, rb) = parts(&b);
        let mut called = None;
        let t = a.clone().and_then(|x| { called = Some(x); b.clone() });
        match r {
            Ok(x) => {
                cov!(0);
                chk!(called == Some(x));
                chk!(parts(&t) == (c || cb, rb));
                if !c { if let (PeekErr(x), PeekErr(y)) = (&t, &b) { chk!(x.offset == y.offset); } }
            }
            Err(_) => { cov!(1); chk!(called.is_none()); chk!(parts(&t) == (c, r)); }
        }
        chk!(a == a.clone());
        if c != cb || r != rb { cov!(2); chk!(a != b); } else { cov!(3); }
    }
    /// Commit: every combination of the two parts with any payload
    fn h_c05_commit[2] {
        let x = nd::u8();
        let mut a = any_commit(x);
        let pa = a.is_peek();
        chk!(*a.as_ref() == x);
        *a.as_mut() ^= 1;
        chk!(a.is_peek() == pa && a.into_inner() == x ^ 1);
        *a.as_mut() = x;
        chk!(a.into_commit() == Commit::Commit(x));
        chk!(a.into_peek() == Commit::Peek(x));
        let k = nd::u8();
        let m = a.map(|v| v ^ k);
        chk!(m.is_peek() == pa && m.into_inner() == x ^ k);
        let y = nd::u8();
        let b = any_commit(y);
        let g = a.merge(b);
        chk!(g.into_inner() == y);
        chk!(g.is_peek() == (pa && b.is_peek()));
        // combine_commit / combine: the function sees the value, the result keeps the commitment
        let f = any_result();
        let (cf, rf) = parts(&f);
        let mut called = None;
        let t = a.combine_commit(|v| { called = Some(v); f.clone() });
        chk!(called == Some(x));
        chk!(parts(&t) == (!pa || cf, rf));
        let fs: StdParseResult2<u8, u16> = f.clone().into();
        let mut called = None;
        let t: StdParseResult2<u8, u16> = a.combine(|v| { called = Some(v); fs.clone() });
        chk!(called == Some(x));
        chk!(parts_std(&t) == (!pa || cf, rf));
        if pa { cov!(0) } else { cov!(1) }
    }
    /// ctry!: binds the value and the commitment of a success, returns failures unchanged
    fn h_c05_ctry[2] {
        fn f(a: P, b: P) -> ParseResult<(u8, u8), u16> {
            let (x, c) = combine::ctry!(a);
            let (y, d) = combine::ctry!(c.combine_commit(|_| b));
            if d.is_peek() { PeekOk((x, y)) } else { CommitOk((x, y)) }
        }
        let a = any_result();
        let b = any_result();
        let (ca, ra) = parts(&a);
        let (cb, rb) = parts(&b);
        let r = f(a, b);
        let (c, v) = parts(&r);
        match (ra, rb) {
            (Ok(x), Ok(y)) => { cov!(0); chk!(v == Ok((x, y)) && c == (ca || cb)); }
            (Ok(_), Err(e)) => chk!(v == Err(e) && c == (ca || cb)),
            (Err(e), _) => { cov!(1); chk!(v == Err(e) && c == ca); }
        }
    }
    /// Results of user functions (parser(..), function) and of plain parsers: the public entry points keep the commitment
    fn h_c05_entry[2] {
        use combine::Parser;
        let (b0, b1) = (nd::u8(), nd::u8());
        let d = [b0, b1];
        let n = nd::choose(3);
        let take = nd::choose(3);
        nd::assume(take <= n);
        let ok = nd::flag();
        // a user parser that takes `take` tokens and then succeeds or fails, reporting honestly
        let mut p = combine::parser(|input: &mut &[u8]| -> combine::StdParseResult<u8, &[u8]> {
            let mut last = 7;
            for _ in 0..take { last = combine::stream::StreamOnce::uncons(input).unwrap(); }
            let e = combine::error::UnexpectedParse::Unexpected;
            match (ok, take > 0) {
                (true, true) => Ok((last, Commit::Commit(()))),
                (true, false) => Ok((last, Commit::Peek(()))),
                (false, true) => Err(Commit::Commit(e.into())),
                (false, false) => Err(Commit::Peek(e.into())),
            }
        });
        let want = if take > 0 { d[take - 1] } else { 7 };
        let mut s = &d[..n];
        let r = p.parse_stream(&mut s);
        chk!(parts(&r).0 == (take > 0));
        chk!(r.is_ok() == ok);
        let mut s2 = &d[..n];
        let r2 = p.parse_with_state(&mut s2, &mut Default::default());
        chk!(r2.is_ok() == ok);
        match p.parse(&d[..n]) {
            Ok((v, rest)) => { cov!(0); chk!(ok && v == want && rest.len() == n - take); chk!(s.len() == n - take && s2.len() == n - take); chk!(r2 == Ok(want)); }
            Err(_) => { cov!(1); chk!(!ok); }
        }
        let mut s = &d[..n];
        let r = p.parse_stream_partial(&mut s, &mut Default::default());
        chk!(parts(&r).0 == (take > 0) && r.is_ok() == ok);
    }
}
