//! C19: the growing buffered reader shows its source's bytes in order, whatever is done in between.
use crate::nd::{self, q};
use crate::script::Script;
use combine::stream::buf_reader::*;
use std::io::{BufRead, Read};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

/// The operations of one flavour of reader. `None`: not ready.
trait Flavour {
    const ASYNC: bool;
    /// an extending read through the decoder's trait
    fn extend(r: &mut BufReader<Script>, cx: &mut Context) -> Option<std::io::Result<usize>>;
    fn extend_own(b: &mut Buffer, r: &mut Script, cx: &mut Context) -> Option<std::io::Result<usize>>;
    /// `fill_buf`, giving what it exposes
    fn fill(r: &mut BufReader<Script>, cx: &mut Context) -> Option<std::io::Result<Vec<u8>>>;
    fn read(r: &mut BufReader<Script>, buf: &mut [u8], cx: &mut Context) -> Option<std::io::Result<usize>>;
    fn consume(r: &mut BufReader<Script>, n: usize);
    const READS: bool = true;
}
fn poll<T>(p: Poll<T>) -> Option<T> {
    match p {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}
struct Sync;
impl Flavour for Sync {
    const ASYNC: bool = false;
    fn extend(r: &mut BufReader<Script>, _: &mut Context) -> Option<std::io::Result<usize>> {
        Some(Bufferless.extend_buf_sync(r))
    }
    fn extend_own(b: &mut Buffer, r: &mut Script, _: &mut Context) -> Option<std::io::Result<usize>> {
        Some(b.extend_buf_sync(r))
    }
    fn fill(r: &mut BufReader<Script>, _: &mut Context) -> Option<std::io::Result<Vec<u8>>> {
        Some(r.fill_buf().map(|x| x.to_vec()))
    }
    fn read(r: &mut BufReader<Script>, buf: &mut [u8], _: &mut Context) -> Option<std::io::Result<usize>> {
        Some(Read::read(r, buf))
    }
    fn consume(r: &mut BufReader<Script>, n: usize) {
        BufRead::consume(r, n)
    }
}
struct Tokio02;
impl Flavour for Tokio02 {
    const ASYNC: bool = true;
    fn extend(r: &mut BufReader<Script>, cx: &mut Context) -> Option<std::io::Result<usize>> {
        poll(CombineRead::<_, dyn tokio_02_dep::io::AsyncRead>::poll_extend_buf(&mut Bufferless, cx, Pin::new(r)))
    }
    fn extend_own(b: &mut Buffer, r: &mut Script, cx: &mut Context) -> Option<std::io::Result<usize>> {
        poll(CombineRead::<_, dyn tokio_02_dep::io::AsyncRead>::poll_extend_buf(b, cx, Pin::new(r)))
    }
    fn fill(r: &mut BufReader<Script>, cx: &mut Context) -> Option<std::io::Result<Vec<u8>>> {
        poll(tokio_02_dep::io::AsyncBufRead::poll_fill_buf(Pin::new(r), cx)).map(|x| x.map(|x| x.to_vec()))
    }
    fn read(r: &mut BufReader<Script>, buf: &mut [u8], cx: &mut Context) -> Option<std::io::Result<usize>> {
        poll(tokio_02_dep::io::AsyncRead::poll_read(Pin::new(r), cx, buf))
    }
    fn consume(r: &mut BufReader<Script>, n: usize) {
        tokio_02_dep::io::AsyncBufRead::consume(Pin::new(r), n)
    }
}
macro_rules! flavour {
    ($name:ident $dep:ident) => {
        struct $name;
        impl Flavour for $name {
            const ASYNC: bool = true;
            fn extend(r: &mut BufReader<Script>, cx: &mut Context) -> Option<std::io::Result<usize>> {
                poll(CombineRead::<_, dyn $dep::io::AsyncRead>::poll_extend_buf(&mut Bufferless, cx, Pin::new(r)))
            }
            fn extend_own(b: &mut Buffer, r: &mut Script, cx: &mut Context) -> Option<std::io::Result<usize>> {
                poll(CombineRead::<_, dyn $dep::io::AsyncRead>::poll_extend_buf(b, cx, Pin::new(r)))
            }
            fn fill(r: &mut BufReader<Script>, cx: &mut Context) -> Option<std::io::Result<Vec<u8>>> {
                poll($dep::io::AsyncBufRead::poll_fill_buf(Pin::new(r), cx)).map(|x| x.map(|x| x.to_vec()))
            }
            fn read(r: &mut BufReader<Script>, buf: &mut [u8], cx: &mut Context) -> Option<std::io::Result<usize>> {
                let mut b = $dep::io::ReadBuf::new(buf);
                poll($dep::io::AsyncRead::poll_read(Pin::new(r), cx, &mut b)).map(|x| x.map(|_| b.filled().len()))
            }
            fn consume(r: &mut BufReader<Script>, n: usize) {
                $dep::io::AsyncBufRead::consume(Pin::new(r), n)
            }
        }
    };
}
flavour!(Tokio03 tokio_03_dep);
flavour!(Tokio1 tokio_dep);
struct Futures;
impl Flavour for Futures {
    const ASYNC: bool = true;
    const READS: bool = false;
    fn extend(r: &mut BufReader<Script>, cx: &mut Context) -> Option<std::io::Result<usize>> {
        if nd::flag() {
            let mut b = Bufferless;
            let mut f = CombineAsyncRead::extend_buf(&mut b, Pin::new(r));
            // again for as long as it is not ready
            loop {
                match poll(std::future::Future::poll(Pin::new(&mut f), cx)) {
                    None if nd::flag() => {}
                    x => return x,
                }
            }
        }
        poll(CombineAsyncRead::poll_extend_buf(&mut Bufferless, cx, Pin::new(r)))
    }
    fn extend_own(b: &mut Buffer, r: &mut Script, cx: &mut Context) -> Option<std::io::Result<usize>> {
        if nd::flag() {
            let mut f = CombineAsyncRead::extend_buf(b, Pin::new(r));
            return poll(std::future::Future::poll(Pin::new(&mut f), cx));
        }
        poll(CombineAsyncRead::poll_extend_buf(b, cx, Pin::new(r)))
    }
    fn fill(_: &mut BufReader<Script>, _: &mut Context) -> Option<std::io::Result<Vec<u8>>> {
        unreachable!()
    }
    fn read(_: &mut BufReader<Script>, _: &mut [u8], _: &mut Context) -> Option<std::io::Result<usize>> {
        unreachable!()
    }
    fn consume(r: &mut BufReader<Script>, n: usize) {
        CombineBuffer::advance_pin(&mut Bufferless, Pin::new(r), n)
    }
}

/// any `ops` operations on a reader over `d`
fn history<F: Flavour>(d: &[u8], ops: usize, cap: usize) {
    let cx = &mut Context::from_waker(Waker::noop());
    let mut src = Script::new(d, 1);
    if F::ASYNC {
        src.pend = 1;
    }
    let mut r = BufReader::with_capacity(cap, src);
    // what was taken out of the reader so far
    let mut at = 0;
    for _ in 0..ops {
        let pos = r.get_ref().pos;
        let (calls, eofs, pend) = (r.get_ref().calls, r.get_ref().eofs, r.get_ref().pend);
        let had = pos - at;
        let ready = match nd::upto(if F::READS { 4 } else { 2 }) {
            0 => {
                let n = nd::upto(4);
                nd::assume(n <= had);
                if nd::flag() {
                    F::consume(&mut r, n);
                } else {
                    CombineBuffer::advance(&mut Bufferless, &mut r, n);
                }
                at += n;
                chk!(r.get_ref().pos == pos);
                true
            }
            1 => {
                let x = F::extend(&mut r, cx);
                let s = r.get_mut();
                match x {
                    None => false,
                    Some(Ok(n)) => {
                        chk!(s.pos == pos + n);
                        chk!(s.calls == calls + 1);
                        // nothing new is the end
                        chk!((n == 0) == (s.eofs == eofs + 1));
                        chk!(s.failed.is_none());
                        cov!(0);
                        true
                    }
                    Some(Err(e)) => {
                        chk!(s.failed.take() == Some(e.kind()));
                        chk!(s.pos == pos);
                        cov!(1);
                        true
                    }
                }
            }
            2 => {
                let x = F::fill(&mut r, cx);
                let s = r.get_mut();
                match x {
                    None => {
                        chk!(had == 0);
                        false
                    }
                    Some(Ok(b)) => {
                        // read from the source only when there is nothing left, and then at most once
                        chk!(s.calls == calls + (had == 0) as usize);
                        chk!(b == &d[at..s.pos]);
                        chk!(!b.is_empty() || s.eofs == eofs + 1);
                        chk!(s.failed.is_none());
                        cov!(2);
                        true
                    }
                    Some(Err(e)) => {
                        chk!(had == 0);
                        chk!(s.failed.take() == Some(e.kind()));
                        chk!(s.pos == pos);
                        cov!(1);
                        true
                    }
                }
            }
            _ => {
                let mut buf = [0; 3];
                let len = nd::upto(4);
                let x = F::read(&mut r, &mut buf[..len], cx);
                let s = r.get_mut();
                match x {
                    None => {
                        chk!(had == 0);
                        false
                    }
                    Some(Ok(n)) => {
                        chk!(n <= len);
                        chk!(at + n <= s.pos);
                        chk!(buf[..n] == d[at..at + n]);
                        chk!(n > 0 || len == 0 || s.eofs == eofs + 1);
                        chk!(s.failed.is_none());
                        at += n;
                        cov!(3);
                        true
                    }
                    Some(Err(e)) => {
                        chk!(had == 0);
                        chk!(s.failed.take() == Some(e.kind()));
                        chk!(s.pos == pos);
                        cov!(1);
                        true
                    }
                }
            }
        };
        let s = r.get_ref();
        chk!(ready == (s.pend == pend) || s.calls > calls);
        if !ready {
            chk!(s.pos == pos);
            cov!(4);
        }
        chk!(r.buffer() == &d[at..r.get_ref().pos]);
        chk!(CombineBuffer::buffer(&Bufferless, &r) == r.buffer());
    }
}
/// the decoder's own buffer
fn own<F: Flavour>(d: &[u8], ops: usize) {
    let cx = &mut Context::from_waker(Waker::noop());
    let mut s = Script::new(d, 1);
    if F::ASYNC {
        s.pend = 1;
    }
    let mut b = Buffer::default();
    let mut at = 0;
    for _ in 0..ops {
        let (pos, eofs) = (s.pos, s.eofs);
        if nd::flag() {
            let n = nd::upto(4);
            nd::assume(n <= pos - at);
            if nd::flag() {
                CombineBuffer::advance(&mut b, &mut s, n);
            } else {
                CombineBuffer::advance_pin(&mut b, Pin::new(&mut s), n);
            }
            at += n;
        } else {
            match F::extend_own(&mut b, &mut s, cx) {
                None => {
                    chk!(s.pos == pos);
                    cov!(2);
                }
                Some(Ok(n)) => {
                    chk!(s.pos == pos + n);
                    chk!((n == 0) == (s.eofs == eofs + 1));
                    chk!(s.failed.is_none());
                    cov!(0);
                }
                Some(Err(e)) => {
                    chk!(s.failed.take() == Some(e.kind()));
                    chk!(s.pos == pos);
                    cov!(1);
                }
            }
        }
        chk!(CombineBuffer::buffer(&b, &s) == &d[at..s.pos]);
    }
}

fn source() -> Vec<u8> {
    nd::bytes(0, 3)
}
fn cap() -> usize {
    [0, 1, 2, 5][nd::choose(4)]
}
harnesses! {
    /// sync reader: any 4 (5) operations over any source of up to 3 bytes, any read sizes, one failure
    fn h_c19_sync[4] {
        history::<Sync>(&source(), q(4, 5), cap());
    }
    /// the asynchronous readers: the same, also not ready once
    fn h_c19_tokio1[5] {
        history::<Tokio1>(&source(), q(4, 5), cap());
    }
    /// the same for tokio03
    fn h_c19_tokio03[5] {
        history::<Tokio03>(&source(), q(4, 5), cap());
    }
    /// the same for tokio02
    fn h_c19_tokio02[5] {
        history::<Tokio02>(&source(), q(4, 5), cap());
    }
    /// futures: consuming and extending only
    fn h_c19_futures[2] {
        history::<Futures>(&source(), q(4, 5), cap());
    }
    /// the decoder's own buffer
    fn h_c19_own[3] {
        let d = source();
        let n = q(4, 5);
        match nd::choose(5) {
            0 => own::<Sync>(&d, n),
            1 => own::<Tokio02>(&d, n),
            2 => own::<Tokio03>(&d, n),
            3 => own::<Tokio1>(&d, n),
            _ => own::<Futures>(&d, n),
        }
    }
}
