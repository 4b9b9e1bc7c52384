//! A source whose reads are chosen freely: sizes, failures and, for the asynchronous traits, when
//! it is not ready.
use crate::nd;
use std::io::{self, ErrorKind, Read};

/// Gives `data` in reads of any sizes; up to `errs` of them fail and up to `pend` are not ready.
pub struct Script<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub errs: usize,
    pub pend: usize,
    /// the failure that was reported and not yet seen
    pub failed: Option<ErrorKind>,
    /// reads that reported the end
    pub eofs: usize,
    pub calls: usize,
}
impl<'a> Script<'a> {
    pub fn new(data: &'a [u8], errs: usize) -> Self {
        Script { data, pos: 0, errs, pend: 0, failed: None, eofs: 0, calls: 0 }
    }
    /// what the next read does: an error, or how many bytes
    pub fn next(&mut self, room: usize) -> Result<usize, ErrorKind> {
        self.calls += 1;
        if self.errs > 0 {
            match nd::upto(3) {
                0 => {}
                k => {
                    self.errs -= 1;
                    let e = [ErrorKind::Interrupted, ErrorKind::WouldBlock][k - 1];
                    self.failed = Some(e);
                    return Err(e);
                }
            }
        }
        let rest = self.data.len() - self.pos;
        let most = if rest < room { rest } else { room };
        let n = if most == 0 { 0 } else { 1 + nd::upto(most) };
        if rest == 0 {
            self.eofs += 1;
        }
        Ok(n)
    }
    #[cfg(feature = "async_io")]
    fn ready(&mut self) -> bool {
        if self.pend > 0 && nd::upto(2) == 1 {
            self.pend -= 1;
            return false;
        }
        true
    }
}
impl<'a> Read for Script<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.next(buf.len()).map_err(io::Error::from)?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[cfg(feature = "async_io")]
mod asynch {
    use super::*;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    impl<'a> futures_io::AsyncRead for Script<'a> {
        fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            if !self.ready() {
                return Poll::Pending;
            }
            Poll::Ready(self.read(buf))
        }
    }
    impl<'a> tokio_02_dep::io::AsyncRead for Script<'a> {
        fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            if !self.ready() {
                return Poll::Pending;
            }
            Poll::Ready(self.read(buf))
        }
    }
    macro_rules! read_buf {
        ($dep:ident) => {
            impl<'a> $dep::io::AsyncRead for Script<'a> {
                fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut $dep::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
                    if !self.ready() {
                        return Poll::Pending;
                    }
                    match self.next(buf.remaining()) {
                        Err(e) => Poll::Ready(Err(e.into())),
                        Ok(n) => {
                            buf.put_slice(&self.data[self.pos..self.pos + n]);
                            self.pos += n;
                            Poll::Ready(Ok(()))
                        }
                    }
                }
            }
        };
    }
    read_buf!(tokio_03_dep);
    read_buf!(tokio_dep);
}
