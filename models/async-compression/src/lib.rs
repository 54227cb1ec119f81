//! Stand-in for the `async-compression` dependency (symbolic AND replay builds): a toy codec per method with the same
//! interface contract as the real one, so the crate's plumbing around the codecs can be executed symbolically.
//!
//! Coded stream: `method tag`, `level`, then `0x01 b^0xA5` per byte, then `0x00`.  Hence: coded length != plain length,
//! the decoder is self-terminating and never consumes past the terminator, output is only complete after `poll_close`
//! (the encoder keeps up to two coded bytes back), a stream coded by one method is rejected by every other decoder, and the
//! level that reached the encoder is visible in the output.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum Level {
    Fastest,
    Best,
    Default,
    Precise(i32),
}

impl Level {
    fn code(self) -> u8 {
        match self {
            Level::Fastest => 1,
            Level::Best => 2,
            Level::Default => 3,
            Level::Precise(n) => (n as u8) | 0x80,
        }
    }
}

pub mod futures {
    pub mod write {
        use crate::Level;
        use futures_io::AsyncWrite;
        use std::io::{Error, ErrorKind};
        use std::pin::Pin;
        use std::task::{ready, Context, Poll};

        pub struct Enc<W, const TAG: u8> {
            inner: W,
            buf: Vec<u8>,
            pos: usize,
            finished: bool,
        }
        pub type DeflateEncoder<W> = Enc<W, 0xD8>;
        pub type BzEncoder<W> = Enc<W, 0xDC>;
        pub type LzmaEncoder<W> = Enc<W, 0xDE>;
        pub type ZstdEncoder<W> = Enc<W, 0x5D>;
        pub type XzEncoder<W> = Enc<W, 0x5F>;

        impl<W: AsyncWrite + Unpin, const TAG: u8> Enc<W, TAG> {
            pub fn new(inner: W) -> Self {
                Self::with_quality(inner, Level::Default)
            }
            pub fn with_quality(inner: W, level: Level) -> Self {
                let mut buf = Vec::with_capacity(32);
                buf.push(TAG);
                buf.push(level.code());
                Enc { inner, buf, pos: 0, finished: false }
            }
            pub fn into_inner(self) -> W {
                self.inner
            }
            /// Hands coded bytes to the inner writer until at most `keep` are left.
            fn drain(&mut self, cx: &mut Context<'_>, keep: usize) -> Poll<Result<(), Error>> {
                while self.buf.len() - self.pos > keep {
                    let n = ready!(Pin::new(&mut self.inner).poll_write(cx, &self.buf[self.pos..]))?;
                    if n == 0 {
                        return Poll::Ready(Err(ErrorKind::WriteZero.into()));
                    }
                    self.pos += n;
                }
                if self.pos == self.buf.len() {
                    self.buf.clear();
                    self.pos = 0;
                }
                Poll::Ready(Ok(()))
            }
        }

        impl<W: AsyncWrite + Unpin, const TAG: u8> AsyncWrite for Enc<W, TAG> {
            fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<Result<usize, Error>> {
                let this = &mut *self;
                if this.finished {
                    return Poll::Ready(Err(Error::new(ErrorKind::Other, "write after close")));
                }
                ready!(this.drain(cx, 2))?;
                let n = data.len().min(3);
                for b in &data[..n] {
                    this.buf.push(1);
                    this.buf.push(*b ^ 0xA5);
                }
                Poll::Ready(Ok(n))
            }
            fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
                ready!(self.drain(cx, 0))?;
                Pin::new(&mut self.inner).poll_flush(cx)
            }
            fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
                if !self.finished {
                    self.finished = true;
                    self.buf.push(0);
                }
                ready!(self.drain(cx, 0))?;
                Pin::new(&mut self.inner).poll_close(cx)
            }
        }
    }

    pub mod bufread {
        use futures_io::{AsyncBufRead, AsyncRead};
        use std::io::{Error, ErrorKind};
        use std::pin::Pin;
        use std::task::{ready, Context, Poll};

        #[derive(Clone, Copy, PartialEq)]
        enum St {
            Tag,
            Level,
            Mark,
            Byte,
            Done,
        }
        pub struct Dec<R, const TAG: u8> {
            inner: R,
            st: St,
        }
        pub type DeflateDecoder<R> = Dec<R, 0xD8>;
        pub type Deflate64Decoder<R> = Dec<R, 0xD9>;
        pub type BzDecoder<R> = Dec<R, 0xDC>;
        pub type LzmaDecoder<R> = Dec<R, 0xDE>;
        pub type ZstdDecoder<R> = Dec<R, 0x5D>;
        pub type XzDecoder<R> = Dec<R, 0x5F>;

        impl<R: AsyncBufRead, const TAG: u8> Dec<R, TAG> {
            pub fn new(inner: R) -> Self {
                Dec { inner, st: St::Tag }
            }
            pub fn into_inner(self) -> R {
                self.inner
            }
        }

        impl<R: AsyncBufRead, const TAG: u8> AsyncRead for Dec<R, TAG> {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<Result<usize, Error>> {
                // SAFETY: structural pinning of `inner`; `st` is plain data.
                let this = unsafe { self.get_unchecked_mut() };
                let mut inner = unsafe { Pin::new_unchecked(&mut this.inner) };
                let mut done = 0;
                if out.is_empty() {
                    return Poll::Ready(Ok(0));
                }
                while this.st != St::Done && done < out.len() {
                    let buf = match inner.as_mut().poll_fill_buf(cx) {
                        Poll::Ready(r) => r?,
                        Poll::Pending if done > 0 => break,
                        Poll::Pending => return Poll::Pending,
                    };
                    if buf.is_empty() {
                        return Poll::Ready(Err(ErrorKind::UnexpectedEof.into()));
                    }
                    let b = buf[0];
                    let bad = || Poll::Ready(Err(Error::from(ErrorKind::InvalidData)));
                    match this.st {
                        St::Tag if b == TAG => this.st = St::Level,
                        St::Level => this.st = St::Mark,
                        St::Mark if b == 1 => this.st = St::Byte,
                        St::Mark if b == 0 => this.st = St::Done,
                        St::Byte => {
                            out[done] = b ^ 0xA5;
                            done += 1;
                            this.st = St::Mark;
                        }
                        _ => return bad(),
                    }
                    inner.as_mut().consume(1);
                }
                ready!(Poll::Ready(()));
                Poll::Ready(Ok(done))
            }
        }
    }
}
