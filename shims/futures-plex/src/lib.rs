//! Stand-in for `futures-plex`: a pair of connected byte streams with bounded buffers.
use futures::{AsyncRead, AsyncWrite};
use std::{
    io,
    pin::Pin,
    sync::{Arc, Mutex, MutexGuard},
    task::{Context, Poll, Waker, ready},
};
#[derive(Debug, Default)]
struct Pipe {
    buf: Vec<u8>,
    /// Free space handed out.
    room: Vec<u8>,
    cap: usize,
    /// No more will be written.
    closed: bool,
    /// Nobody reads.
    dropped: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
}
impl Pipe {
    fn wake(w: &mut Option<Waker>) {
        if let Some(w) = w.take() {
            w.wake()
        }
    }
    fn poll_get(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        if self.buf.is_empty() && !self.closed {
            self.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(&self.buf))
    }
    fn advance(&mut self, n: usize) {
        self.buf.drain(..n);
        if n > 0 {
            Self::wake(&mut self.writer);
        }
    }
    fn poll_mut(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&mut [u8]>> {
        if self.closed || self.dropped {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let n = (self.cap - self.buf.len()).min(1 << 15);
        if n == 0 {
            self.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        self.room.resize(n, 0);
        Poll::Ready(Ok(&mut self.room[..n]))
    }
    fn advance_mut(&mut self, n: usize) {
        let Pipe { buf, room, .. } = self;
        buf.extend_from_slice(&room[..n]);
        if n > 0 {
            Self::wake(&mut self.reader);
        }
    }
}
#[derive(Debug)]
pub struct DuplexStream {
    rx: Arc<Mutex<Pipe>>,
    tx: Arc<Mutex<Pipe>>,
}
pub fn duplex(cap: usize) -> (DuplexStream, DuplexStream) {
    let p = || Arc::new(Mutex::new(Pipe { cap, ..Default::default() }));
    let (a, b) = (p(), p());
    (DuplexStream { rx: a.clone(), tx: b.clone() }, DuplexStream { rx: b, tx: a })
}
pub struct ReadGuard<'a>(MutexGuard<'a, Pipe>);
impl ReadGuard<'_> {
    pub fn poll_get(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        self.0.poll_get(cx)
    }
    pub fn advance(&mut self, n: usize) {
        self.0.advance(n)
    }
}
pub struct WriteGuard<'a>(MutexGuard<'a, Pipe>);
impl WriteGuard<'_> {
    pub fn poll_mut(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&mut [u8]>> {
        self.0.poll_mut(cx)
    }
    pub fn advance_mut(&mut self, n: usize) {
        self.0.advance_mut(n)
    }
}
impl DuplexStream {
    pub fn poll_lock_read(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<ReadGuard<'_>> {
        Poll::Ready(ReadGuard(self.get_mut().rx.lock().unwrap()))
    }
    pub fn poll_lock_write(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<WriteGuard<'_>> {
        Poll::Ready(WriteGuard(self.get_mut().tx.lock().unwrap()))
    }
    /// Reads from `r` into this end.
    pub fn poll_write_from<R: AsyncRead>(&mut self, cx: &mut Context<'_>, r: Pin<&mut R>) -> Poll<io::Result<usize>> {
        let mut p = self.tx.lock().unwrap();
        let buf = ready!(p.poll_mut(cx))?;
        let n = ready!(r.poll_read(cx, buf))?;
        p.advance_mut(n);
        Poll::Ready(Ok(n))
    }
    /// Writes what arrived at this end to `w`.
    pub fn poll_read_to<W: AsyncWrite>(&mut self, cx: &mut Context<'_>, mut w: Pin<&mut W>) -> Poll<io::Result<usize>> {
        let mut p = self.rx.lock().unwrap();
        let buf = ready!(p.poll_get(cx))?;
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let n = ready!(w.as_mut().poll_write(cx, buf))?;
        p.advance(n);
        drop(p);
        let _ = w.poll_flush(cx)?;
        Poll::Ready(Ok(n))
    }
}
impl AsyncRead for DuplexStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut p = self.rx.lock().unwrap();
        let got = ready!(p.poll_get(cx))?;
        let n = got.len().min(buf.len());
        buf[..n].copy_from_slice(&got[..n]);
        p.advance(n);
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for DuplexStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.tx.lock().unwrap();
        let room = ready!(p.poll_mut(cx))?;
        let n = room.len().min(data.len());
        room[..n].copy_from_slice(&data[..n]);
        p.advance_mut(n);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.tx.lock().unwrap();
        p.closed = true;
        Pipe::wake(&mut p.reader);
        Poll::Ready(Ok(()))
    }
}
impl Drop for DuplexStream {
    fn drop(&mut self) {
        let mut p = self.tx.lock().unwrap();
        p.closed = true;
        Pipe::wake(&mut p.reader);
        drop(p);
        let mut p = self.rx.lock().unwrap();
        p.dropped = true;
        Pipe::wake(&mut p.writer);
    }
}
