//! Stand-in for `tlsn-mux`: named streams over one connection. A stream closes as a whole: who is told
//! that the other side closed it has closed it too, once what was sent before is delivered.
use futures::{AsyncRead, AsyncWrite};
use std::{
    collections::{HashMap, VecDeque},
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};
#[derive(Debug, thiserror::Error)]
#[error("connection error: {0}")]
pub struct ConnectionError(String);
#[derive(Debug, Default, Clone)]
pub struct Config {
    close_sync: bool,
}
impl Config {
    pub fn set_keep_alive(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn set_close_sync(&mut self, b: bool) -> &mut Self {
        self.close_sync = b;
        self
    }
}
#[derive(Debug, Default)]
struct Chan {
    buf: VecDeque<u8>,
    eof: bool,
    opened: bool,
    /// Nothing more is sent.
    shut: bool,
    waker: Option<Waker>,
}
#[derive(Debug, Default)]
struct Shared {
    chans: HashMap<Vec<u8>, Chan>,
    out: VecDeque<u8>,
    /// Wakes who drives the connection.
    driver: Option<Waker>,
    /// The other side said it is done.
    over: bool,
    /// The connection is gone.
    dead: bool,
}
impl Shared {
    fn frame(&mut self, kind: u8, id: &[u8], data: &[u8]) {
        self.out.push_back(kind);
        self.out.extend((id.len() as u32).to_be_bytes());
        self.out.extend(id);
        self.out.extend((data.len() as u32).to_be_bytes());
        self.out.extend(data);
        if let Some(w) = self.driver.take() {
            w.wake()
        }
    }
    fn kill(&mut self) {
        self.dead = true;
        for c in self.chans.values_mut() {
            c.eof = true;
            if let Some(w) = c.waker.take() {
                w.wake()
            }
        }
    }
}
pub struct Connection<Io> {
    io: Io,
    s: Arc<Mutex<Shared>>,
    config: Config,
    inp: Vec<u8>,
    closing: bool,
    said: bool,
    done: bool,
}
#[derive(Clone)]
pub struct Handle(Arc<Mutex<Shared>>);
impl std::fmt::Debug for Handle {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Handle")
    }
}
impl Handle {
    pub fn new_stream(&self, id: &[u8]) -> Result<Stream, ConnectionError> {
        let mut s = self.0.lock().unwrap();
        if s.dead {
            return Err(ConnectionError("closed".into()));
        }
        let c = s.chans.entry(id.to_vec()).or_default();
        if c.opened {
            return Err(ConnectionError("the stream exists".into()));
        }
        c.opened = true;
        if c.eof && !std::mem::replace(&mut c.shut, true) {
            s.frame(1, id, &[]);
        }
        Ok(Stream { s: self.0.clone(), id: id.to_vec() })
    }
}
#[derive(Debug)]
pub struct Stream {
    s: Arc<Mutex<Shared>>,
    id: Vec<u8>,
}
impl Stream {
    fn shut(&self) {
        let mut s = self.s.lock().unwrap();
        if !s.dead && !std::mem::replace(&mut s.chans.get_mut(&self.id).unwrap().shut, true) {
            s.frame(1, &self.id, &[]);
        }
    }
}
impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut s = self.s.lock().unwrap();
        let dead = s.dead;
        let c = s.chans.get_mut(&self.id).unwrap();
        if c.buf.is_empty() {
            if c.eof || dead {
                return Poll::Ready(Ok(0));
            }
            c.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(c.buf.len());
        for (b, x) in buf.iter_mut().zip(c.buf.drain(..n)) {
            *b = x;
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.s.lock().unwrap();
        if s.dead || s.chans[&self.id].shut {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        s.frame(0, &self.id, data);
        Poll::Ready(Ok(data.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.shut();
        Poll::Ready(Ok(()))
    }
}
impl Drop for Stream {
    fn drop(&mut self) {
        self.shut();
    }
}
impl<Io: AsyncRead + AsyncWrite + Unpin> Connection<Io> {
    pub fn new(io: Io, config: Config) -> Self {
        Connection { io, s: Default::default(), config, inp: vec![], closing: false, said: false, done: false }
    }
    pub fn handle(&self) -> Result<Handle, ConnectionError> {
        Ok(Handle(self.s.clone()))
    }
    pub fn close(&mut self) {
        if std::mem::replace(&mut self.closing, true) {
            return;
        }
        if let Some(w) = self.s.lock().unwrap().driver.take() {
            w.wake()
        }
    }
    pub fn try_into_io(self) -> Result<Io, Self> {
        if self.done { Ok(self.io) } else { Err(self) }
    }
    fn take(&mut self) {
        let mut s = self.s.lock().unwrap();
        loop {
            let p = &self.inp;
            if p.len() < 9 {
                return;
            }
            let n = |at: usize| u32::from_be_bytes(p[at..at + 4].try_into().unwrap()) as usize;
            let il = n(1);
            if p.len() < 9 + il {
                return;
            }
            let dl = n(5 + il);
            if p.len() < 9 + il + dl {
                return;
            }
            let (kind, id, data) = (p[0], p[5..5 + il].to_vec(), p[9 + il..9 + il + dl].to_vec());
            self.inp.drain(..9 + il + dl);
            if kind == 2 {
                s.over = true;
                continue;
            }
            let c = s.chans.entry(id.clone()).or_default();
            c.buf.extend(data);
            let told = kind == 1 && !c.eof;
            c.eof |= kind == 1;
            let reply = told && c.opened && !c.shut;
            c.shut |= reply;
            if let Some(w) = c.waker.take() {
                w.wake()
            }
            if reply {
                s.frame(1, &id, &[]);
            }
        }
    }
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), ConnectionError>> {
        if self.done {
            return Poll::Ready(Ok(()));
        }
        self.s.lock().unwrap().driver = Some(cx.waker().clone());
        loop {
            let mut b = [0; 4096];
            match Pin::new(&mut self.io).poll_read(cx, &mut b) {
                Poll::Ready(Ok(0)) => {
                    let mut s = self.s.lock().unwrap();
                    s.kill();
                    if s.over && self.said {
                        self.done = true;
                        return Poll::Ready(Ok(()));
                    }
                    return Poll::Ready(Err(ConnectionError("connection lost".into())));
                }
                Poll::Ready(Ok(n)) => {
                    self.inp.extend_from_slice(&b[..n]);
                    self.take();
                }
                Poll::Ready(Err(e)) => {
                    self.s.lock().unwrap().kill();
                    return Poll::Ready(Err(ConnectionError(e.to_string())));
                }
                Poll::Pending => break,
            }
        }
        if self.closing && !self.said {
            self.said = true;
            self.s.lock().unwrap().frame(2, &[], &[]);
        }
        loop {
            let mut s = self.s.lock().unwrap();
            if s.out.is_empty() {
                break;
            }
            let part = s.out.make_contiguous();
            match Pin::new(&mut self.io).poll_write(cx, part) {
                Poll::Ready(Ok(n)) => {
                    s.out.drain(..n);
                }
                Poll::Ready(Err(e)) => {
                    s.kill();
                    return Poll::Ready(Err(ConnectionError(e.to_string())));
                }
                Poll::Pending => return Poll::Pending,
            }
        }
        let mut s = self.s.lock().unwrap();
        s.driver = Some(cx.waker().clone());
        if self.said && (s.over || !self.config.close_sync) {
            s.kill();
            self.done = true;
            return Poll::Ready(Ok(()));
        }
        Poll::Pending
    }
    pub fn is_complete(&self) -> bool {
        self.done
    }
}
