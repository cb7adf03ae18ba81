//! mpz-common
use crate::serio::{RawSink, RawStream};
use async_trait::async_trait;
use futures::channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender};
use futures::{AsyncRead, AsyncWrite, Stream as _};
use std::{collections::HashMap, future::Future, pin::Pin, sync::{Arc, Mutex}, task::Poll};

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct ContextId(Vec<u8>);
impl ContextId {
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Debug, thiserror::Error)]
#[error("context error: {0}")]
pub struct ContextError(String);

type Half = (UnboundedSender<Vec<u8>>, UnboundedReceiver<Vec<u8>>);
#[derive(Debug, Default)]
struct HubState {
    halves: [HashMap<ContextId, Half>; 2],
    closed: [bool; 2],
}
/// The connection between two parties, with a channel per context.
#[derive(Debug, Clone, Default)]
pub struct Hub(Arc<Mutex<HubState>>);
impl Hub {
    fn open(&self, id: &ContextId, side: usize) -> Io {
        let mut h = self.0.lock().unwrap();
        let (tx, rx) = match h.halves[side].remove(id) {
            Some(half) => half,
            None => {
                let (t0, r0) = unbounded();
                let (t1, r1) = unbounded();
                if !h.closed[1 - side] {
                    h.halves[1 - side].insert(id.clone(), (t1, r0));
                }
                (t0, r1)
            }
        };
        Io(Kind::Chan(tx, rx))
    }
    fn close(&self, side: usize) {
        let mut h = self.0.lock().unwrap();
        h.closed[side] = true;
        h.halves[side].clear();
    }
}
trait Duplex: AsyncRead + AsyncWrite + Send + Sync + Unpin {}
impl<T: AsyncRead + AsyncWrite + Send + Sync + Unpin> Duplex for T {}
enum Kind {
    Chan(UnboundedSender<Vec<u8>>, UnboundedReceiver<Vec<u8>>),
    Stream(Box<dyn Duplex>, Vec<u8>),
}
pub struct Io(Kind);
impl std::fmt::Debug for Io {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Io")
    }
}
impl Io {
    /// Messages over a stream that takes whatever is written to it.
    pub fn from_io<T: futures::AsyncRead + futures::AsyncWrite + Send + Sync + Unpin + 'static>(io: T) -> Self {
        Io(Kind::Stream(Box::new(io), vec![]))
    }
}
impl RawSink for Io {
    fn put(&mut self, bytes: Vec<u8>) -> io::Result<()> {
        match &mut self.0 {
            Kind::Chan(tx, _) => tx.unbounded_send(bytes).map_err(|_| io::ErrorKind::BrokenPipe.into()),
            Kind::Stream(s, _) => {
                let m = [&(bytes.len() as u32).to_be_bytes()[..], &bytes].concat();
                let mut cx = std::task::Context::from_waker(futures::task::noop_waker_ref());
                match Pin::new(&mut *s).poll_write(&mut cx, &m) {
                    Poll::Ready(Ok(n)) if n == m.len() => Ok(()),
                    Poll::Ready(Err(e)) => Err(e),
                    _ => Err(io::Error::other("the stream did not take a message")),
                }
            }
        }
    }
}
impl RawStream for Io {
    fn poll_take(&mut self, cx: &mut std::task::Context<'_>) -> Poll<io::Result<Vec<u8>>> {
        let eof = || Poll::Ready(Err(io::ErrorKind::UnexpectedEof.into()));
        match &mut self.0 {
            Kind::Chan(_, rx) => match Pin::new(rx).poll_next(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Some(b)) => Poll::Ready(Ok(b)),
                Poll::Ready(None) => eof(),
            },
            Kind::Stream(s, buf) => loop {
                if let Some(n) = buf.first_chunk::<4>() {
                    let n = 4 + u32::from_be_bytes(*n) as usize;
                    if buf.len() >= n {
                        let m = buf[4..n].to_vec();
                        buf.drain(..n);
                        return Poll::Ready(Ok(m));
                    }
                }
                let mut b = [0; 4096];
                match Pin::new(&mut *s).poll_read(cx, &mut b) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Ready(Ok(0)) => return eof(),
                    Poll::Ready(Ok(n)) => buf.extend_from_slice(&b[..n]),
                }
            },
        }
    }
}
/// Where the channels of a connection come from.
enum Guard {
    Hub(Hub, usize),
    Mux(Box<dyn mux::Mux + Send + Sync>),
}
impl std::fmt::Debug for Guard {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Guard")
    }
}
impl Guard {
    fn open(&self, id: &ContextId) -> Result<Io, ContextError> {
        match self {
            Guard::Hub(h, side) => Ok(h.open(id, *side)),
            Guard::Mux(m) => m.open(id.as_bytes()).map_err(|e| ContextError(e.to_string())),
        }
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        if let Guard::Hub(h, side) = self {
            h.close(*side);
        }
    }
}
pub mod io {
    pub use super::Io;
    pub(crate) use std::io::*;
}
pub mod mux {
    pub trait Mux {
        fn open(&self, id: &[u8]) -> Result<super::Io, std::io::Error>;
    }
}
/// Gives out contexts over a multiplexed connection.
pub struct Executor(Arc<Guard>, u8);
pub struct ExecutorBuilder;
impl Executor {
    pub fn builder() -> ExecutorBuilder {
        ExecutorBuilder
    }
    pub fn new_context(&mut self) -> Result<Context, ContextError> {
        let id = ContextId(vec![self.1]);
        self.1 += 1;
        Context::make(id, self.0.clone())
    }
}
impl ExecutorBuilder {
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build<M: mux::Mux + Send + Sync + 'static>(self, mux: M) -> Executor {
        Executor(Arc::new(Guard::Mux(Box::new(mux))), 0)
    }
}
/// A party's end of the connection.
#[derive(Debug)]
pub struct Context {
    id: ContextId,
    io: Io,
    children: Vec<Context>,
    guard: Arc<Guard>,
}
type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
impl Context {
    fn make(id: ContextId, guard: Arc<Guard>) -> Result<Self, ContextError> {
        let io = guard.open(&id)?;
        Ok(Context { id, io, children: vec![], guard })
    }
    /// Both ends of a new connection.
    pub fn pair() -> (Context, Context) {
        let hub = Hub::default();
        (
            Self::make(ContextId::default(), Arc::new(Guard::Hub(hub.clone(), 0))).unwrap(),
            Self::make(ContextId::default(), Arc::new(Guard::Hub(hub, 1))).unwrap(),
        )
    }
    pub fn id(&self) -> &ContextId {
        &self.id
    }
    pub fn io_mut(&mut self) -> &mut Io {
        &mut self.io
    }
    fn grow(&mut self, n: usize) -> Result<(), ContextError> {
        while self.children.len() < n {
            let mut id = self.id.clone();
            id.0.push(self.children.len() as u8);
            self.children.push(Self::make(id, self.guard.clone())?);
        }
        Ok(())
    }
    pub async fn join<A, B, RA, RB>(&mut self, a: A, b: B) -> Result<(RA, RB), ContextError>
    where
        A: for<'a> FnOnce(&'a mut Context) -> Fut<'a, RA>,
        B: for<'a> FnOnce(&'a mut Context) -> Fut<'a, RB>,
    {
        self.grow(2)?;
        let [x, y, ..] = &mut self.children[..] else { unreachable!() };
        Ok(futures::join!(a(x), b(y)))
    }
    pub async fn try_join<A, B, RA, RB, E>(&mut self, a: A, b: B) -> Result<Result<(RA, RB), E>, ContextError>
    where
        A: for<'a> FnOnce(&'a mut Context) -> Fut<'a, Result<RA, E>>,
        B: for<'a> FnOnce(&'a mut Context) -> Fut<'a, Result<RB, E>>,
    {
        self.grow(2)?;
        let [x, y, ..] = &mut self.children[..] else { unreachable!() };
        Ok(futures::try_join!(a(x), b(y)))
    }
    pub async fn try_join3<A, B, C, RA, RB, RC, E>(&mut self, a: A, b: B, c: C) -> Result<Result<(RA, RB, RC), E>, ContextError>
    where
        A: for<'a> FnOnce(&'a mut Context) -> Fut<'a, Result<RA, E>>,
        B: for<'a> FnOnce(&'a mut Context) -> Fut<'a, Result<RB, E>>,
        C: for<'a> FnOnce(&'a mut Context) -> Fut<'a, Result<RC, E>>,
    {
        self.grow(3)?;
        let [x, y, z, ..] = &mut self.children[..] else { unreachable!() };
        Ok(futures::try_join!(a(x), b(y), c(z)))
    }
}
#[async_trait]
pub trait Flush {
    type Error: std::error::Error + Send + Sync + 'static;
    fn wants_flush(&self) -> bool;
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), Self::Error>;
}
#[async_trait]
pub trait Task {
    type Output: Send;
    async fn run(self, ctx: &mut Context) -> Self::Output;
    async fn run_boxed(self: Box<Self>, ctx: &mut Context) -> Self::Output;
}
pub mod future {
    use super::*;
    #[derive(Debug, thiserror::Error)]
    #[error("output canceled")]
    pub struct Canceled;
    /// A future output that can be polled without a waker.
    pub trait Output: Future {
        type Ok;
        type Error;
        fn try_recv(&mut self) -> Result<Option<Self::Ok>, Self::Error>;
    }
    #[derive(Debug)]
    pub struct MaybeDone<T>(pub futures::channel::oneshot::Receiver<T>);
    impl<T> Future for MaybeDone<T> {
        type Output = Result<T, Canceled>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut self.0).poll(cx).map_err(|_| Canceled)
        }
    }
    impl<T> Output for MaybeDone<T> {
        type Ok = T;
        type Error = Canceled;
        fn try_recv(&mut self) -> Result<Option<T>, Canceled> {
            self.0.try_recv().map_err(|_| Canceled)
        }
    }
}
pub mod context {
    pub fn test_st_context(_: usize) -> (super::Context, super::Context) {
        super::Context::pair()
    }
}
