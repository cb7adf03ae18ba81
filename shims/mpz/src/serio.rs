//! serio
use serde::{de::DeserializeOwned, Serialize};
use std::{future::Future, io, pin::Pin, task::{Context, Poll}};

pub trait RawSink {
    fn put(&mut self, bytes: Vec<u8>) -> io::Result<()>;
}
pub trait RawStream {
    fn poll_take(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>>;
}
impl<S: RawSink + ?Sized> RawSink for &mut S {
    fn put(&mut self, bytes: Vec<u8>) -> io::Result<()> {
        (**self).put(bytes)
    }
}
impl<S: RawStream + ?Sized> RawStream for &mut S {
    fn poll_take(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
        (**self).poll_take(cx)
    }
}
pub mod sink {
    use super::*;
    pub trait SinkExt: RawSink {
        fn send<T: Serialize>(&mut self, item: T) -> std::future::Ready<io::Result<()>> {
            std::future::ready(match bincode::serialize(&item) {
                Ok(b) => self.put(b),
                Err(e) => Err(io::Error::new(io::ErrorKind::InvalidData, e)),
            })
        }
    }
    impl<S: RawSink + ?Sized> SinkExt for S {}
}
pub use sink::SinkExt;
pub mod stream {
    use super::*;
    pub struct Next<'a, S: ?Sized, T>(&'a mut S, std::marker::PhantomData<fn() -> T>);
    impl<S: RawStream + ?Sized, T: DeserializeOwned> Future for Next<'_, S, T> {
        type Output = io::Result<T>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<T>> {
            match self.0.poll_take(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(b)) => Poll::Ready(bincode::deserialize(&b).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))),
            }
        }
    }
    pub trait IoStreamExt: RawStream {
        fn expect_next<T: DeserializeOwned>(&mut self) -> Next<'_, Self, T> {
            Next(self, std::marker::PhantomData)
        }
    }
    impl<S: RawStream + ?Sized> IoStreamExt for S {}
}
pub use stream::IoStreamExt;
