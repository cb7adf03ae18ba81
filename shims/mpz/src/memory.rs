//! mpz-memory-core
use crate::core::bitvec::BitVec;
use futures::channel::oneshot;
use std::{future::Future, marker::PhantomData, ops::Range, pin::Pin, task::{Context, Poll}};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Slice {
    pub ptr: usize,
    pub size: usize,
}
impl Slice {
    pub fn len(&self) -> usize {
        self.size
    }
    pub fn is_empty(&self) -> bool {
        self.size == 0
    }
    pub fn to_range(&self) -> Range<usize> {
        self.ptr..self.ptr + self.size
    }
    pub fn from_range_unchecked(r: Range<usize>) -> Self {
        Slice { ptr: r.start, size: r.len() }
    }
}
impl std::fmt::Display for Slice {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.to_range())
    }
}
pub mod binary {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Binary;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct U8;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct U32;
}
use binary::{Binary, U32, U8};
/// A primitive type.
pub trait Elem: Copy + Send + Sync + 'static {
    const BITS: usize;
    type Clear: Clone + Copy + std::fmt::Debug + Send + Sync + 'static;
    fn enc(c: &Self::Clear) -> Vec<bool>;
    fn dec(b: &[bool]) -> Self::Clear;
}
impl Elem for U8 {
    const BITS: usize = 8;
    type Clear = u8;
    fn enc(c: &u8) -> Vec<bool> {
        (0..8).map(|i| c >> i & 1 == 1).collect()
    }
    fn dec(b: &[bool]) -> u8 {
        b.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u8) << i)
    }
}
impl Elem for U32 {
    const BITS: usize = 32;
    type Clear = u32;
    fn enc(c: &u32) -> Vec<bool> {
        (0..32).map(|i| c >> i & 1 == 1).collect()
    }
    fn dec(b: &[bool]) -> u32 {
        b.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u32) << i)
    }
}
pub trait ToRaw {
    fn to_raw(&self) -> Slice;
}
pub trait FromRaw<T> {
    fn from_raw(s: Slice) -> Self;
}
pub trait StaticSize<T> {
    /// In bits.
    const SIZE: usize;
}
pub trait Repr<T>: ToRaw + FromRaw<T> {
    type Clear: Clone + Send + Sync + 'static;
    fn enc(c: &Self::Clear) -> BitVec;
    fn dec(b: BitVec) -> Self::Clear;
}
impl ToRaw for Slice {
    fn to_raw(&self) -> Slice {
        *self
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Array<E, const N: usize>(Slice, PhantomData<E>);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Vector<E>(Slice, PhantomData<E>);
impl<E: Elem, const N: usize> ToRaw for Array<E, N> {
    fn to_raw(&self) -> Slice {
        self.0
    }
}
impl<E: Elem, const N: usize> Array<E, N> {
    pub const fn len(&self) -> usize {
        N
    }
    pub fn get<const M: usize>(&self, at: usize) -> Option<Array<E, M>> {
        (at + M <= N).then(|| Array(Slice { ptr: self.0.ptr + at * E::BITS, size: M * E::BITS }, PhantomData))
    }
}
impl<E: Elem, const N: usize> FromRaw<Binary> for Array<E, N> {
    fn from_raw(s: Slice) -> Self {
        assert_eq!(s.size, N * E::BITS);
        Array(s, PhantomData)
    }
}
impl<E: Elem, const N: usize> StaticSize<Binary> for Array<E, N> {
    const SIZE: usize = N * E::BITS;
}
impl<E: Elem, const N: usize> Repr<Binary> for Array<E, N> {
    type Clear = [E::Clear; N];
    fn enc(c: &Self::Clear) -> BitVec {
        BitVec(c.iter().flat_map(E::enc).collect())
    }
    fn dec(b: BitVec) -> Self::Clear {
        std::array::from_fn(|i| E::dec(&b.0[i * E::BITS..(i + 1) * E::BITS]))
    }
}
impl<E: Elem> ToRaw for Vector<E> {
    fn to_raw(&self) -> Slice {
        self.0
    }
}
impl<E: Elem> FromRaw<Binary> for Vector<E> {
    fn from_raw(s: Slice) -> Self {
        assert_eq!(s.size % E::BITS, 0);
        Vector(s, PhantomData)
    }
}
impl<E: Elem> Repr<Binary> for Vector<E> {
    type Clear = Vec<E::Clear>;
    fn enc(c: &Self::Clear) -> BitVec {
        BitVec(c.iter().flat_map(E::enc).collect())
    }
    fn dec(b: BitVec) -> Self::Clear {
        b.0.chunks(E::BITS).map(E::dec).collect()
    }
}
impl<E: Elem> Vector<E> {
    pub fn len(&self) -> usize {
        self.0.size / E::BITS
    }
    pub fn is_empty(&self) -> bool {
        self.0.size == 0
    }
    fn cut(&self, r: Range<usize>) -> Self {
        Vector(Slice { ptr: self.0.ptr + r.start * E::BITS, size: (r.end - r.start) * E::BITS }, PhantomData)
    }
    pub fn get(&self, r: Range<usize>) -> Option<Self> {
        (r.start <= r.end && r.end <= self.len()).then(|| self.cut(r))
    }
    pub fn split_off(&mut self, at: usize) -> Self {
        assert!(at <= self.len());
        let tail = self.cut(at..self.len());
        *self = self.cut(0..at);
        tail
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.len() {
            *self = self.cut(0..n);
        }
    }
}
impl<E: Elem, const N: usize> From<Array<E, N>> for Vector<E> {
    fn from(a: Array<E, N>) -> Self {
        Vector(a.0, PhantomData)
    }
}
#[derive(Debug, thiserror::Error)]
#[error("vector has a different length")]
pub struct SizeError;
impl<E: Elem, const N: usize> TryFrom<Vector<E>> for Array<E, N> {
    type Error = SizeError;
    fn try_from(v: Vector<E>) -> Result<Self, SizeError> {
        if v.len() == N {
            Ok(Array(v.0, PhantomData))
        } else {
            Err(SizeError)
        }
    }
}
impl<A: FromRaw<Binary> + StaticSize<Binary>, B: FromRaw<Binary> + StaticSize<Binary>, C: FromRaw<Binary> + StaticSize<Binary>> FromRaw<Binary>
    for (A, B, C)
{
    fn from_raw(s: Slice) -> Self {
        let at = |o: usize, n: usize| Slice { ptr: s.ptr + o, size: n };
        assert_eq!(s.size, A::SIZE + B::SIZE + C::SIZE);
        (A::from_raw(at(0, A::SIZE)), B::from_raw(at(A::SIZE, B::SIZE)), C::from_raw(at(A::SIZE + B::SIZE, C::SIZE)))
    }
}
#[derive(Debug, thiserror::Error)]
#[error("decode error")]
pub struct DecodeError;
#[derive(Debug)]
pub struct DecodeFutureTyped<B, T>(oneshot::Receiver<BitVec>, fn(BitVec) -> T, PhantomData<B>);
impl<B, T> DecodeFutureTyped<B, T> {
    pub fn try_recv(&mut self) -> Result<Option<T>, DecodeError> {
        self.0.try_recv().map(|v| v.map(self.1)).map_err(|_| DecodeError)
    }
}
impl<B: Unpin, T> Future for DecodeFutureTyped<B, T> {
    type Output = Result<T, DecodeError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let f = self.1;
        Pin::new(&mut self.0).poll(cx).map(|r| r.map(f).map_err(|_| DecodeError))
    }
}
/// Decodes to the raw bits.
pub type DecodeFuture<B> = DecodeFutureTyped<B, B>;
impl DecodeFutureTyped<BitVec, BitVec> {
    pub fn raw(rx: oneshot::Receiver<BitVec>) -> Self {
        DecodeFutureTyped(rx, |b| b, PhantomData)
    }
    pub fn typed<T>(self, f: fn(BitVec) -> T) -> DecodeFutureTyped<BitVec, T> {
        DecodeFutureTyped(self.0, f, PhantomData)
    }
}
pub trait Memory<T> {
    type Error: std::error::Error + Send + Sync + 'static;
    fn is_alloc_raw(&self, s: Slice) -> bool;
    fn alloc_raw(&mut self, bits: usize) -> Result<Slice, Self::Error>;
    fn is_assigned_raw(&self, s: Slice) -> bool;
    fn assign_raw(&mut self, s: Slice, v: BitVec) -> Result<(), Self::Error>;
    fn is_committed_raw(&self, s: Slice) -> bool;
    fn commit_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
    fn get_raw(&self, s: Slice) -> Result<Option<BitVec>, Self::Error>;
    fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<BitVec>, Self::Error>;
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Visibility {
    Unset,
    Public,
    Private,
    Blind,
    /// Computed.
    Output,
}
pub trait View<T> {
    type Error: std::error::Error + Send + Sync + 'static;
    fn mark_public_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
    fn mark_private_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
    fn mark_blind_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
}
pub trait ViewExt<T>: View<T> {
    fn mark_public(&mut self, r: impl ToRaw) -> Result<(), <Self as View<T>>::Error> {
        self.mark_public_raw(r.to_raw())
    }
    fn mark_private(&mut self, r: impl ToRaw) -> Result<(), <Self as View<T>>::Error> {
        self.mark_private_raw(r.to_raw())
    }
    fn mark_blind(&mut self, r: impl ToRaw) -> Result<(), <Self as View<T>>::Error> {
        self.mark_blind_raw(r.to_raw())
    }
}
impl<T, M: View<T> + ?Sized> ViewExt<T> for M {}
pub trait MemoryExt<T>: Memory<T> {
    fn alloc<R: Repr<T> + StaticSize<T>>(&mut self) -> Result<R, <Self as Memory<T>>::Error> {
        Ok(R::from_raw(self.alloc_raw(R::SIZE)?))
    }
    fn alloc_vec<E: Elem>(&mut self, n: usize) -> Result<Vector<E>, <Self as Memory<T>>::Error> {
        Ok(Vector(self.alloc_raw(n * E::BITS)?, PhantomData))
    }
    fn assign<R: Repr<T>>(&mut self, r: R, v: R::Clear) -> Result<(), <Self as Memory<T>>::Error> {
        self.assign_raw(r.to_raw(), R::enc(&v))
    }
    fn commit(&mut self, r: impl ToRaw) -> Result<(), <Self as Memory<T>>::Error> {
        self.commit_raw(r.to_raw())
    }
    fn get<R: Repr<T>>(&self, r: R) -> Result<Option<R::Clear>, <Self as Memory<T>>::Error> {
        Ok(self.get_raw(r.to_raw())?.map(R::dec))
    }
    fn decode<R: Repr<T>>(&mut self, r: R) -> Result<DecodeFutureTyped<BitVec, R::Clear>, <Self as Memory<T>>::Error> {
        Ok(self.decode_raw(r.to_raw())?.typed(R::dec))
    }
}
impl<T, M: Memory<T> + ?Sized> MemoryExt<T> for M {}
