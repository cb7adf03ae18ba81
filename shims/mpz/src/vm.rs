//! mpz-vm-core and mpz-ideal-vm
use crate::{
    circuits::{bytes, circuits::xor, Circuit},
    common::Context,
    core::bitvec::BitVec,
    memory::{binary::Binary, DecodeFuture, FromRaw, Memory, MemoryExt, Repr, Slice, ToRaw, View, ViewExt, Visibility},
    serio::{IoStreamExt, SinkExt},
};
use async_trait::async_trait;
use futures::channel::oneshot;
use std::sync::{Arc, Mutex};

pub use crate::memory as memory;
pub mod prelude {
    pub use super::{CallableExt, Execute, Vm};
    pub use crate::memory::{Array, FromRaw, MemoryExt, Repr, StaticSize, ToRaw, Vector, ViewExt};
}
#[derive(Debug, thiserror::Error)]
#[error("vm error: {0}")]
pub struct VmError(pub String);
impl VmError {
    pub fn memory<E: Into<Box<dyn std::error::Error + Send + Sync + 'static>>>(e: E) -> Self {
        VmError(e.into().to_string())
    }
    pub fn execute<E: Into<Box<dyn std::error::Error + Send + Sync + 'static>>>(e: E) -> Self {
        VmError(e.into().to_string())
    }
}
fn e<T, E: ToString>(x: E) -> Result<T, VmError> {
    Err(VmError(x.to_string()))
}
#[derive(Debug, thiserror::Error)]
#[error("call error: {0}")]
pub struct CallError(String);
#[derive(Debug, Clone)]
pub struct Call {
    circ: Arc<Circuit>,
    args: Vec<Slice>,
}
impl Call {
    pub fn builder(circ: Arc<Circuit>) -> CallBuilder {
        CallBuilder::new(circ)
    }
    pub fn into_parts(self) -> (Arc<Circuit>, Vec<Slice>) {
        (self.circ, self.args)
    }
}
pub struct CallBuilder(Call);
impl CallBuilder {
    pub fn new(circ: Arc<Circuit>) -> Self {
        CallBuilder(Call { circ, args: vec![] })
    }
    pub fn arg(mut self, a: impl ToRaw) -> Self {
        self.0.args.push(a.to_raw());
        self
    }
    pub fn build(self) -> Result<Call, CallError> {
        let n: usize = self.0.args.iter().map(|a| a.size).sum();
        if n != self.0.circ.inputs() {
            return Err(CallError(format!("{n} input bits for {:?}", self.0.circ)));
        }
        Ok(self.0)
    }
}
pub trait Callable<T> {
    fn call_raw(&mut self, c: Call) -> Result<Slice, VmError>;
}
pub trait CallableExt<T>: Callable<T> + Memory<T, Error = VmError> + View<T, Error = VmError> {
    fn call<R: FromRaw<T>>(&mut self, c: Call) -> Result<R, VmError> {
        Ok(R::from_raw(self.call_raw(c)?))
    }
    /// value xor mask, with a mask of this party.
    fn mask_private<R: Repr<T>>(&mut self, r: R, mask: R::Clear) -> Result<R, VmError> {
        let s = r.to_raw();
        let m = self.alloc_raw(s.size)?;
        self.mark_private_raw(m)?;
        self.assign_raw(m, R::enc(&mask))?;
        self.commit_raw(m)?;
        Ok(R::from_raw(self.call_raw(Call { circ: Arc::new(xor(s.size)), args: vec![s, m] })?))
    }
    /// value xor mask, with a mask of the other party.
    fn mask_blind<R: Repr<T>>(&mut self, r: R) -> Result<R, VmError> {
        let s = r.to_raw();
        let m = self.alloc_raw(s.size)?;
        self.mark_blind_raw(m)?;
        self.commit_raw(m)?;
        Ok(R::from_raw(self.call_raw(Call { circ: Arc::new(xor(s.size)), args: vec![s, m] })?))
    }
}
impl<T, M: Callable<T> + Memory<T, Error = VmError> + View<T, Error = VmError> + ?Sized> CallableExt<T> for M {}
#[async_trait]
pub trait Execute {
    fn wants_flush(&self) -> bool;
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    fn wants_preprocess(&self) -> bool;
    async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    fn wants_execute(&self) -> bool;
    async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    async fn execute_all(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        self.flush(ctx).await?;
        if self.wants_preprocess() {
            self.preprocess(ctx).await?;
        }
        if self.wants_execute() {
            self.execute(ctx).await?;
        }
        self.flush(ctx).await
    }
}
pub trait Vm<T>: Memory<T, Error = VmError> + View<T, Error = VmError> + Callable<T> + Execute {}
impl<T, V: Memory<T, Error = VmError> + View<T, Error = VmError> + Callable<T> + Execute + ?Sized> Vm<T> for V {}

/// What one party has decoded, and the inputs it gave.
#[derive(Debug, Default, Clone)]
pub struct Log {
    pub decoded: Vec<(Slice, Vec<u8>)>,
    pub private: Vec<(Slice, Vec<u8>)>,
    pub calls: usize,
}
#[derive(Debug, Default)]
pub struct IdealVm {
    val: Vec<Option<bool>>,
    vis: Vec<Visibility>,
    committed: Vec<bool>,
    decoded: Vec<bool>,
    /// The other party is not trusted: where its public inputs differ from this party's they are
    /// ignored, as a proof about this party's statement would.
    lenient: bool,
    /// The other party garbles wrongly: the given bit of the output of the given call comes out flipped.
    wrong: Option<(usize, usize)>,
    calls: Vec<(Call, Slice)>,
    decodes: Vec<(Slice, oneshot::Sender<BitVec>)>,
    /// Committed inputs the other party has not seen: public ones for comparison, private ones.
    public: Vec<(usize, Vec<bool>)>,
    private: Vec<(usize, Vec<bool>)>,
    log: Arc<Mutex<Log>>,
}
impl IdealVm {
    fn mark_raw(&mut self, s: Slice, v: Visibility) -> Result<(), VmError> {
        for i in s.to_range() {
            if self.vis[i] != Visibility::Unset {
                return e("visibility is already set");
            }
            self.vis[i] = v;
        }
        Ok(())
    }
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_lenient(&mut self) {
        self.lenient = true;
    }
    pub fn set_wrong(&mut self, call: usize, bit: usize) {
        self.wrong = Some((call, bit));
    }
    pub fn log(&self) -> Arc<Mutex<Log>> {
        self.log.clone()
    }
    /// The value behind a reference, whoever may know it.
    pub fn peek(&self, s: Slice) -> Option<Vec<u8>> {
        let b: Option<Vec<bool>> = self.val[s.to_range()].iter().copied().collect();
        b.map(|b| bytes(&b))
    }
    fn run(&mut self) {
        loop {
            let mut progress = false;
            for (call, out) in std::mem::take(&mut self.calls) {
                let ready = call.args.iter().all(|a| self.val[a.to_range()].iter().all(Option::is_some) && self.committed[a.to_range()].iter().all(|c| *c));
                if !ready {
                    self.calls.push((call, out));
                    continue;
                }
                let x: Vec<bool> = call.args.iter().flat_map(|a| self.val[a.to_range()].iter().map(|b| b.unwrap())).collect();
                let mut log = self.log.lock().unwrap();
                let wrong = self.wrong.filter(|w| w.0 == log.calls).map(|w| w.1 % out.size.max(1));
                for (i, b) in call.circ.eval(&x).into_iter().enumerate() {
                    self.val[out.ptr + i] = Some(b ^ (wrong == Some(i)));
                    self.committed[out.ptr + i] = true;
                }
                log.calls += 1;
                drop(log);
                progress = true;
            }
            if !progress {
                break;
            }
        }
    }
    fn tell(&mut self) {
        for (s, tx) in std::mem::take(&mut self.decodes) {
            let v: Option<Vec<bool>> = self.val[s.to_range()].iter().copied().collect();
            match v {
                Some(v) if self.committed[s.to_range()].iter().all(|c| *c) => {
                    self.log.lock().unwrap().decoded.push((s, bytes(&v)));
                    self.decoded[s.to_range()].fill(true);
                    let _ = tx.send(BitVec(v));
                }
                _ => self.decodes.push((s, tx)),
            }
        }
    }
}
impl Memory<Binary> for IdealVm {
    type Error = VmError;
    fn is_alloc_raw(&self, s: Slice) -> bool {
        s.ptr + s.size <= self.val.len()
    }
    fn is_assigned_raw(&self, s: Slice) -> bool {
        self.val[s.to_range()].iter().all(Option::is_some)
    }
    fn is_committed_raw(&self, s: Slice) -> bool {
        self.committed[s.to_range()].iter().all(|c| *c)
    }
    fn alloc_raw(&mut self, n: usize) -> Result<Slice, VmError> {
        let ptr = self.val.len();
        self.val.resize(ptr + n, None);
        self.vis.resize(ptr + n, Visibility::Unset);
        self.committed.resize(ptr + n, false);
        self.decoded.resize(ptr + n, false);
        Ok(Slice { ptr, size: n })
    }
    fn assign_raw(&mut self, s: Slice, v: BitVec) -> Result<(), VmError> {
        if v.0.len() != s.size {
            return e(format!("assigned {} bits to {}", v.0.len(), s.size));
        }
        for (i, b) in s.to_range().zip(v.0) {
            if self.committed[i] {
                return e("assigned to a committed value");
            }
            if !matches!(self.vis[i], Visibility::Public | Visibility::Private) {
                return e("assigned to a value that is not this party's");
            }
            self.val[i] = Some(b);
        }
        Ok(())
    }
    fn commit_raw(&mut self, s: Slice) -> Result<(), VmError> {
        let mut i = s.ptr;
        let end = s.ptr + s.size;
        while i < end {
            let vis = self.vis[i];
            let j = (i..end).find(|j| self.vis[*j] != vis).unwrap_or(end);
            if self.committed[i..j].iter().any(|c| *c) {
                return e("committed twice");
            }
            if vis == Visibility::Blind {
                // known when the other party commits
            } else {
                let v: Option<Vec<bool>> = self.val[i..j].iter().copied().collect();
                let Some(v) = v else {
                    return e("committed without a value");
                };
                match vis {
                    Visibility::Public => self.public.push((i, v)),
                    Visibility::Private => {
                        self.log.lock().unwrap().private.push((Slice { ptr: i, size: j - i }, bytes(&v)));
                        self.private.push((i, v))
                    }
                    _ => return e("committed a value that is no input"),
                }
            }
            self.committed[i..j].fill(true);
            i = j;
        }
        Ok(())
    }
    fn get_raw(&self, s: Slice) -> Result<Option<BitVec>, VmError> {
        if s.to_range().any(|i| !self.decoded[i] && !matches!(self.vis[i], Visibility::Public | Visibility::Private)) {
            return Ok(None);
        }
        let v: Option<Vec<bool>> = self.val[s.to_range()].iter().copied().collect();
        Ok(v.map(BitVec))
    }
    fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<BitVec>, VmError> {
        let (tx, rx) = oneshot::channel();
        self.decodes.push((s, tx));
        Ok(DecodeFuture::raw(rx))
    }
}
impl View<Binary> for IdealVm {
    type Error = VmError;
    fn mark_public_raw(&mut self, s: Slice) -> Result<(), VmError> {
        self.mark_raw(s, Visibility::Public)
    }
    fn mark_private_raw(&mut self, s: Slice) -> Result<(), VmError> {
        self.mark_raw(s, Visibility::Private)
    }
    fn mark_blind_raw(&mut self, s: Slice) -> Result<(), VmError> {
        self.mark_raw(s, Visibility::Blind)
    }
}
impl Callable<Binary> for IdealVm {
    fn call_raw(&mut self, c: Call) -> Result<Slice, VmError> {
        let out = self.alloc_raw(c.circ.outputs())?;
        self.vis[out.to_range()].fill(Visibility::Output);
        self.calls.push((c, out));
        Ok(out)
    }
}
#[async_trait]
impl Execute for IdealVm {
    fn wants_flush(&self) -> bool {
        !self.decodes.is_empty() || !self.private.is_empty() || !self.public.is_empty()
    }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        type Msg = (Vec<(usize, Vec<bool>)>, Vec<(usize, Vec<bool>)>);
        let io = ctx.io_mut();
        let msg: Msg = (std::mem::take(&mut self.public), std::mem::take(&mut self.private));
        io.send(&msg).await.or_else(e)?;
        let (public, private): Msg = io.expect_next().await.or_else(e)?;
        for (at, v) in public {
            if at + v.len() > self.val.len() {
                return e("the parties' programs differ");
            }
            for (i, b) in v.into_iter().enumerate() {
                // what this party has not committed to (yet) cannot be compared
                if self.vis[at + i] != Visibility::Public || !self.lenient && self.committed[at + i] && self.val[at + i] != Some(b) {
                    return e("public inputs differ");
                }
            }
        }
        for (at, v) in private {
            if at + v.len() > self.val.len() {
                return e("the parties' programs differ");
            }
            for (i, b) in v.into_iter().enumerate() {
                if self.vis[at + i] != Visibility::Blind {
                    return e("private input where none is expected");
                }
                self.val[at + i] = Some(b);
            }
        }
        self.tell();
        Ok(())
    }
    fn wants_preprocess(&self) -> bool {
        false
    }
    async fn preprocess(&mut self, _: &mut Context) -> Result<(), VmError> {
        Ok(())
    }
    fn wants_execute(&self) -> bool {
        !self.calls.is_empty()
    }
    async fn execute(&mut self, _: &mut Context) -> Result<(), VmError> {
        self.run();
        Ok(())
    }
}
#[allow(unused)]
fn object_safe(_: &mut (dyn Vm<Binary> + Send + Sync)) {}
#[allow(unused)]
fn ext(vm: &mut dyn Vm<Binary>) {
    let x: crate::memory::Array<crate::memory::binary::U8, 4> = vm.alloc().unwrap();
    vm.mark_public(x).unwrap();
}
