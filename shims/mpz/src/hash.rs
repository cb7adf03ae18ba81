//! mpz-hash
use crate::{
    circuits::Circuit,
    memory::{binary::{Binary, U32, U8}, Array, MemoryExt, Slice, ToRaw, Vector, ViewExt},
    vm::{Call, CallError, Vm, VmError},
};
use std::sync::Arc;
pub mod sha256 {
    use super::*;
    #[derive(Debug, thiserror::Error)]
    #[error("sha256 error: {0}")]
    pub struct Sha256Error(String);
    impl From<VmError> for Sha256Error {
        fn from(e: VmError) -> Self {
            Sha256Error(e.to_string())
        }
    }
    impl From<CallError> for Sha256Error {
        fn from(e: CallError) -> Self {
            Sha256Error(e.to_string())
        }
    }
    const IV: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    #[derive(Debug, Clone)]
    pub struct Sha256 {
        state: Array<U32, 8>,
        blocks: usize,
        /// Bytes not yet compressed.
        rest: Vec<Slice>,
    }
    fn compress(state: &[u8], msg: &[u8]) -> [u32; 8] {
        let mut st: [u32; 8] = std::array::from_fn(|i| u32::from_le_bytes(state[4 * i..4 * i + 4].try_into().unwrap()));
        for b in msg.chunks_exact(64) {
            sha2::compress256(&mut st, &[*sha2::digest::generic_array::GenericArray::from_slice(b)]);
        }
        st
    }
    impl Sha256 {
        pub fn new_with_init(vm: &mut dyn Vm<Binary>) -> Result<Self, Sha256Error> {
            let state: Array<U32, 8> = vm.alloc()?;
            vm.mark_public(state)?;
            vm.assign(state, IV)?;
            vm.commit(state)?;
            Ok(Self::new_from_state(state, 0))
        }
        pub fn new_from_state(state: Array<U32, 8>, blocks: usize) -> Self {
            Sha256 { state, blocks, rest: vec![] }
        }
        pub fn state(&self) -> Option<(Array<U32, 8>, usize)> {
            Some((self.state, self.blocks))
        }
        pub fn update(&mut self, v: &Vector<U8>) {
            self.rest.push(v.to_raw());
        }
        fn call(&self, vm: &mut dyn Vm<Binary>, args: &[Slice], outs: usize, f: impl Fn(&[u8]) -> Vec<u8> + Send + Sync + 'static) -> Result<Slice, Sha256Error> {
            let n: usize = args.iter().map(|a| a.size / 8).sum();
            let mut c = Call::builder(Arc::new(Circuit::of(n, outs, f)));
            for a in args {
                c = c.arg(*a);
            }
            Ok(crate::vm::Callable::call_raw(vm, c.build()?)?)
        }
        /// Compresses the full blocks.
        pub fn compress(&mut self, vm: &mut dyn Vm<Binary>) -> Result<(), Sha256Error> {
            let n: usize = self.rest.iter().map(|a| a.size / 8).sum();
            let take = n / 64 * 64;
            if take == 0 {
                return Ok(());
            }
            let (mut used, mut rest, mut k) = (vec![self.state.to_raw()], vec![], 0);
            for s in &self.rest {
                let cut = (take - k.min(take)).min(s.size / 8);
                k += s.size / 8;
                if cut > 0 {
                    used.push(Slice { ptr: s.ptr, size: cut * 8 });
                }
                if cut * 8 < s.size {
                    rest.push(Slice { ptr: s.ptr + cut * 8, size: s.size - cut * 8 });
                }
            }
            let out = self.call(vm, &used, 32, |x| compress(&x[..32], &x[32..]).iter().flat_map(|w| w.to_le_bytes()).collect())?;
            self.state = crate::memory::FromRaw::from_raw(out);
            self.blocks += take / 64;
            self.rest = rest;
            Ok(())
        }
        pub fn finalize(mut self, vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, Sha256Error> {
            self.compress(vm)?;
            let n: usize = self.rest.iter().map(|a| a.size / 8).sum();
            let total = (self.blocks * 64 + n) as u64 * 8;
            let mut args = vec![self.state.to_raw()];
            args.extend(&self.rest);
            let out = self.call(vm, &args, 32, move |x| {
                let mut m = x[32..].to_vec();
                m.push(0x80);
                while m.len() % 64 != 56 {
                    m.push(0);
                }
                m.extend(total.to_be_bytes());
                compress(&x[..32], &m).iter().flat_map(|w| w.to_be_bytes()).collect()
            })?;
            Ok(crate::memory::FromRaw::from_raw(out))
        }
    }
}

/// Hashers that collect references and hash them at the end.
macro_rules! plain {
    ($m:ident, $t:ident, $err:ident, $f:expr) => {
        pub mod $m {
            use super::*;
            #[derive(Debug, thiserror::Error)]
            #[error("hash error: {0}")]
            pub struct $err(String);
            #[derive(Debug, Clone, Default)]
            pub struct $t(Vec<Slice>);
            impl $t {
                pub fn new(_: &mut dyn Vm<Binary>) -> Result<Self, $err> {
                    Ok(Self::default())
                }
                pub fn new_with_init(_: &mut dyn Vm<Binary>) -> Result<Self, $err> {
                    Ok(Self::default())
                }
                pub fn update(&mut self, _: &mut dyn Vm<Binary>, v: &Vector<U8>) -> Result<(), $err> {
                    self.0.push(v.to_raw());
                    Ok(())
                }
                pub fn finalize(self, vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, $err> {
                    let n: usize = self.0.iter().map(|a| a.size / 8).sum();
                    let mut c = Call::builder(Arc::new(Circuit::of(n, 32, $f)));
                    for a in &self.0 {
                        c = c.arg(*a);
                    }
                    let c = c.build().map_err(|e| $err(e.to_string()))?;
                    let out = crate::vm::Callable::call_raw(vm, c).map_err(|e| $err(e.to_string()))?;
                    Ok(crate::memory::FromRaw::from_raw(out))
                }
            }
        }
    };
}
plain!(blake3, Blake3, Blake3Error, |x| ::blake3::hash(x).as_bytes().to_vec());
plain!(keccak256, Keccak256, Keccak256Error, |x| {
    use tiny_keccak::Hasher;
    let mut h = tiny_keccak::Keccak::v256();
    h.update(x);
    let mut out = vec![0; 32];
    h.finalize(&mut out);
    out
});
