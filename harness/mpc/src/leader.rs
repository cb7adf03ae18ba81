//! Stand-in for the MPC backend of the TLS client: same interface and the same
//! order of record processing, with a transparent record protection in place of
//! the two-party computation.
use crate::client::Certificate;
use ring::digest::{SHA256, digest};
use std::{
    collections::VecDeque,
    sync::{Arc, Mutex},
};
use tls_core::{
    cert::ServerCertDetails,
    ke::ServerKxDetails,
    key::PublicKey,
    msgs::{
        base::Payload,
        enums::{ContentType, NamedGroup},
        handshake::Random,
        message::{OpaqueMessage, PlainMessage},
    },
};

#[derive(Debug, thiserror::Error)]
#[error("{0}")]
pub struct MpcTlsError(pub &'static str);

#[derive(Debug)]
pub(crate) struct HandshakeData {
    pub(crate) server_random: Random,
    pub(crate) server_key: PublicKey,
    pub(crate) server_cert_details: ServerCertDetails,
    pub(crate) server_kx_details: ServerKxDetails,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bk {
    Ready,
    Active,
    Closed,
    Error,
}

/// What the client handed over to the key exchange.
#[derive(Default, Debug)]
pub struct Log {
    pub random: [u8; 32],
    pub group: u16,
    pub key: Vec<u8>,
    pub chain: Vec<Certificate>,
    pub ocsp: Vec<u8>,
    pub scts: Option<Vec<Vec<u8>>>,
    pub kx: Vec<u8>,
    pub sch: u16,
    pub sig: Vec<u8>,
    pub prepared: usize,
}

pub struct MpcTlsLeader {
    st: Bk,
    started: bool,
    decrypting: bool,
    wseq: u8,
    rseq: u8,
    encb: VecDeque<PlainMessage>,
    benc: VecDeque<OpaqueMessage>,
    bin: VecDeque<OpaqueMessage>,
    bdec: VecDeque<PlainMessage>,
    log: Arc<Mutex<Log>>,
}

pub fn random() -> [u8; 32] {
    std::array::from_fn(|i| (i * 7 + 1) as u8)
}
pub fn client_key() -> Vec<u8> {
    let mut k: Vec<u8> = (0..65).map(|i| (i * 5 + 9) as u8).collect();
    k[0] = 4;
    k
}
pub fn vd(label: &[u8], hash: &[u8]) -> Vec<u8> {
    digest(&SHA256, &[label, hash].concat()).as_ref()[..12].to_vec()
}
/// Toy protection: direction, sequence number, plaintext, check byte.
pub fn seal(dir: u8, seq: u8, m: &[u8]) -> Vec<u8> {
    let mut v = vec![dir, seq];
    v.extend(m.iter().map(|b| b ^ 0x5a));
    v.push(0xa5);
    v
}
pub fn open(dir: u8, seq: u8, c: &[u8]) -> Option<Vec<u8>> {
    if c.len() < 3 || c[0] != dir || c[1] != seq || c[c.len() - 1] != 0xa5 {
        return None;
    }
    Some(c[2..c.len() - 1].iter().map(|b| b ^ 0x5a).collect())
}

type R<T> = Result<T, MpcTlsError>;
impl MpcTlsLeader {
    pub fn new(log: Arc<Mutex<Log>>) -> Self {
        Self {
            st: Bk::Ready,
            started: false,
            decrypting: true,
            wseq: 0,
            rseq: 0,
            encb: Default::default(),
            benc: Default::default(),
            bin: Default::default(),
            bdec: Default::default(),
            log,
        }
    }
    fn active(&self) -> R<()> {
        if self.st == Bk::Active { Ok(()) } else { Err(MpcTlsError("state")) }
    }
    pub(crate) fn client_random(&self) -> R<Random> {
        if self.st == Bk::Ready { Ok(Random(random())) } else { Err(MpcTlsError("state")) }
    }
    pub(crate) fn client_key_share(&self) -> R<PublicKey> {
        if self.st == Bk::Ready { Ok(PublicKey::new(NamedGroup::secp256r1, &client_key())) } else { Err(MpcTlsError("state")) }
    }
    pub(crate) async fn prepare_encryption(&mut self, hs: HandshakeData) -> R<()> {
        if self.st != Bk::Ready {
            self.st = Bk::Error;
            return Err(MpcTlsError("state"));
        }
        self.st = Bk::Error;
        let mut l = self.log.lock().unwrap();
        l.prepared += 1;
        l.random = hs.server_random.0;
        l.group = hs.server_key.group.get_u16();
        l.key = hs.server_key.key.clone();
        l.chain = hs.server_cert_details.cert_chain().to_vec();
        l.ocsp = hs.server_cert_details.ocsp_response().to_vec();
        l.scts = hs.server_cert_details.scts().map(|s| s.as_slice().iter().map(|x| x.0.clone()).collect());
        l.kx = hs.server_kx_details.kx_params().to_vec();
        l.sch = hs.server_kx_details.kx_sig().scheme.get_u16();
        l.sig = hs.server_kx_details.kx_sig().sig.0.clone();
        if hs.server_key.group != NamedGroup::secp256r1 || hs.server_key.key.len() != 65 || hs.server_key.key[0] != 4 {
            return Err(MpcTlsError("key share"));
        }
        self.st = Bk::Active;
        Ok(())
    }
    pub(crate) async fn get_client_finished_vd(&mut self, h: Vec<u8>) -> R<Vec<u8>> {
        self.active()?;
        Ok(vd(b"cf", &h))
    }
    pub(crate) async fn get_server_finished_vd(&mut self, h: Vec<u8>) -> R<Vec<u8>> {
        self.active()?;
        Ok(vd(b"sf", &h))
    }
    pub(crate) async fn push_incoming(&mut self, m: OpaqueMessage) -> R<()> {
        self.active()?;
        self.bin.push_back(m);
        Ok(())
    }
    pub(crate) async fn push_outgoing(&mut self, m: PlainMessage) -> R<()> {
        self.active()?;
        self.encb.push_back(m);
        Ok(())
    }
    pub(crate) fn next_incoming(&mut self) -> R<Option<PlainMessage>> {
        if self.st == Bk::Error {
            return Err(MpcTlsError("state"));
        }
        match self.bdec.front() {
            Some(r) if self.started || r.typ != ContentType::ApplicationData => Ok(self.bdec.pop_front()),
            _ => Ok(None),
        }
    }
    pub(crate) fn next_outgoing(&mut self) -> R<Option<OpaqueMessage>> {
        if self.st == Bk::Error {
            return Err(MpcTlsError("state"));
        }
        match self.benc.front() {
            Some(r) if self.started || r.typ != ContentType::ApplicationData => Ok(self.benc.pop_front()),
            _ => Ok(None),
        }
    }
    pub(crate) async fn start_traffic(&mut self) -> R<()> {
        self.active()?;
        self.started = true;
        Ok(())
    }
    pub(crate) async fn flush(&mut self) -> R<()> {
        match self.st {
            Bk::Ready | Bk::Closed => return Ok(()),
            Bk::Error => return Err(MpcTlsError("state")),
            Bk::Active => {}
        }
        while let Some(m) = self.encb.pop_front() {
            let c = seal(0xe0, self.wseq, &m.payload.0);
            self.wseq = self.wseq.wrapping_add(1);
            self.benc.push_back(OpaqueMessage { typ: m.typ, version: m.version, payload: Payload::new(c) });
        }
        while let Some(m) = self.bin.front() {
            if !self.decrypting && m.typ == ContentType::ApplicationData {
                break;
            }
            let m = self.bin.pop_front().unwrap();
            let p = open(0xe1, self.rseq, &m.payload.0).ok_or(MpcTlsError("mac"))?;
            self.rseq = self.rseq.wrapping_add(1);
            self.bdec.push_back(PlainMessage { typ: m.typ, version: m.version, payload: Payload::new(p) });
        }
        Ok(())
    }
    pub(crate) fn is_empty(&self) -> bool {
        match self.st {
            Bk::Active | Bk::Closed => self.encb.is_empty() && self.benc.is_empty() && self.bin.is_empty() && self.bdec.is_empty(),
            _ => true,
        }
    }
    pub(crate) async fn close_connection(&mut self) -> R<()> {
        if self.st != Bk::Active {
            self.st = Bk::Error;
            return Err(MpcTlsError("state"));
        }
        self.st = Bk::Closed;
        Ok(())
    }
    pub(crate) fn enable_decryption(&mut self, e: bool) {
        self.decrypting = e;
    }
    pub(crate) fn finish(&mut self) -> Option<(mpz_common::Context, tlsn_core::transcript::TlsTranscript)> {
        None
    }
}
