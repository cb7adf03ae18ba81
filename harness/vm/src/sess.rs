//! A session: the leader driven call by call as the TLS client drives it, the follower running on
//! its own, the harness in the place of the server.
use super::{certs::Keys, duo::Flag, rl::*, util::*};
use crate::{
    Config, MpcTlsError, MpcTlsFollower, MpcTlsLeader, SessionKeys, Vm,
    leader::HandshakeData,
};
use mpz_common::Context;
use mpz_ideal_vm::IdealVm;
use mpz_memory_core::ToRaw;
use mpz_ot::ideal::IdealRcot;
use ring::{agreement, hmac, rand::SystemRandom};
use serde_json::{Value, json};
use std::{
    future::Future,
    pin::Pin,
    sync::{
        Arc,
        atomic::{AtomicBool, Ordering},
    },
    task::Poll,
};
use tls_core::{
    cert::ServerCertDetails,
    ke::ServerKxDetails,
    key::{Certificate, PublicKey},
    msgs::{
        base::Payload,
        enums::{ContentType, NamedGroup, ProtocolVersion, SignatureScheme},
        handshake::{DigitallySignedStruct, Random},
        message::{OpaqueMessage, PlainMessage},
    },
};
use tlsn_core::{
    connection::{CertBinding, SignatureAlgorithm, TlsVersion},
    transcript::TlsTranscript,
};
use tokio::sync::Mutex;

pub const VER: ProtocolVersion = ProtocolVersion::TLSv1_2;

/// RFC 5246, 5.
pub fn prf(secret: &[u8], label: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let k = hmac::Key::new(hmac::HMAC_SHA256, secret);
    let seed = [label, seed].concat();
    let (mut a, mut out) = (seed.clone(), vec![]);
    while out.len() < n {
        a = hmac::sign(&k, &a).as_ref().to_vec();
        out.extend_from_slice(hmac::sign(&k, &[&a[..], &seed].concat()).as_ref());
    }
    out.truncate(n);
    out
}
/// What the server knows of the session.
pub struct Server {
    sk: Option<agreement::EphemeralPrivateKey>,
    pub pk: Vec<u8>,
    pub random: [u8; 32],
    pub ms: Vec<u8>,
    pub cw: Gcm,
    pub sw: Gcm,
}
impl Server {
    pub fn new(id: usize) -> Self {
        let sk = agreement::EphemeralPrivateKey::generate(&agreement::ECDH_P256, &SystemRandom::new()).unwrap();
        let none = || Gcm { key: [0; 16], iv: [0; 4] };
        Server {
            pk: sk.compute_public_key().unwrap().as_ref().to_vec(),
            sk: Some(sk),
            random: std::array::from_fn(|i| (id * 31 + i * 7 + 1) as u8),
            ms: vec![0; 48],
            cw: none(),
            sw: none(),
        }
    }
    /// Receives the client's key.
    pub fn agree(&mut self, client: &[u8], cr: &[u8; 32]) {
        let Some(sk) = self.sk.take() else { return };
        let peer = agreement::UnparsedPublicKey::new(&agreement::ECDH_P256, client);
        let Ok(pms) = agreement::agree_ephemeral(sk, &peer, <[u8]>::to_vec) else { return };
        self.ms = prf(&pms, b"master secret", &[&cr[..], &self.random].concat(), 48);
        let k = prf(&self.ms, b"key expansion", &[&self.random[..], cr].concat(), 40);
        self.cw = Gcm { key: k[..16].try_into().unwrap(), iv: k[32..36].try_into().unwrap() };
        self.sw = Gcm { key: k[16..32].try_into().unwrap(), iv: k[36..].try_into().unwrap() };
    }
    pub fn vd(&self, sent: bool, h: usize) -> Vec<u8> {
        prf(&self.ms, if sent { b"client finished" } else { b"server finished" }, &hash(h), 12)
    }
    /// Type and content of a record.
    pub fn content(&self, e: &Value, sent: bool, salt: usize) -> (ContentType, Vec<u8>) {
        let fin = |h: usize| [&[20, 0, 0, 12][..], &self.vd(sent, h)].concat();
        use ContentType::*;
        match e["c"].as_str().unwrap() {
            "fin" => (Handshake, fin(u(e, "h"))),
            "other" => (Handshake, vec![14, 0, 0, 0]),
            "short" => (Handshake, fin(u(e, "h"))[..15].to_vec()),
            "long" => (Handshake, [&fin(u(e, "h"))[..], &[0]].concat()),
            "hid" => (ApplicationData, fin(u(e, "h"))),
            "close" => (Alert, vec![1, 0]),
            "warn" => (Alert, vec![1, 90]),
            "fatal" => (Alert, vec![2, 40]),
            "mal" => (Alert, vec![1]),
            "ccs" => (ChangeCipherSpec, vec![1]),
            "data" => (ApplicationData, pt(salt, u(e, "n"))),
            x => die(&format!("content {x}")),
        }
    }
}
pub fn hash(h: usize) -> [u8; 32] {
    std::array::from_fn(|i| (h * 16 + i) as u8)
}

type Res = Result<(Context, TlsTranscript), MpcTlsError>;
/// The follower, running by itself.
pub struct Runner {
    fut: Option<Pin<Box<dyn Future<Output = Res>>>>,
    pub status: &'static str,
    pub done: Option<TlsTranscript>,
    ctx: Option<Context>,
    flag: Arc<Flag>,
}
pub enum Got<T> {
    Done(T),
    Stall,
    Panic,
}
impl Runner {
    pub fn new() -> Self {
        Runner { fut: None, status: "new", done: None, ctx: None, flag: Arc::new(Flag(AtomicBool::new(true))) }
    }
    pub fn start(&mut self, f: MpcTlsFollower) {
        self.fut = Some(Box::pin(f.run()));
        self.status = "run";
    }
    fn poll(&mut self, cx: &mut std::task::Context<'_>) {
        if let Some(f) = &mut self.fut {
            match guard(|| f.as_mut().poll(cx)) {
                None => self.status = "panic",
                Some(Poll::Pending) => return,
                Some(Poll::Ready(Err(_e))) => {
                    if std::env::var("SHOW").is_ok() { eprintln!("follower: {_e}") }
                    self.status = "err"
                }
                Some(Poll::Ready(Ok((c, t)))) => {
                    self.ctx = Some(c);
                    self.done = Some(t);
                    self.status = "ok"
                }
            }
            self.fut = None;
            self.flag.0.store(true, Ordering::SeqCst);
        }
    }
    /// Runs `f` while the follower runs, then the follower as far as it goes.
    pub fn with<T>(&mut self, f: impl Future<Output = T>) -> Got<T> {
        let mut f = Some(Box::pin(f));
        let mut got = Got::Stall;
        self.flag.0.store(true, Ordering::SeqCst);
        let w = self.flag.clone().into();
        let mut cx = std::task::Context::from_waker(&w);
        while self.flag.0.swap(false, Ordering::SeqCst) {
            if let Some(x) = &mut f {
                match guard(|| x.as_mut().poll(&mut cx)) {
                    Some(Poll::Pending) => {}
                    Some(Poll::Ready(x)) => got = Got::Done(x),
                    None => got = Got::Panic,
                }
                if !matches!(got, Got::Stall) {
                    f = None;
                    self.flag.0.store(true, Ordering::SeqCst);
                }
            }
            self.poll(&mut cx);
        }
        // what is left of a call that failed goes before the follower is asked again
        drop(f);
        self.flag.0.store(true, Ordering::SeqCst);
        while self.flag.0.swap(false, Ordering::SeqCst) {
            self.poll(&mut cx);
        }
        got
    }
    pub fn settle(&mut self) {
        self.with(async {});
    }
}
pub fn config(e: &Value) -> Config {
    let mut b = Config::builder();
    b.max_sent(u(e, "ms")).max_recv(u(e, "mr")).max_recv_online(u(e, "mo")).defer_decryption(e["defer"] == true);
    b.max_sent_records(u(e, "ns")).max_recv_records_online(u(e, "nr"));
    if e["low"] == true {
        b.low_bandwidth();
    }
    b.build().unwrap()
}
/// Whether the keys both were given are those of the session.
fn keys_ok(vm: &Arc<Mutex<IdealVm>>, k: &SessionKeys, s: &Server) -> bool {
    let vm = vm.try_lock().unwrap();
    let is = |r: mpz_memory_core::Slice, v: &[u8]| vm.peek(r).as_deref() == Some(v);
    is(k.client_write_key.to_raw(), &s.cw.key)
        && is(k.client_write_iv.to_raw(), &s.cw.iv)
        && is(k.server_write_key.to_raw(), &s.sw.key)
        && is(k.server_write_iv.to_raw(), &s.sw.iv)
        && is(k.server_write_mac_key.to_raw(), &s.sw.hash_key())
}
pub struct Certs {
    keys: Keys,
    chain: Vec<Vec<u8>>,
}
pub fn certs() -> Certs {
    let keys = Keys::new();
    let mk = |subj: u64, key: u64, iss: u64, by: u64, ca: &str, names: Value| {
        keys.cert(&json!({"subj": subj, "key": key, "iss": iss, "by": by, "ca": ca, "pl": -1, "eku": if ca == "yes" {"none"} else {"server"},
            "names": names, "nb": 0, "na": 1_500_000_000, "good": true, "der": "ok"}))
    };
    let chain = vec![mk(9, 9, 5, 5, "no", json!([])), mk(5, 5, 1, 1, "yes", json!([]))];
    Certs { keys, chain }
}
thread_local!(static CERTS: Certs = certs());

pub fn recs(s: &Server, t: &TlsTranscript, w: &[Pushed], r: &[Pushed]) -> (Value, Value) {
    let sent: Vec<_> = t.sent().iter().map(|x| sent_out(&s.cw, w, x)).collect();
    let recv: Vec<_> = t.recv().iter().map(|x| recv_out(r, x)).collect();
    (json!(sent), json!(recv))
}
fn status(r: &Result<(), MpcTlsError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(_e) => {
            if std::env::var("SHOW").is_ok() { eprintln!("leader: {_e}") }
            "err"
        }
    }
}

pub fn run(ops: &[Value]) -> Vec<Value> {
    let new = &ops[0];
    let id = u(new, "id");
    let cfg = config(new);
    let (cl, cf) = Context::pair();
    let vms = [Arc::new(Mutex::new(IdealVm::new())), Arc::new(Mutex::new(IdealVm::new()))];
    let c = || IdealRcot;
    let mut leader = MpcTlsLeader::new(cfg.clone(), cl, vms[0].clone() as Vm, (c(), c(), c()), c());
    let mut follower = Some(MpcTlsFollower::new(cfg, cf, vms[1].clone() as Vm, c(), (c(), c(), c())));
    let mut run = Runner::new();
    let mut srv = Server::new(id);
    let mut cr = [0; 32];
    let mut keys: [Option<SessionKeys>; 2] = [None, None];
    let (mut w, mut r, mut taken): (Vec<Pushed>, Vec<Pushed>, usize) = (vec![], vec![], 0);
    let t0 = now();
    let mut evs = vec![new.clone()];
    evs[0]["out"] = json!({"l": {"r": "ok"}, "f": "new"});
    macro_rules! call {
        ($f:expr, $ok:expr) => {
            match run.with($f) {
                Got::Done(Ok(x)) => $ok(x),
                Got::Done(Err(_e)) => {
                    if std::env::var("SHOW").is_ok() { eprintln!("leader: {_e}") }
                    json!("err")
                }
                Got::Stall => json!("stall"),
                Got::Panic => json!("panic"),
            }
        };
    }
    let okay = |_: ()| json!("ok");
    for op in &ops[1..] {
        let mut e = op.clone();
        let out: Value = match op["op"].as_str().unwrap() {
            "alloc" => {
                if let Some(f) = &mut follower {
                    keys[1] = guard(|| f.alloc().ok()).flatten().or(keys[1].take());
                }
                match guard(|| leader.alloc()) {
                    None => json!("panic"),
                    Some(Ok(k)) => {
                        keys[0] = Some(k);
                        json!("ok")
                    }
                    Some(Err(_)) => json!("err"),
                }
            }
            "pre" => {
                let mut f = follower.take();
                let x = guard(|| {
                    super::duo::both(leader.preprocess(), async {
                        match &mut f {
                            Some(f) => f.preprocess().await.is_ok(),
                            None => false,
                        }
                    })
                });
                match x {
                    None => json!("panic"),
                    Some((None, _)) => json!("stall"),
                    Some((Some(Err(_)), _)) => json!("err"),
                    Some((Some(Ok(())), ok)) => {
                        if ok == Some(true) {
                            run.start(f.take().unwrap());
                        }
                        json!("ok")
                    }
                }
            }
            "cr" => match guard(|| leader.client_random()) {
                None => json!("panic"),
                Some(Err(_)) => json!("err"),
                Some(Ok(x)) => {
                    let fresh = x.0 != [0; 32];
                    let same = cr == [0; 32] || cr == x.0;
                    cr = x.0;
                    json!({"r": "ok", "good": fresh && same})
                }
            },
            "ks" => match guard(|| leader.client_key_share()) {
                None => json!("panic"),
                Some(Err(_)) => json!("err"),
                Some(Ok(x)) => json!({"r": "ok", "good": x.group == NamedGroup::secp256r1 && x.key.len() == 65 && x.key[0] == 4}),
            },
            "prep" => {
                let how = op["how"].as_str().unwrap();
                if let (Ok(c), Ok(k)) = (leader.client_random(), leader.client_key_share()) {
                    cr = c.0;
                    srv.agree(&k.key, &cr);
                }
                let mut key = srv.pk.clone();
                match how {
                    "point" => key = vec![4, 1, 2, 3],
                    "curve" => key[64] ^= 1,
                    _ => {}
                }
                let params = [&[3, 0, 23, 65][..], &srv.pk].concat();
                let hs = CERTS.with(|c| {
                    let sig = c.keys.sign(9, &[&cr[..], &srv.random, &params].concat());
                    HandshakeData {
                        server_random: Random(srv.random),
                        server_key: PublicKey::new(if how == "group" { NamedGroup::X25519 } else { NamedGroup::secp256r1 }, &key),
                        server_cert_details: ServerCertDetails::new(c.chain.iter().cloned().map(Certificate).collect(), vec![], None),
                        server_kx_details: ServerKxDetails::new(params, DigitallySignedStruct::new(SignatureScheme::ECDSA_NISTP256_SHA256, sig)),
                    }
                });
                call!(leader.prepare_encryption(hs), okay)
            }
            "keys" => json!({"r": "keys", "good": (0..2).all(|k| keys[k].as_ref().is_some_and(|x| keys_ok(&vms[k], x, &srv)))}),
            "cf" | "sf" => {
                let sent = op["op"] == "cf";
                let mut h = hash(u(op, "h")).to_vec();
                if op["short"] == true {
                    h.pop();
                }
                let want = srv.vd(sent, u(op, "h"));
                let good = |x: Vec<u8>| json!({"r": "ok", "good": x == want});
                if sent { call!(leader.get_client_finished_vd(h), good) } else { call!(leader.get_server_finished_vd(h), good) }
            }
            "out" => {
                let (typ, data) = srv.content(op, true, id + w.len() * 3);
                let m = PlainMessage { typ, version: VER, payload: Payload::new(data.clone()) };
                call!(leader.push_outgoing(m), |_| {
                    w.push(Pushed { typ, data, nonce: vec![], ct: vec![], tag: vec![] });
                    json!("ok")
                })
            }
            "in" => {
                let i = r.len();
                let (typ, data) = srv.content(op, false, id + 100 + i * 5);
                let mut nonce = pt(id + i * 7 + 3, 8);
                let how = op["how"].as_str().unwrap();
                let (mut ct, mut tag) = srv.sw.seal(&nonce, i as u64 + (how == "seq") as u64, typ, VER, &data);
                match how {
                    "tag" => tag[0] ^= 4,
                    "ct" => ct[0] ^= 1,
                    "nonce" => nonce[7] ^= 1,
                    _ => {}
                }
                let mut p = [&nonce[..], &ct, &tag].concat();
                if how == "short" {
                    p.truncate(23);
                }
                let m = OpaqueMessage { typ, version: VER, payload: Payload::new(p) };
                call!(leader.push_incoming(m), |_| {
                    r.push(Pushed { typ, data, nonce, ct, tag });
                    json!("ok")
                })
            }
            "nout" => match guard(|| leader.next_outgoing()) {
                None => json!("panic"),
                Some(Err(_)) => json!("err"),
                Some(Ok(None)) => json!("none"),
                Some(Ok(Some(m))) => {
                    let p = &m.payload.0;
                    let (n, c, t) = (&p[..8], &p[8..p.len() - 16], p[p.len() - 16..].to_vec());
                    let seq = u64::from_be_bytes(n.try_into().unwrap()).min(1 << 20);
                    let mut v = enc_out(&srv.cw, &w, seq, m.typ, c, Some(&t));
                    v["ver"] = json!(m.version == VER);
                    v
                }
            },
            "nin" => match guard(|| leader.next_incoming()) {
                None => json!("panic"),
                Some(Err(_)) => json!("err"),
                Some(Ok(None)) => json!("none"),
                Some(Ok(Some(m))) => {
                    taken += 1;
                    json!({"r": "rec", "typ": tname(m.typ), "ver": m.version == VER, "pt": pt_out(r.get(taken - 1), &Some(m.payload.0))})
                }
            },
            "flush" => call!(leader.flush(), okay),
            "start" => call!(leader.start_traffic(), okay),
            "enable" => {
                leader.enable_decryption(op["b"] == true);
                json!("ok")
            }
            "state" => json!({"r": "state", "empty": leader.is_empty(), "dec": leader.is_decrypting()}),
            "close" => call!(leader.close_connection(), okay),
            "finish" => match guard(|| leader.finish()) {
                None => json!("panic"),
                Some(None) => json!("none"),
                Some(Some((_ctx, t))) => {
                    let (sent, recv) = recs(&srv, &t, &w, &r);
                    let meta = CERTS.with(|c| {
                        (t0..=now()).contains(&t.time())
                            && common(&t, &cr, &srv)
                            && t.server_signature().is_some_and(|s| s.alg == SignatureAlgorithm::ECDSA_NISTP256_SHA256)
                            && t.server_cert_chain().is_some_and(|x| x.iter().map(|c| &c.0).eq(c.chain.iter()))
                    });
                    json!({"r": "done", "meta": meta, "sent": sent, "recv": recv})
                }
            },
            // what the follower has to show
            "ftr" => match &run.done {
                None => json!("none"),
                Some(t) => {
                    let (sent, recv) = recs(&srv, t, &w, &r);
                    let meta = (t0..=now()).contains(&t.time()) && common(t, &cr, &srv) && t.server_signature().is_none() && t.server_cert_chain().is_none();
                    json!({"r": "done", "meta": meta, "sent": sent, "recv": recv})
                }
            },
            x => die(&format!("unknown op {x}")),
        };
        run.settle();
        e["out"] = json!({"l": if out.is_string() { json!({"r": out}) } else { out }, "f": run.status});
        evs.push(e);
    }
    evs
}
pub fn now() -> u64 {
    web_time::UNIX_EPOCH.elapsed().unwrap().as_secs()
}
pub fn common(t: &TlsTranscript, cr: &[u8; 32], s: &Server) -> bool {
    let CertBinding::V1_2(b) = t.certificate_binding() else { return false };
    t.version() == TlsVersion::V1_2
        && b.client_random == *cr
        && b.server_random == s.random
        && b.server_ephemeral_key.key == s.pk
        && format!("{:?}", b.server_ephemeral_key.typ) == "SECP256R1"
}

fn random(r: &mut Rng) -> Vec<Value> {
    let lim = |r: &mut Rng| *r.pick(&[16, 40, 64, 120]);
    let (a, b, c) = (lim(r), *r.pick(&[0, 16, 40, 64]), lim(r));
    let nr = r.range(3, 8);
    let ns = r.range(3, 8);
    let defer = r.chance(1, 2);
    let mut ops = vec![
        json!({"op": "new", "id": r.below(150), "ns": ns, "nr": nr, "ms": a, "mo": b.min(c), "mr": b.max(c), "defer": defer, "low": r.chance(1, 3)}),
        json!({"op": "alloc"}),
        json!({"op": "pre"}),
        json!({"op": "prep", "how": "good"}),
        json!({"op": "keys"}),
    ];
    if r.chance(9, 10) {
        for x in ["cf", "out", "flush", "nout", "in", "flush", "sf", "nin", "start"] {
            if r.chance(1, 12) {
                continue;
            }
            ops.push(match x {
                "out" => json!({"op": "out", "c": "fin", "h": 1, "n": 0}),
                "in" => json!({"op": "in", "c": "fin", "h": 2, "how": "ok", "n": 0}),
                "cf" => json!({"op": "cf", "h": 1, "short": false}),
                "sf" => json!({"op": "sf", "h": 2, "short": false}),
                x => json!({"op": x}),
            });
        }
    }
    let c = |r: &mut Rng| if r.chance(2, 3) { "data" } else { *r.pick(&["close", "warn", "fatal", "mal", "hid", "ccs", "other", "data"]) };
    for _ in 0..r.range(0, 14) {
        ops.push(match r.below(12) {
            0..=2 => json!({"op": "out", "c": c(r), "h": 1, "n": r.range(1, 30)}),
            3..=5 => json!({"op": "in", "c": c(r), "h": 2, "how": if r.chance(1, 15) { *r.pick(&["tag", "ct", "seq", "nonce", "short"]) } else { "ok" }, "n": r.range(1, 30)}),
            6 | 7 => json!({"op": "flush"}),
            8 => json!({"op": "nout"}),
            9 => json!({"op": "nin"}),
            10 => json!({"op": "enable", "b": r.chance(1, 2)}),
            _ => json!({"op": "state"}),
        });
    }
    if r.chance(3, 4) {
        ops.push(json!({"op": "out", "c": "close", "h": 1, "n": 0}));
        ops.push(json!({"op": "flush"}));
    }
    for x in ["close", "nin", "nin", "nin", "nin", "nout", "nout", "state", "flush", "finish", "ftr", "finish"] {
        ops.push(json!({"op": x}));
    }
    ops
}

/// sess SCENARIOS SEED NRANDOM OUT
pub fn main(a: &[String]) {
    super::duo::all(a, random, run)
}
