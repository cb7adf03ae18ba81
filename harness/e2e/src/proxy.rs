//! Proxied connections of provers which do not do what the library does.
use super::{live::{self, Sched, Srv}, util::*};
use crate::{
    Session,
    prover::{self, Prover},
    verifier::{self, Verifier, VerifierCommitStart},
};
use futures::{AsyncRead, AsyncWrite, future::poll_fn};
use rustls_pki_types::{CertificateDer, UnixTime};
use serde_json::{Value, json};
use std::{
    cell::{Cell, RefCell},
    io::{Read, Write},
    pin::Pin,
    rc::Rc,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};
use tlsn_core::{
    config::{prove::ProveConfig, prover::ProverConfig, tls_commit::proxy::ProxyTlsConfig, verifier::VerifierConfig},
    connection::{DnsName, ServerName},
};

#[derive(Debug)]
struct Any;
impl rustls::client::danger::ServerCertVerifier for Any {
    fn verify_server_cert(&self, _: &CertificateDer<'_>, _: &[CertificateDer<'_>], _: &rustls_pki_types::ServerName<'_>, _: &[u8], _: UnixTime)
        -> Result<rustls::client::danger::ServerCertVerified, rustls::Error> {
        Ok(rustls::client::danger::ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct)
        -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn verify_tls13_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct)
        -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        rustls::crypto::ring::default_provider().signature_verification_algorithms.supported_schemes()
    }
}
#[derive(Debug, Default)]
struct Log(Mutex<Vec<u8>>);
impl rustls::KeyLog for Log {
    fn log(&self, label: &str, _: &[u8], secret: &[u8]) {
        if label == "CLIENT_RANDOM" {
            *self.0.lock().unwrap() = secret.to_vec();
        }
    }
}
/// Where the rogue is; shared with whoever drives it.
struct Rogue {
    conn: rustls::ClientConnection,
    keys: Arc<Log>,
    /// What to do to which of its records.
    op: String,
    rec: Option<usize>,
    recs: usize,
    mute: bool,
    app: Vec<usize>,
    wrote: bool,
    /// plain bytes of the records on the wire
    plain: Vec<u8>,
    alert: bool,
    stop: bool,
    ended: bool,
    out: Vec<u8>,
    raw: Vec<u8>,
    sent: Vec<u8>,
    recv: Vec<u8>,
    got: Vec<u8>,
    broke: bool,
    rng: Rng,
}
fn frame(typ: u8, n: usize, body: &[u8]) -> Vec<u8> {
    let mut b = vec![typ, 3, 3, (n >> 8) as u8, n as u8];
    b.extend(body);
    b
}
impl Rogue {
    fn queue(&mut self) {
        let _ = self.conn.process_new_packets().map_err(|_| self.broke = true);
        let _ = self.conn.reader().read_to_end(&mut self.got);
        if !self.conn.is_handshaking() && !self.broke {
            if !std::mem::replace(&mut self.wrote, true) {
                let _ = self.conn.write_tls(&mut self.raw);
                for (i, n) in self.app.iter().enumerate() {
                    let _ = self.conn.writer().write_all(&live::data(7 * i, *n));
                    while self.conn.wants_write() {
                        let _ = self.conn.write_tls(&mut self.raw);
                    }
                }
            }
            if self.stop && self.alert && !self.ended {
                self.conn.send_close_notify();
            }
        }
        while self.conn.wants_write() {
            let _ = self.conn.write_tls(&mut self.raw);
        }
        while self.raw.len() >= 5 {
            let n = 5 + u16::from_be_bytes([self.raw[3], self.raw[4]]) as usize;
            let mut r: Vec<u8> = self.raw.drain(..n).collect();
            if self.mute {
                continue;
            }
            let k = self.recs;
            self.recs += 1;
            // its plain bytes, if it is application data
            let own: Vec<u8> = match k.checked_sub(4) {
                Some(i) if r[0] == 23 => live::data(7 * i, self.app[i]),
                _ => vec![],
            };
            if self.rec != Some(k) {
                self.out.extend(&r);
                self.plain.extend(&own);
                if k > 0 && self.op == "drop" && self.rec == Some(k - 1) {
                    self.mute = true;
                }
                continue;
            }
            let mut junk = |r: &mut Self, typ: u8, n: usize| {
                let b = r.rng.bytes(n);
                r.out.extend(frame(typ, n, &b));
                if typ == 23 && n >= 24 {
                    r.plain.extend(vec![0; n - 24]);
                }
            };
            self.mute = self.op != "drop";
            match self.op.as_str() {
                "flip" => {
                    let l = r.len();
                    r[l - 1] ^= 1;
                    self.out.extend(&r);
                    self.plain.extend(&own);
                }
                "dup" => {
                    for _ in 0..2 {
                        self.out.extend(&r);
                        self.plain.extend(&own);
                    }
                }
                "drop" => {}
                "stop" => {
                    self.out.extend(&r);
                    self.plain.extend(&own);
                }
                "half" => self.out.extend(&r[..r.len() / 2]),
                "ccs" => self.out.extend(frame(20, 1, &[1])),
                "short" => junk(self, 23, 10),
                "bare" => junk(self, 23, 24),
                "app" => junk(self, 23, 50),
                "hs" => junk(self, 22, 40),
                "type" => junk(self, 99, 40),
                "huge" => {
                    let b = self.rng.bytes(60);
                    self.out.extend(frame(23, 0x4900, &b));
                }
                "noise" => {
                    let b = self.rng.bytes(64);
                    self.out.extend([0]);
                    self.out.extend(b);
                }
                x => die(&format!("op {x}")),
            }
        }
    }
    /// True when the connection is over.
    fn poll(&mut self, s: &mut (impl AsyncRead + AsyncWrite + Unpin), cx: &mut Context<'_>) -> bool {
        loop {
            self.queue();
            let mut moved = false;
            while !self.out.is_empty() {
                match Pin::new(&mut *s).poll_write(cx, &self.out) {
                    Poll::Ready(Ok(n)) => {
                        let x: Vec<u8> = self.out.drain(..n).collect();
                        self.sent.extend(x);
                        moved = true;
                    }
                    Poll::Ready(Err(_)) => return true,
                    Poll::Pending => break,
                }
            }
            let _ = Pin::new(&mut *s).poll_flush(cx);
            if self.stop && self.out.is_empty() && !self.ended {
                if Pin::new(&mut *s).poll_close(cx).is_ready() {
                    self.ended = true;
                }
            }
            let mut b = [0; 4096];
            match Pin::new(&mut *s).poll_read(cx, &mut b) {
                Poll::Ready(Ok(0)) | Poll::Ready(Err(_)) => {
                    if !self.ended {
                        self.stop = true;
                        self.alert = false;
                        if self.out.is_empty() && Pin::new(&mut *s).poll_close(cx).is_ready() {
                            self.ended = true;
                        }
                    }
                    return self.ended;
                }
                Poll::Ready(Ok(n)) => {
                    self.recv.extend(&b[..n]);
                    let mut p = &b[..n];
                    while !p.is_empty() && !self.broke {
                        if self.conn.read_tls(&mut p).is_err() {
                            self.broke = true;
                        }
                        self.queue();
                    }
                    moved = true;
                }
                Poll::Pending => {}
            }
            if !moved {
                return false;
            }
        }
    }
}
fn client(suites: &str) -> (rustls::ClientConfig, Arc<Log>) {
    use rustls::crypto::ring as r;
    let mut prov = r::default_provider();
    let mut vers = vec![&rustls::version::TLS12];
    prov.kx_groups = vec![r::kx_group::SECP256R1];
    prov.cipher_suites = vec![r::cipher_suite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256];
    match suites {
        "ok" | "resumed" => {}
        "aes256" => prov.cipher_suites = vec![r::cipher_suite::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384],
        "chacha" => prov.cipher_suites = vec![r::cipher_suite::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256],
        "group" => prov.kx_groups = vec![r::kx_group::X25519],
        "p384" => prov.kx_groups = vec![r::kx_group::SECP384R1],
        "tls13" => {
            vers = vec![&rustls::version::TLS13];
            prov.cipher_suites = vec![r::cipher_suite::TLS13_AES_128_GCM_SHA256];
        }
        _ => die("suites"),
    }
    let mut c = rustls::ClientConfig::builder_with_provider(Arc::new(prov))
        .with_protocol_versions(&vers)
        .unwrap()
        .dangerous()
        .with_custom_certificate_verifier(Arc::new(Any))
        .with_no_client_auth();
    let l = Arc::new(Log::default());
    c.key_log = l.clone();
    if suites != "resumed" {
        c.resumption = rustls::client::Resumption::disabled();
    }
    (c, l)
}
/// A handshake and nothing more, in memory.
fn handshake(c: &mut rustls::ClientConnection, s: &mut rustls::ServerConnection) {
    for _ in 0..6 {
        let mut b = vec![];
        while c.wants_write() {
            let _ = c.write_tls(&mut b);
        }
        let mut p = &b[..];
        while !p.is_empty() {
            s.read_tls(&mut p).unwrap();
            s.process_new_packets().unwrap_or_else(|_| die("handshake"));
        }
        let mut b = vec![];
        while s.wants_write() {
            let _ = s.write_tls(&mut b);
        }
        let mut p = &b[..];
        while !p.is_empty() {
            c.read_tls(&mut p).unwrap();
            c.process_new_packets().unwrap_or_else(|_| die("handshake"));
        }
    }
}
type PRes<T> = Result<T, crate::Error>;
fn word(e: &crate::Error) -> &'static str {
    if std::env::var("SHOW").is_ok() {
        eprintln!("{e:?}");
    }
    "err"
}
fn records(mut b: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut v = vec![];
    while b.len() >= 5 {
        let n = 5 + u16::from_be_bytes([b[3], b[4]]) as usize;
        if b.len() < n {
            break;
        }
        v.push((b[0], b[5..n].to_vec()));
        b = &b[n..];
    }
    v
}
/// Bytes of application data in these records.
fn app_len(b: &[u8]) -> usize {
    let r = records(b);
    let c = r.iter().position(|r| r.0 == 20).unwrap_or(r.len());
    r[c..].iter().filter(|r| r.0 == 23).map(|r| r.1.len().saturating_sub(24)).sum()
}
fn run(evs: &[Value]) -> Vec<Value> {
    let mut e = evs[0].clone();
    e["out"] = go(&e);
    vec![e]
}
fn go(o: &Value) -> Value {
    let seed = u(o, "seed") as u64;
    let st = |k: &str| o[k].as_str().unwrap_or_else(|| die(k)).to_string();
    let mut s = Sched { tasks: vec![], rng: Rng::new(seed * 7919 + 13), polls: 0 };
    let mut calm = true;
    let (a, b) = futures_plex::duplex(1 << 20);
    let (mut sp, mut sv) = (Session::new(a), Session::new(b));
    let prover = sp.new_prover(ProverConfig::builder().build().unwrap()).unwrap();
    let verifier = sv.new_verifier(VerifierConfig::builder().root_store(live::roots()).build().unwrap()).unwrap();
    let ((dp, hp), (dv, hv)) = (sp.split(), sv.split());
    let _d = [s.spawn(dp), s.spawn(dv)];
    // the server
    let srv = Rc::new(RefCell::new(Srv::new(&st("chain"), "ok")));
    let (cfg, keys) = client(&st("suites"));
    let cfg = Arc::new(cfg);
    let name = rustls_pki_types::ServerName::try_from("server.io").unwrap();
    let conn = || rustls::ClientConnection::new(cfg.clone(), name.clone()).unwrap();
    if st("suites") == "resumed" {
        let mut x = srv.borrow_mut();
        let next = x.again();
        let mut first = x.conn.replace(next).unwrap();
        handshake(&mut conn(), &mut first);
    }
    {
        let mut x = srv.borrow_mut();
        let n = |k: &str| o[k].as_i64().and_then(|n| usize::try_from(n).ok());
        x.cut = n("cut");
        x.flip = n("flip");
    }
    let (near, far) = futures_plex::duplex(1 << 20);
    srv.borrow_mut().sock = Some(far);
    let x = srv.clone();
    s.spawn(poll_fn(move |cx| {
        x.borrow_mut().poll(cx);
        Poll::<()>::Pending
    }));
    // the verifier is honest
    let v = s.spawn(async move {
        match verifier.commit().await? {
            VerifierCommitStart::Proxy(v) => v.accept().await?.run(near).await,
            _ => Err(crate::Error::internal()),
        }
    });
    // the prover is not
    let dns = DnsName::try_from("server.io").unwrap();
    let rogue = Rc::new(RefCell::new(Rogue {
        conn: conn(), keys, op: st("op"), rec: o["rec"].as_i64().and_then(|n| usize::try_from(n).ok()), recs: 0, mute: false,
        app: o["app"].as_array().unwrap().iter().map(|n| n.as_u64().unwrap() as usize).collect(), wrote: false, plain: vec![], alert: st("end") == "alert",
        stop: false, ended: false, out: vec![], raw: vec![], sent: vec![], recv: vec![], got: vec![], broke: false, rng: Rng::new(seed + 99),
    }));
    let (r, oo) = (rogue.clone(), o.clone());
    let over = Rc::new(Cell::new(false));
    let ov = over.clone();
    let p = s.spawn(async move {
        let p = prover.commit(ProxyTlsConfig::builder().server_name(dns.clone()).build().unwrap()).await?;
        let (prover, mut sock, mux) = prover::harness::open(p);
        poll_fn(|cx| if r.borrow_mut().poll(&mut sock, cx) { Poll::Ready(()) } else { Poll::Pending }).await;
        ov.set(true);
        drop(sock);
        {
            // what did not go out does not count
            let mut x = r.borrow_mut();
            let n = app_len(&x.sent);
            x.plain.truncate(n);
        }
        let (mut ms, mut view) = {
            let x = r.borrow();
            let ms = x.keys.0.lock().unwrap().clone();
            (if ms.is_empty() { vec![1; 48] } else { ms }, [x.sent.clone(), x.recv.clone(), x.plain.clone(), {
                // what it could not decrypt it makes up
                let n = app_len(&x.recv);
                let mut g = x.got.clone();
                g.resize(n.max(g.len()), 0);
                g
            }])
        };
        match oo["ms"].as_str().unwrap() {
            "right" => {}
            "bit" => ms[u(&oo, "seed") % 48] ^= 1 << (u(&oo, "seed") / 48 % 8),
            "zero" => ms = vec![0; 48],
            "short" => ms = vec![0; 47],
            _ => die("ms"),
        }
        let long = view[0].len() > 50 && view[1].len() > 50;
        match oo["view"].as_str().unwrap() {
            _ if !long => {}
            "same" => {}
            // client random, server random, the tag of the last record received
            "cr" => view[0][5 + 4 + 2 + u(&oo, "seed") % 32] ^= 1,
            "sr" => view[1][5 + 4 + 2 + u(&oo, "seed") % 32] ^= 1,
            "tag" => {
                let n = view[1].len();
                view[1][n - 1] ^= 1
            }
            // one byte of a sent application record
            "data" => {
                let n = view[0].len();
                view[0][n - 17] ^= 1
            }
            _ => die("view"),
        }
        prover::harness::finish(prover, mux, ms, view, ServerName::Dns(dns)).await
    });
    calm &= s.settle();
    // the server answers, and is closed
    {
        let mut x = srv.borrow_mut();
        for n in o["resp"].as_array().unwrap() {
            let d = live::data(100 + x.sent.len(), n.as_u64().unwrap() as usize);
            if !x.gone && !x.failed && x.conn.as_ref().is_some_and(|c| !c.is_handshaking()) {
                let _ = x.conn.as_mut().unwrap().writer().write_all(&d);
                x.sent.extend(&d);
                x.kick();
            }
        }
        if o["bye"] == true && x.conn.as_ref().is_some_and(|c| !c.is_handshaking()) && !x.gone {
            x.conn.as_mut().unwrap().send_close_notify();
            x.kick();
        }
    }
    calm &= s.settle();
    rogue.borrow_mut().stop = true;
    s.poke();
    calm &= s.settle();
    let passed = over.get();
    // whoever waits for the other one is told that it left
    if !(p.done() && v.done()) {
        hp.close();
        hv.close();
        s.poke();
        calm &= s.settle();
    }
    let pr: Option<PRes<Prover<prover::state::Committed>>> = p.take();
    let vr: Option<PRes<Verifier<verifier::state::Committed>>> = v.take();
    let how = |panic: bool, r: Option<&'static str>| if panic { "panic" } else { r.unwrap_or("waits") };
    let pw = how(p.panicked(), pr.as_ref().map(|r| match r { Ok(_) => "done", Err(e) => word(e) }));
    let vw = how(v.panicked(), vr.as_ref().map(|r| match r { Ok(_) => "done", Err(e) => word(e) }));
    let mut out = json!({"p": pw, "v": vw, "calm": calm, "over": passed, "sent": [], "recv": [], "same": true, "shown": "none"});
    let Some(Ok(v)) = vr else { return out };
    // what the verifier holds is what passed
    let t = v.tls_transcript();
    {
        let x = rogue.borrow();
        let wire = |b: &[u8]| -> Vec<(u8, Vec<u8>)> {
            let r = records(b);
            let c = r.iter().position(|r| r.0 == 20).map_or(r.len(), |c| c + 1);
            r[c..].to_vec()
        };
        let kind = |t: tlsn_core::transcript::ContentType| tls_core::msgs::enums::ContentType::from(t).get_u8() as u64;
        let recs = |l: &[tlsn_core::transcript::Record]| -> Value { l.iter().map(|r| json!([kind(r.typ), r.ciphertext.len()])).collect() };
        let same = |l: &[tlsn_core::transcript::Record], w: Vec<(u8, Vec<u8>)>| {
            l.len() == w.len() && l.iter().zip(&w).enumerate().all(|(i, (r, w))| {
                r.seq == i as u64 && kind(r.typ) == w.0 as u64 && [&r.explicit_nonce[..], &r.ciphertext, r.tag.as_deref().unwrap_or(&[])].concat() == w.1
            })
        };
        out["sent"] = recs(t.sent());
        out["recv"] = recs(t.recv());
        out["same"] = json!(same(t.sent(), wire(&x.sent)) && same(t.recv(), wire(&x.recv)));
    }
    let Some(Ok(mut p)) = pr else { return out };
    // and takes part of it only from the server it is of
    let tr = p.transcript().clone();
    let mut b = ProveConfig::builder(&tr);
    b.server_identity();
    b.reveal_sent_all().unwrap();
    b.reveal_recv_all().unwrap();
    let c = b.build().unwrap();
    let q = s.spawn(async move { p.prove(&c).await.map(|_| ()) });
    let w = s.spawn(async move { v.verify().await?.accept().await.map(|x| x.0) });
    out["calm"] = json!(calm & s.settle());
    out["shown"] = json!(match (q.panicked() || w.panicked(), w.take()) {
        (true, _) => "panic",
        (_, None) => "waits",
        (_, Some(Err(e))) => {
            word(&e);
            "refused"
        }
        (_, Some(Ok(o))) => {
            let x = rogue.borrow();
            let t = o.transcript.unwrap();
            if t.sent_unsafe() == x.plain && t.received_unsafe() == x.got && o.server_name.is_some() { "accepted" } else { "odd" }
        }
    });
    out
}
pub fn main(a: &[String]) {
    super::duo::all(a, random, run)
}
fn random(r: &mut Rng) -> Vec<Value> {
    let pick = |r: &mut Rng, q: &[&str]| q[r.below(q.len())].to_string();
    let lens = |r: &mut Rng, n: usize| (0..r.below(n)).map(|_| [1, 15, 16, 17, 100, 1000][r.below(6)]).collect::<Vec<usize>>();
    let mut o = json!({"ev": "new", "seed": r.below(1 << 30), "chain": "ok", "suites": "ok", "op": "none", "rec": -1, "app": lens(r, 5), "resp": lens(r, 4),
        "bye": r.below(2) == 0, "end": pick(r, &["alert", "eof"]), "ms": "right", "view": "same", "cut": -1, "flip": -1});
    for _ in 0..1 + r.below(2) {
        match r.below(8) {
            0 => o["chain"] = json!(pick(r, &["name", "root", "old"])),
            1 => o["suites"] = json!(pick(r, &["aes256", "chacha", "group", "p384", "tls13", "resumed"])),
            2 | 3 => {
                o["op"] = json!(pick(r, &["flip", "dup", "drop", "stop", "half", "ccs", "short", "bare", "app", "hs", "type", "huge", "noise"]));
                o["rec"] = json!(r.below(9));
            }
            4 => o["ms"] = json!(pick(r, &["bit", "zero", "short"])),
            5 => o["view"] = json!(pick(r, &["cr", "sr", "tag", "data"])),
            6 => o["cut"] = json!(r.below(9)),
            _ => o["flip"] = json!(r.below(9)),
        }
    }
    vec![o]
}
