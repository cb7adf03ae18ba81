//! Whole sessions: a prover and a verifier connected to each other, an application using the
//! connection and a server at the end of it, all polled in random order.
use super::{certs::Keys, util::*};
use crate::{
    Mpc, Proxy, Session, SessionHandle,
    config::tls::TlsClientConfig,
    prover::{self, Prover, ProverControl, TlsConnection},
    verifier::{self, Verifier, VerifierCommitStart, VerifierOutput},
};
use futures::{AsyncRead, AsyncWrite, future::poll_fn};
use futures_plex::DuplexStream;
use serde_json::{Value, json};
use std::{
    cell::{Cell, RefCell},
    future::{Future, IntoFuture},
    io::{Read, Write},
    pin::Pin,
    rc::Rc,
    sync::{Arc, OnceLock, atomic::{AtomicBool, Ordering}},
    task::{Context, Poll, Wake, Waker},
};
use tlsn_core::{
    config::{
        prove::ProveConfig,
        prover::ProverConfig,
        tls_commit::{mpc::MpcTlsConfig, proxy::ProxyTlsConfig},
        verifier::VerifierConfig,
    },
    connection::{DnsName, ServerName},
    transcript::{Transcript, TlsTranscript},
    webpki::{CertificateDer, RootCertStore},
};

const DOMAIN: &str = "server.io";

// ---- the parties of a run, polled in random order ----
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
type Fut = Pin<Box<dyn Future<Output = ()>>>;
pub struct Task {
    fut: Option<Fut>,
    flag: Arc<Flag>,
    dead: Rc<Cell<bool>>,
}
pub struct Sched {
    pub tasks: Vec<Task>,
    pub rng: Rng,
    pub polls: usize,
}
/// What a task comes to.
pub struct Slot<T>(Rc<RefCell<Option<T>>>, Rc<Cell<bool>>);
impl<T> Slot<T> {
    pub fn take(&self) -> Option<T> {
        self.0.borrow_mut().take()
    }
    pub fn done(&self) -> bool {
        self.0.borrow().is_some() || self.1.get()
    }
    pub fn panicked(&self) -> bool {
        self.1.get()
    }
}
impl Sched {
    pub fn spawn<T: 'static>(&mut self, f: impl Future<Output = T> + 'static) -> Slot<T> {
        let slot = Rc::new(RefCell::new(None));
        let s = slot.clone();
        let dead = Rc::new(Cell::new(false));
        self.tasks.push(Task {
            fut: Some(Box::pin(async move {
                let x = f.await;
                *s.borrow_mut() = Some(x);
            })),
            flag: Arc::new(Flag(AtomicBool::new(true))),
            dead: dead.clone(),
        });
        Slot(slot, dead)
    }
    pub fn poke(&self) {
        for t in &self.tasks {
            t.flag.0.store(true, Ordering::SeqCst);
        }
    }
    /// Runs until nobody has anything to do; false if that does not come.
    pub fn settle(&mut self) -> bool {
        let mut n = 0;
        loop {
            let woken: Vec<usize> = (0..self.tasks.len())
                .filter(|&i| self.tasks[i].fut.is_some() && self.tasks[i].flag.0.load(Ordering::SeqCst))
                .collect();
            if woken.is_empty() {
                return true;
            }
            n += 1;
            self.polls += 1;
            if n > 20_000 {
                return false;
            }
            let i = woken[self.rng.below(woken.len())];
            let t = &mut self.tasks[i];
            t.flag.0.store(false, Ordering::SeqCst);
            let w: Waker = t.flag.clone().into();
            let mut cx = Context::from_waker(&w);
            match guard(|| t.fut.as_mut().unwrap().as_mut().poll(&mut cx)) {
                None => {
                    t.dead.set(true);
                    let f = t.fut.take();
                    let _ = guard(|| drop(f));
                }
                Some(Poll::Ready(())) => t.fut = None,
                Some(Poll::Pending) => {}
            }
        }
    }
}

// ---- the server ----
struct Pki {
    root: Vec<u8>,
    chains: Vec<(&'static str, Vec<u8>)>,
    key: Vec<u8>,
}
fn pki() -> &'static Pki {
    static P: OnceLock<Pki> = OnceLock::new();
    P.get_or_init(|| {
        let k = Keys::new();
        let mk = |subj: u64, iss: u64, ca: &str, name: &str, na: i64| {
            let names: Value = if name.is_empty() { json!([]) } else { json!([name.split('.').collect::<Vec<_>>()]) };
            k.cert(&json!({"subj": subj, "key": subj, "iss": iss, "by": iss, "ca": ca, "pl": -1, "eku": if ca == "yes" {"none"} else {"server"},
                "names": names, "nb": 0, "na": na, "good": true, "der": "ok"}))
        };
        const FAR: i64 = 1_500_000_000;
        Pki {
            root: mk(1, 1, "yes", "", FAR),
            chains: vec![("ok", mk(9, 1, "no", DOMAIN, FAR)), ("name", mk(9, 1, "no", "other.io", FAR)), ("root", mk(9, 2, "no", DOMAIN, FAR)), ("old", mk(9, 1, "no", DOMAIN, 5))],
            key: k.pkcs8(9),
        }
    })
}
pub fn roots() -> RootCertStore {
    RootCertStore { roots: vec![CertificateDer(pki().root.clone())] }
}
#[derive(Default)]
pub struct Srv {
    cfg: Option<Arc<rustls::ServerConfig>>,
    pub conn: Option<rustls::ServerConnection>,
    pub sock: Option<DuplexStream>,
    /// Bytes on their way out, and records sent
    pub out: Vec<u8>,
    pub raw: Vec<u8>,
    pub recs: usize,
    /// Goes away after so many records.
    pub cut: Option<usize>,
    pub flip: Option<usize>,
    /// Holds what comes back.
    pub got: Vec<u8>,
    pub sent: Vec<u8>,
    pub notified: bool,
    pub eof: bool,
    pub failed: bool,
    pub gone: bool,
    pub closing: bool,
    pub bye: bool,
    pub waker: Option<Waker>,
}
impl Srv {
    pub fn new(chain: &str, suites: &str) -> Self {
        use rustls::crypto::ring as r;
        let p = pki();
        let der = p.chains.iter().find(|c| c.0 == chain).unwrap_or_else(|| die("chain")).1.clone();
        let mut prov = r::default_provider();
        let mut vers = vec![&rustls::version::TLS12];
        match suites {
            "ok" => {}
            "tls13" => vers = vec![&rustls::version::TLS13],
            "group" => prov.kx_groups = vec![r::kx_group::X25519],
            "suite" => prov.cipher_suites = vec![r::cipher_suite::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384],
            _ => die("suites"),
        }
        let cfg = rustls::ServerConfig::builder_with_provider(Arc::new(prov))
            .with_protocol_versions(&vers)
            .unwrap()
            .with_no_client_auth()
            .with_single_cert(vec![der.into()], rustls_pki_types::PrivateKeyDer::Pkcs8(p.key.clone().into()))
            .unwrap_or_else(|e| die(&format!("server: {e}")));
        let cfg = Arc::new(cfg);
        Srv { conn: Some(rustls::ServerConnection::new(cfg.clone()).unwrap()), cfg: Some(cfg), ..Default::default() }
    }
    /// The same server's next connection.
    pub fn again(&self) -> rustls::ServerConnection {
        rustls::ServerConnection::new(self.cfg.clone().unwrap()).unwrap()
    }
    fn go(&mut self) {
        self.gone = true;
        self.sock = None;
    }
    pub fn kick(&mut self) {
        if let Some(w) = self.waker.take() {
            w.wake()
        }
    }
    pub fn poll(&mut self, cx: &mut Context<'_>) {
        self.waker = Some(cx.waker().clone());
        loop {
            let Some(sock) = &mut self.sock else { return };
            let mut b = [0; 4096];
            let conn = self.conn.as_mut().unwrap();
            let mut moved = false;
            if !self.eof {
                match Pin::new(&mut *sock).poll_read(cx, &mut b) {
                    Poll::Ready(Ok(0)) | Poll::Ready(Err(_)) => self.eof = true,
                    Poll::Ready(Ok(n)) => {
                        moved = true;
                        let mut part = &b[..n];
                        while !part.is_empty() && !self.failed {
                            if conn.read_tls(&mut part).is_err() {
                                self.failed = true;
                            }
                            match conn.process_new_packets() {
                                Ok(s) => self.notified |= s.peer_has_closed(),
                                Err(_) => self.failed = true,
                            }
                            let mut x = vec![];
                            let _ = conn.reader().read_to_end(&mut x);
                            self.got.extend(x);
                        }
                    }
                    Poll::Pending => {}
                }
            }
            let mut x = vec![];
            while conn.wants_write() {
                let _ = conn.write_tls(&mut x);
            }
            self.raw.extend(x);
            while self.raw.len() >= 5 {
                let n = 5 + u16::from_be_bytes([self.raw[3], self.raw[4]]) as usize;
                if self.cut == Some(self.recs) {
                    self.closing = true;
                    self.raw.clear();
                    break;
                }
                let mut rec: Vec<u8> = self.raw.drain(..n).collect();
                if self.flip == Some(self.recs) {
                    rec[if self.recs < 5 { 5 } else { n - 1 }] ^= 1;
                }
                self.recs += 1;
                self.out.extend(rec);
            }
            if self.cut == Some(self.recs) {
                self.closing = true;
            }
            while !self.out.is_empty() {
                match Pin::new(&mut *sock).poll_write(cx, &self.out) {
                    Poll::Ready(Ok(n)) => {
                        self.out.drain(..n);
                        moved = true
                    }
                    Poll::Ready(Err(_)) => self.out.clear(),
                    Poll::Pending => break,
                }
            }
            self.closing |= self.eof || self.failed;
            if self.closing && self.out.is_empty() {
                self.go();
                return;
            }
            if !moved {
                return;
            }
        }
    }
}

// ---- a run ----
enum Acc {
    Mpc(Prover<prover::state::CommitAccepted<Mpc>>),
    Proxy(Prover<prover::state::CommitAccepted<Proxy>>),
}
type PRes<T> = Result<T, crate::Error>;
#[derive(Default)]
struct App {
    conn: Option<TlsConnection>,
    got: Vec<u8>,
    eof: bool,
    err: bool,
    pend: Vec<u8>,
    wrote: Vec<u8>,
    broke: bool,
    close: bool,
    closed: bool,
    waker: Option<Waker>,
}
impl App {
    fn poll(&mut self, cx: &mut Context<'_>) {
        self.waker = Some(cx.waker().clone());
        let Some(c) = &mut self.conn else { return };
        while !self.pend.is_empty() && !self.broke {
            match Pin::new(&mut *c).poll_write(cx, &self.pend) {
                Poll::Ready(Ok(n)) => {
                    self.wrote.extend(self.pend.drain(..n));
                }
                Poll::Ready(Err(_)) => self.broke = true,
                Poll::Pending => break,
            }
        }
        if self.close && !self.closed {
            if let Poll::Ready(_) = Pin::new(&mut *c).poll_close(cx) {
                self.closed = true;
            }
        }
        while !self.eof && !self.err {
            let mut b = [0; 777];
            match Pin::new(&mut *c).poll_read(cx, &mut b) {
                Poll::Ready(Ok(0)) => self.eof = true,
                Poll::Ready(Ok(n)) => self.got.extend_from_slice(&b[..n]),
                Poll::Ready(Err(_)) => self.err = true,
                Poll::Pending => break,
            }
        }
    }
    fn kick(&mut self) {
        if let Some(w) = self.waker.take() {
            w.wake()
        }
    }
}
fn kind(e: &crate::Error) -> &'static str {
    if std::env::var("SHOW").is_ok() {
        eprintln!("{e:?}");
    }
    if e.is_user() { "user" } else if e.is_io() { "io" } else if e.is_config() { "config" } else { "err" }
}
/// Where a party is: what it waits for, or how it ended.
macro_rules! step {
    ($st:expr, $slot:expr, $x:pat => $do:expr) => {
        if let Some(s) = &$slot {
            if s.panicked() {
                $st = "panic";
                $slot = None;
            } else if let Some(r) = s.take() {
                $slot = None;
                match r {
                    Ok($x) => $do,
                    Err(e) => $st = kind(&e),
                }
            }
        }
    };
}
struct Run {
    s: Sched,
    proxy: bool,
    handles: [Option<SessionHandle>; 2],
    drivers: [Option<Slot<PRes<DuplexStream>>>; 2],
    srv: Rc<RefCell<Srv>>,
    app: Rc<RefCell<App>>,
    p: &'static str,
    v: &'static str,
    d: [&'static str; 2],
    calm: bool,
    sv_sock: Option<DuplexStream>,
    control: Option<ProverControl>,
    p_commit: Option<Slot<PRes<Acc>>>,
    p_acc: Option<Acc>,
    p_rogue: Option<Slot<PRes<()>>>,
    p_run: Option<Slot<PRes<Prover<prover::state::Committed>>>>,
    p_done: Option<Prover<prover::state::Committed>>,
    p_prove: Option<Slot<PRes<Prover<prover::state::Committed>>>>,
    v_start: Option<Slot<PRes<VerifierCommitStart>>>,
    v_asked: Option<VerifierCommitStart>,
    v_rej: Option<Slot<PRes<()>>>,
    v_run: Option<Slot<PRes<Verifier<verifier::state::Committed>>>>,
    v_done: Option<Verifier<verifier::state::Committed>>,
    v_verify: Option<Slot<PRes<(Option<VerifierOutput>, Verifier<verifier::state::Committed>)>>>,
    out: Option<VerifierOutput>,
    ptrans: Option<Transcript>,
    aborts: Rc<Cell<[bool; 2]>>,
}
pub fn data(salt: usize, n: usize) -> Vec<u8> {
    (0..n).map(|i| (salt * 37 + i * 11 + i / 256 + 1) as u8).collect()
}
fn lost<T>() -> PRes<T> {
    Err(crate::Error::io())
}
/// A task that is dropped when its party goes.
async fn until<T>(gone: Rc<Cell<[bool; 2]>>, k: usize, f: impl Future<Output = T>) -> Option<T> {
    let mut f = Some(Box::pin(f));
    poll_fn(move |cx| {
        if gone.get()[k] {
            f = None;
            return Poll::Ready(None);
        }
        f.as_mut().unwrap().as_mut().poll(cx).map(Some)
    })
    .await
}
impl Run {
    fn new(o: &Value) -> Self {
        let seed = o["seed"].as_u64().unwrap_or(1);
        let mut s = Sched { tasks: vec![], rng: Rng::new(seed * 7919 + 13), polls: 0 };
        let (a, b) = futures_plex::duplex(1 << 20);
        let (mut sp, mut sv) = (Session::new(a), Session::new(b));
        let prover = sp.new_prover(ProverConfig::builder().build().unwrap()).unwrap();
        let verifier = sv.new_verifier(VerifierConfig::builder().root_store(roots()).build().unwrap()).unwrap();
        let ((dp, hp), (dv, hv)) = (sp.split(), sv.split());
        let aborts: Rc<Cell<[bool; 2]>> = Default::default();
        let drive = |k: usize, d: crate::SessionDriver<DuplexStream>| {
            let g = aborts.clone();
            async move { until(g, k, d).await.unwrap_or_else(|| Err(crate::Error::io())) }
        };
        let drivers = [Some(s.spawn(drive(0, dp))), Some(s.spawn(drive(1, dv)))];
        let proxy = o["mode"] == "proxy";
        let srv = Rc::new(RefCell::new(Srv::new(o["chain"].as_str().unwrap(), o["suites"].as_str().unwrap())));
        {
            let mut x = srv.borrow_mut();
            let n = |k: &str| o[k].as_i64().and_then(|n| usize::try_from(n).ok());
            x.cut = n("cut");
            x.flip = n("flip");
        }
        let (near, far) = futures_plex::duplex(1 << 20);
        srv.borrow_mut().sock = Some(far);
        let app: Rc<RefCell<App>> = Default::default();
        let (x, y) = (srv.clone(), app.clone());
        s.spawn(poll_fn(move |cx| {
            x.borrow_mut().poll(cx);
            Poll::<()>::Pending
        }));
        s.spawn(poll_fn(move |cx| {
            y.borrow_mut().poll(cx);
            Poll::<()>::Pending
        }));
        let mut r = Run {
            s, proxy, handles: [Some(hp), Some(hv)], drivers, srv, app, p: "asks", v: "waits", d: ["run", "run"], calm: true, sv_sock: Some(near), control: None,
            p_commit: None, p_acc: None, p_rogue: None, p_run: None, p_done: None, p_prove: None, v_start: None, v_asked: None, v_rej: None, v_run: None,
            v_done: None, v_verify: None, out: None, ptrans: None, aborts,
        };
        let w = verifier.commit();
        let g = r.aborts.clone();
        r.v_start = Some(r.s.spawn(async move { until(g, 1, w).await.unwrap_or_else(|| Err(crate::Error::io())) }));
        let g = r.aborts.clone();
        let name = DnsName::try_from(DOMAIN).unwrap();
        let l = &o["lim"];
        let mpc = || {
            MpcTlsConfig::builder()
                .max_sent_data(u(l, "sent"))
                .max_recv_data(u(l, "recv"))
                .max_recv_data_online(u(l, "online"))
                .max_sent_records(16)
                .max_recv_records_online(16)
                .defer_decryption_from_start(o["defer"] == true)
                .build()
                .unwrap_or_else(|_| die("config"))
        };
        let pc = ProxyTlsConfig::builder().server_name(name).build().unwrap();
        if o["version"] == "other" {
            let c = if proxy { pc.into() } else { mpc().into() };
            let f = prover::harness::ask(prover, c, "9.9.9");
            r.p_rogue = Some(r.s.spawn(async move { until(g, 0, f).await.unwrap_or_else(|| Err(crate::Error::io())) }));
        } else if proxy {
            let f = prover.commit(pc);
            r.p_commit = Some(r.s.spawn(async move { until(g, 0, f).await.unwrap_or_else(|| Err(crate::Error::io())).map(Acc::Proxy) }));
        } else {
            let f = prover.commit(mpc());
            r.p_commit = Some(r.s.spawn(async move { until(g, 0, f).await.unwrap_or_else(|| Err(crate::Error::io())).map(Acc::Mpc) }));
        }
        r
    }
    fn settle(&mut self) {
        let _ = &self.control;
        self.calm &= self.s.settle();
        step!(self.p, self.p_commit, a => { self.p_acc = Some(a); self.p = "accepted" });
        step!(self.p, self.p_rogue, _ => self.p = "unexpected");
        step!(self.p, self.p_run, a => { self.p_done = Some(a); self.p = "done" });
        step!(self.p, self.p_prove, a => { self.p_done = Some(a); self.p = "done" });
        step!(self.v, self.v_start, a => { self.v_asked = Some(a); self.v = "asked" });
        step!(self.v, self.v_rej, _ => self.v = "rejected");
        step!(self.v, self.v_run, a => { self.v_done = Some(a); self.v = "done" });
        step!(self.v, self.v_verify, (o, v) => { self.out = o; self.v_done = Some(v); self.v = "done" });
        for k in 0..2 {
            step!(self.d[k], self.drivers[k], _ => self.d[k] = "closed");
        }
    }
    fn see(&self) -> Value {
        let (a, s) = (self.app.borrow(), self.srv.borrow());
        json!({"p": self.p, "v": self.v, "dp": self.d[0], "dv": self.d[1], "calm": self.calm,
            // what each end has of what the other sent, and whether it is that
            "app": a.got.len(), "appok": s.sent.starts_with(&a.got), "eof": a.eof || a.err,
            "srv": s.got.len(), "srvok": a.wrote.starts_with(&s.got), "bye": s.notified, "seof": s.eof || s.gone})
    }
    /// What the parties hold in the end against what happened.
    fn held(&self) -> Value {
        let (a, s) = (self.app.borrow(), self.srv.borrow());
        let sizes = |t: &TlsTranscript, sent: bool| -> Value {
            let l = if sent { t.sent() } else { t.recv() };
            l.iter().filter(|r| r.typ == tlsn_core::transcript::ContentType::ApplicationData).map(|r| r.ciphertext.len()).collect()
        };
        let mut o = json!({"p": "none", "v": "none", "same": true});
        if let Some(p) = &self.p_done {
            let t = p.transcript();
            o["p"] = json!({"sent": t.sent().len(), "recv": t.received().len(), "ok": t.sent() == s.got && s.sent.starts_with(t.received()),
                "rs": sizes(p.tls_transcript(), true), "rr": sizes(p.tls_transcript(), false)});
        }
        if let Some(v) = &self.v_done {
            let t = v.tls_transcript();
            o["v"] = json!({"rs": sizes(t, true), "rr": sizes(t, false)});
            if let Some(p) = &self.p_done {
                let q = p.tls_transcript();
                let same = |x: &[tlsn_core::transcript::Record], y: &[tlsn_core::transcript::Record]| {
                    x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.seq == y.seq && x.typ == y.typ && x.explicit_nonce == y.explicit_nonce && x.ciphertext == y.ciphertext && (x.tag.is_none() || x.tag == y.tag))
                };
                o["same"] = json!(same(t.sent(), q.sent()) && same(t.recv(), q.recv()) && t.version() == q.version()
                    && serde_json::to_value(t.certificate_binding()).unwrap() == serde_json::to_value(q.certificate_binding()).unwrap());
            }
        }
        let _ = a;
        o
    }
    fn act(&mut self, e: &Value) -> Value {
        let g = self.aborts.clone();
        let mut extra = none();
        match e["ev"].as_str().unwrap() {
            "answer" => {
                if let Some(a) = self.v_asked.take() {
                    let yes = e["yes"] == true;
                    self.v = "run";
                    match a {
                        VerifierCommitStart::Mpc(v) if yes => {
                            self.v_run = Some(self.s.spawn(async move { until(g, 1, async move { v.accept().await?.run().await }).await.unwrap_or_else(lost) }))
                        }
                        VerifierCommitStart::Proxy(v) if yes => {
                            let sock = self.sv_sock.take().unwrap();
                            self.v_run = Some(self.s.spawn(async move { until(g, 1, async move { v.accept().await?.run(sock).await }).await.unwrap_or_else(lost) }))
                        }
                        VerifierCommitStart::Mpc(v) => self.v_rej = Some(self.s.spawn(async move { v.reject(Some("no")).await })),
                        VerifierCommitStart::Proxy(v) => self.v_rej = Some(self.s.spawn(async move { v.reject(None).await })),
                    }
                }
            }
            "connect" => {
                if let Some(a) = self.p_acc.take() {
                    let c = TlsClientConfig::builder().server_name(ServerName::Dns(DOMAIN.try_into().unwrap())).root_store(roots()).build().unwrap();
                    self.p = "run";
                    let x = match a {
                        Acc::Mpc(p) => p.connect(c, self.sv_sock.take().unwrap()).map(|(t, p)| {
                            let ctl = p.control();
                            let f = p.into_future();
                            (t, ctl, self.s.spawn(async move { until(g, 0, f).await.unwrap_or_else(lost) }))
                        }),
                        Acc::Proxy(p) => p.connect(c).map(|(t, p)| {
                            let ctl = p.control();
                            let f = p.into_future();
                            (t, ctl, self.s.spawn(async move { until(g, 0, f).await.unwrap_or_else(lost) }))
                        }),
                    };
                    match x {
                        Ok((t, ctl, r)) => {
                            let mut a = self.app.borrow_mut();
                            a.conn = Some(t);
                            a.kick();
                            self.control = Some(ctl);
                            self.p_run = Some(r);
                        }
                        Err(e) => self.p = kind(&e),
                    }
                }
            }
            "write" => {
                let mut a = self.app.borrow_mut();
                let salt = a.wrote.len() + a.pend.len();
                a.pend.extend(data(salt, u(e, "n")));
                a.kick();
            }
            "close" => {
                let mut a = self.app.borrow_mut();
                a.close = true;
                a.kick();
            }
            "drop" => {
                self.app.borrow_mut().conn = None;
            }
            "defer" => {
                if let Some(c) = &self.control {
                    if e["on"] == true { c.enable_decryption(false) } else { c.enable_decryption(true) }
                }
                self.s.poke();
            }
            "send" => {
                let mut s = self.srv.borrow_mut();
                let d = data(100 + s.sent.len(), u(e, "n"));
                if !s.gone && !s.failed {
                    if let Some(c) = &mut s.conn {
                        if !c.is_handshaking() {
                            let _ = c.writer().write_all(&d);
                            s.sent.extend(&d);
                        }
                    }
                    s.kick();
                }
            }
            "bye" => {
                let mut s = self.srv.borrow_mut();
                if !s.conn.as_ref().is_none_or(|c| c.is_handshaking()) && !std::mem::replace(&mut s.bye, true) {
                    if let Some(c) = &mut s.conn {
                        c.send_close_notify();
                    }
                }
                s.closing |= e["cut"] == true;
                s.kick();
            }
            "cut" => {
                let mut s = self.srv.borrow_mut();
                s.closing = true;
                s.kick();
            }
            "flip" => {
                let mut s = self.srv.borrow_mut();
                s.flip = Some(s.recs);
            }
            "vanish" => {
                let k = if e["who"] == "p" { 0 } else { 1 };
                let mut x = g.get();
                x[k] = true;
                g.set(x);
                if k == 0 {
                    self.p_acc = None;
                    self.p_done = None;
                } else {
                    self.v_asked = None;
                    self.v_done = None;
                }
                self.s.poke();
                self.settle();
                if k == 0 { self.p = "gone" } else { self.v = "gone" }
            }
            "prove" => {
                if self.p_done.is_some() && self.v_done.is_some() {
                    let (mut p, v) = (self.p_done.take().unwrap(), self.v_done.take().unwrap());
                    let t = p.transcript().clone();
                    let mut b = ProveConfig::builder(&t);
                    b.server_identity();
                    b.reveal_sent_all().unwrap();
                    b.reveal_recv_all().unwrap();
                    let c = b.build().unwrap();
                    let yes = e["yes"] == true;
                    let h = g.clone();
                    self.p_prove = Some(self.s.spawn(async move { until(g, 0, async move { p.prove(&c).await.map(|_| p) }).await.unwrap_or_else(lost) }));
                    self.v_verify = Some(self.s.spawn(async move {
                        until(h, 1, async move {
                            let v = v.verify().await?;
                            if yes {
                                let (o, v) = v.accept().await?;
                                Ok((Some(o), v))
                            } else {
                                Ok((None, v.reject(None).await?))
                            }
                        })
                        .await
                        .unwrap_or_else(lost)
                    }));
                    self.p = "proves";
                    self.v = "proves";
                    self.settle();
                    extra = match self.out.take() {
                        None => none(),
                        Some(o) => {
                            let s = self.srv.borrow();
                            let tr = o.transcript.as_ref();
                            json!({"got": true, "name": o.server_name.map(|n| { let ServerName::Dns(d) = n; d.as_str().to_string() }).unwrap_or_default(),
                                "sent": tr.map_or(false, |t| t.sent_unsafe() == s.got && t.is_complete()),
                                "recv": tr.map_or(false, |t| s.sent.starts_with(t.received_unsafe()) && t.is_complete())})
                        }
                    };
                }
            }
            "end" => {
                let k = if e["who"] == "p" { 0 } else { 1 };
                if let Some(h) = &self.handles[k] {
                    h.close();
                }
            }
            x => die(&format!("op {x}")),
        }
        self.settle();
        let mut o = self.see();
        o["held"] = self.held();
        o["x"] = extra;
        o
    }
}
fn none() -> Value {
    json!({"got": false, "name": "", "sent": false, "recv": false})
}
fn run(evs: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    let mut r = Run::new(&evs[0]);
    r.settle();
    let mut e = evs[0].clone();
    e["out"] = r.see();
    e["out"]["held"] = r.held();
    e["out"]["x"] = none();
    out.push(e);
    for e in &evs[1..] {
        let mut e = e.clone();
        e["out"] = r.act(&e);
        out.push(e);
    }
    if std::env::var("POLLS").is_ok() {
        eprintln!("{} polls", r.s.polls);
    }
    let _ = guard(|| drop(r));
    out
}
pub fn main(a: &[String]) {
    pki();
    super::duo::all(a, random, run)
}
fn random(r: &mut Rng) -> Vec<Value> {
    let one = |r: &mut Rng, n: usize| r.below(n) == 0;
    let proxy = r.below(5) < 2;
    let mut o = json!({"ev": "new", "mode": if proxy {"proxy"} else {"mpc"}, "seed": r.below(1 << 30), "chain": "ok", "suites": "ok", "cut": -1, "flip": -1,
        "version": "same", "defer": one(r, 4), "lim": {"sent": 400, "recv": 400, "online": 400}});
    match r.below(24) {
        0 => o["chain"] = json!(["name", "root", "old"][r.below(3)]),
        1 => o["suites"] = json!(["tls13", "group", "suite"][r.below(3)]),
        2 => o["version"] = json!("other"),
        3 | 4 => o["cut"] = json!(r.below(10)),
        5 | 6 => o["flip"] = json!(r.below(8)),
        7 | 8 => o["lim"] = json!({"sent": 1 + r.below(3) * 150, "recv": 200, "online": r.below(3) * 100}),
        _ => {}
    }
    let mut evs = vec![o.clone()];
    // The usual order, with steps left out or out of turn.
    let who = |r: &mut Rng| json!({"ev": "vanish", "who": if r.below(2) == 0 {"p"} else {"v"}});
    if one(r, 40) {
        evs.push(who(r));
    }
    evs.push(json!({"ev": "answer", "yes": !one(r, 15)}));
    if one(r, 30) {
        evs.push(who(r));
    }
    if one(r, 20) {
        evs.push(json!({"ev": (["cut", "write", "send", "prove", "close"][r.below(5)]), "n": 5, "yes": true}));
    }
    evs.push(json!({"ev": "connect"}));
    let (mut ns, mut nr) = (0, 0);
    for _ in 0..r.below(9) {
        let n = [0, 1, 15, 16, 17, 40, 120][r.below(7)];
        let e = match r.below(24) {
            0..=6 if ns < 6 => {
                ns += 1;
                json!({"ev": "write", "n": n})
            }
            7..=13 if nr < 6 => {
                nr += 1;
                json!({"ev": "send", "n": n})
            }
            14 | 15 => json!({"ev": "defer", "on": one(r, 2)}),
            16 => json!({"ev": "close"}),
            17 => json!({"ev": "drop"}),
            18 => json!({"ev": "bye", "cut": one(r, 2)}),
            19 => json!({"ev": "cut"}),
            20 if one(r, 2) => json!({"ev": "flip"}),
            21 if one(r, 2) => who(r),
            22 if one(r, 2) => json!({"ev": "prove", "yes": true}),
            23 if one(r, 3) => json!({"ev": "end", "who": (["p", "v"][r.below(2)])}),
            _ => continue,
        };
        evs.push(e);
    }
    let mut fin = vec![json!({"ev": "close"}), json!({"ev": "bye", "cut": true})];
    if one(r, 2) {
        fin.swap(0, 1);
    }
    if one(r, 6) {
        fin.remove(0);
    }
    evs.extend(fin);
    if one(r, 10) {
        evs.push(json!({"ev": "cut"}));
    }
    for _ in 0..1 + r.below(2) {
        evs.push(json!({"ev": "prove", "yes": !one(r, 4)}));
    }
    if one(r, 6) {
        evs.push(who(r));
    }
    let k = r.below(2);
    evs.push(json!({"ev": "end", "who": (["p", "v"][k])}));
    evs.push(json!({"ev": "end", "who": (["v", "p"][k])}));
    evs
}
