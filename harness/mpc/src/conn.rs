//! One client connection against a scripted server: a run is a list of steps,
//! every step records what an application and the server can observe.
use crate::{
    MpcTlsLeader,
    certs::Keys,
    client::{
        Certificate, ClientConfig, ClientConnection, Error, PrivateKey, ResolvesClientCert, RootCertStore, ServerName,
        sign::CertifiedKey,
    },
    leader::{Log, client_key, open, random, seal, vd},
    util::*,
};
use futures::executor::block_on;
use ring::{
    digest::{SHA256, digest},
    signature,
};
use serde_json::{Value, json};
use std::sync::{Arc, Mutex};
use tls_core::msgs::enums::SignatureScheme;

const DOMAIN: &str = "test-server.io";
pub fn fixtures() -> Value {
    serde_json::from_str(include_str!("../fixtures/keys.json")).unwrap()
}
pub fn unhex(v: &Value) -> Vec<u8> {
    let s = v.as_str().unwrap_or_else(|| die("hex"));
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

struct NoCert;
impl ResolvesClientCert for NoCert {
    fn resolve(&self, _: &[&[u8]], _: &[SignatureScheme]) -> Option<Arc<CertifiedKey>> {
        None
    }
    fn has_certs(&self) -> bool {
        true
    }
}

pub struct Pki {
    keys: Keys,
    fx: Value,
    rng: ring::rand::SystemRandom,
    rsa: signature::RsaKeyPair,
}
fn dom(names: &str) -> Value {
    json!(names.split('.').collect::<Vec<_>>())
}
impl Pki {
    fn new() -> Self {
        Pki {
            keys: Keys::new(),
            fx: fixtures(),
            rng: ring::rand::SystemRandom::new(),
            rsa: signature::RsaKeyPair::from_pkcs8(tlsn_server_fixture_certs::SERVER_KEY_DER)
                .or_else(|_| signature::RsaKeyPair::from_der(tlsn_server_fixture_certs::SERVER_KEY_DER))
                .unwrap_or_else(|_| die("rsa key")),
        }
    }
    fn mk(&self, subj: u64, key: u64, iss: u64, by: u64, ca: &str, names: Value, na: i64) -> Vec<u8> {
        self.keys.cert(&json!({"subj": subj, "key": key, "iss": iss, "by": by, "ca": ca, "pl": -1, "eku": if ca == "yes" {"none"} else {"server"},
            "names": names, "nb": 0, "na": na, "good": true, "der": "ok"}))
    }
    fn roots(&self) -> RootCertStore {
        let mut s = RootCertStore::empty();
        s.roots.push(rustls_pki_types::TrustAnchor {
            subject: rustls_pki_types::Der::from(crate::certs::name_body(1)),
            subject_public_key_info: rustls_pki_types::Der::from(self.keys.spki_body(1)),
            name_constraints: None,
        });
        let ca = rustls_pki_types::CertificateDer::from(tlsn_server_fixture_certs::CA_CERT_DER);
        s.roots.push(webpki::anchor_from_trusted_cert(&ca).unwrap_or_else(|_| die("root")).to_owned());
        s
    }
    fn chain(&self, name: &str) -> Vec<Vec<u8>> {
        const FAR: i64 = 1_500_000_000;
        let leaf = |iss, by, n: &str, na| self.mk(9, 9, iss, by, "no", json!([dom(n)]), na);
        match name {
            "ec" => vec![leaf(1, 1, DOMAIN, FAR)],
            "rsa" => vec![tlsn_server_fixture_certs::SERVER_CERT_DER.to_vec()],
            "int" => vec![leaf(5, 5, DOMAIN, FAR), self.mk(5, 5, 1, 1, "yes", json!([]), FAR)],
            "noint" => vec![leaf(5, 5, DOMAIN, FAR)],
            "name" => vec![leaf(1, 1, "other-server.io", FAR)],
            "root" => vec![leaf(2, 2, DOMAIN, FAR)],
            "exp" => vec![leaf(1, 1, DOMAIN, 1000)],
            "forged" => vec![leaf(1, 3, DOMAIN, FAR)],
            "garb" => vec![vec![0x30, 3, 1, 2, 3]],
            "empty" => vec![],
            _ => die("chain"),
        }
    }
    /// Signs with the key of the certificate (or with an unrelated key).
    fn kx_sign(&self, by: &str, sch: u64, msg: &[u8]) -> Vec<u8> {
        match by {
            "rsa" => {
                let alg: &dyn signature::RsaEncoding = match sch {
                    0x0804 => &signature::RSA_PSS_SHA256,
                    0x0805 => &signature::RSA_PSS_SHA384,
                    0x0806 => &signature::RSA_PSS_SHA512,
                    0x0501 => &signature::RSA_PKCS1_SHA384,
                    0x0601 => &signature::RSA_PKCS1_SHA512,
                    _ => &signature::RSA_PKCS1_SHA256,
                };
                let mut s = vec![0; self.rsa.public().modulus_len()];
                self.rsa.sign(alg, &self.rng, msg, &mut s).unwrap();
                s
            }
            "ec" => self.keys.sign(9, msg),
            _ => self.keys.sign(8, msg),
        }
    }
}

fn p8(b: &[u8]) -> Vec<u8> {
    [&[b.len() as u8][..], b].concat()
}
fn p16(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u16).to_be_bytes()[..], b].concat()
}
fn p24(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u32).to_be_bytes()[1..], b].concat()
}
fn n16(n: u64) -> [u8; 2] {
    (n as u16).to_be_bytes()
}
fn num(v: &Value, k: &str) -> u64 {
    v[k].as_u64().unwrap_or_else(|| die(&format!("missing {k} in {v}")))
}
fn srandom(id: u64) -> Vec<u8> {
    match id {
        // last eight bytes: the downgrade marker of RFC 8446
        99 => [vec![3u8; 24], vec![0x44, 0x4f, 0x57, 0x4e, 0x47, 0x52, 0x44, 1]].concat(),
        // the hello retry request random
        98 => vec![
            0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91, 0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb,
            0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
        ],
        _ => (0..32).map(|i| (i * 3 + id * 11 + 2) as u8).collect(),
    }
}
fn point(p: &str) -> Vec<u8> {
    let mut k: Vec<u8> = (0..65).map(|i| (i * 9 + 4) as u8).collect();
    k[0] = if p == "bad" { 2 } else { 4 };
    k
}
fn server_bytes(from: usize, n: usize) -> Vec<u8> {
    (from..from + n).map(|i| (i * 13 + i / 256 + 5) as u8).collect()
}
fn client_bytes(from: usize, n: usize) -> Vec<u8> {
    (from..from + n).map(|i| (i * 17 + i / 251 + 3) as u8).collect()
}

struct World<'a> {
    p: &'a Pki,
    conn: ClientConnection,
    log: Arc<Mutex<Log>>,
    cfg: Value,
    cert_sent: Vec<Vec<u8>>,
    /// handshake messages as seen by the server: up to its ServerHelloDone,
    /// the client's flight, what the server sent later
    pre: Vec<u8>,
    cl: Vec<u8>,
    post: Vec<u8>,
    hello_done: bool,
    rest: Vec<u8>,
    sseq: u8,
    cseq: u8,
    sapp: usize,
    capp: usize,
    rapp: usize,
    wapp: usize,
    enc: bool,
    senc: bool,
    sh: Value,
    chain: Vec<Vec<u8>>,
    ocsp: Vec<u8>,
    scts: Option<Vec<Vec<u8>>>,
    kx: Vec<u8>,
    sch: u64,
    sig: Vec<u8>,
    point: Vec<u8>,
    group: u64,
    second: Vec<u8>,
}

impl World<'_> {
    fn ext(&mut self, e: &Value) -> Vec<u8> {
        let (t, b): (u64, Vec<u8>) = match e["t"].as_str().unwrap() {
            "pf" => (11, p8(&bytes_of(&e["v"]))),
            "sni" => (0, vec![]),
            "tick" => (35, vec![]),
            "reneg" => (0xff01, vec![0]),
            "alpn" => (16, p16(&e["v"].as_array().unwrap().iter().flat_map(|x| p8(x.as_str().unwrap().as_bytes())).collect::<Vec<u8>>())),
            "ems" => (23, vec![]),
            "stat" => (5, vec![]),
            "sct" => {
                let l: Vec<Vec<u8>> = e["v"].as_array().unwrap().iter().map(|n| vec![7; n.as_u64().unwrap() as usize]).collect();
                let b = p16(&l.iter().flat_map(|x| p16(x)).collect::<Vec<u8>>());
                self.scts = Some(l);
                (18, b)
            }
            "sv" => (43, n16(num(e, "v")).to_vec()),
            _ => (num(e, "v"), vec![1, 2, 3]),
        };
        [&n16(t)[..], &p16(&b)].concat()
    }
    /// Bytes of a server handshake message. What follows the key exchange
    /// does not change what it should have been given.
    fn msg(&mut self, m: &Value) -> Vec<u8> {
        if self.log.lock().unwrap().prepared == 0 {
            return self.build(m);
        }
        let keep = (self.sh.clone(), self.chain.clone(), self.ocsp.clone(), self.scts.clone(), self.kx.clone(), self.sch, self.sig.clone(), self.point.clone(), self.group);
        let v = self.build(m);
        (self.sh, self.chain, self.ocsp, self.scts, self.kx, self.sch, self.sig, self.point, self.group) = keep;
        v
    }
    fn build(&mut self, m: &Value) -> Vec<u8> {
        let (t, body): (u8, Vec<u8>) = match m["k"].as_str().unwrap() {
            "SH" => {
                let ex: Vec<u8> = m["ext"].as_array().unwrap().clone().iter().flat_map(|e| self.ext(e)).collect();
                self.sh = m.clone();
                let mut b = [&n16(num(m, "leg"))[..], &srandom(num(m, "rnd")), &p8(&[9; 4]), &n16(num(m, "suite")), &[num(m, "comp") as u8]].concat();
                if !ex.is_empty() {
                    b.extend(p16(&ex));
                }
                (2, b)
            }
            "CERT" => {
                self.chain = self.p.chain(m["chain"].as_str().unwrap());
                (11, p24(&self.chain.iter().flat_map(|x| p24(x)).collect::<Vec<u8>>()))
            }
            "CS" => {
                self.ocsp = vec![5; num(m, "n") as usize];
                (22, [&[1][..], &p24(&self.ocsp)].concat())
            }
            "SKE" => {
                self.group = num(m, "grp");
                self.point = point(m["pt"].as_str().unwrap());
                let params = [&[num(m, "curve") as u8][..], &n16(self.group), &p8(&self.point)].concat();
                let sr = srandom(num(&self.sh, "rnd"));
                let (cr, other) = (random(), [7u8; 32]);
                let over = match m["over"].as_str().unwrap() {
                    "right" => [&cr[..], &sr, &params].concat(),
                    "swapped" => [&sr[..], &cr, &params].concat(),
                    "client" => [&other[..], &sr, &params].concat(),
                    "server" => [&cr[..], &other, &params].concat(),
                    "params" => [&cr[..], &sr, &params[..params.len() - 1]].concat(),
                    _ => vec![],
                };
                self.sch = num(m, "sch");
                self.sig = self.p.kx_sign(m["by"].as_str().unwrap(), self.sch, &over);
                self.kx = params.clone();
                (12, [&params[..], &n16(self.sch), &p16(&self.sig)].concat())
            }
            "CR" => {
                let s: Vec<u8> = m["sch"].as_array().unwrap().iter().flat_map(|x| n16(x.as_u64().unwrap())).collect();
                let ca: Vec<u8> = (0..num(m, "ca")).flat_map(|i| p16(&[0x30, 2, 5, i as u8])).collect();
                (13, [&p8(&[1, 64])[..], &p16(&s), &p16(&ca)].concat())
            }
            "SHD" => (14, vec![]),
            "FIN" => {
                let mut v = vd(b"sf", digest(&SHA256, &self.hs()).as_ref());
                match m["vd"].as_str().unwrap() {
                    "ok" => {}
                    "bad" => v[11] ^= 1,
                    "short" => v.truncate(11),
                    "empty" => v.clear(),
                    _ => v = vd(b"cf", digest(&SHA256, &self.hs()).as_ref()),
                }
                (20, v)
            }
            "HR" => (0, vec![]),
            "NST" => (4, [&[0, 0, 14, 16][..], &p16(&[8; 20])].concat()),
            "CH" => (1, [&[3, 3][..], &[1; 32], &[0], &p16(&[0xc0, 0x2f]), &[1, 0], &p16(&[0, 23, 0, 0])].concat()),
            "CKE" => (16, p8(&[4; 65])),
            "CV" => (15, [&[4, 3][..], &p16(&[6; 70])].concat()),
            "EE" => (8, p16(&[])),
            "KU" => (24, vec![0]),
            _ => (99, vec![1, 2]),
        };
        let mut v = [&[t][..], &p24(&body)].concat();
        if m["mal"] == json!(true) {
            // one byte less than the structure needs
            v = [&[t][..], &p24(&body[..body.len() - 1])].concat();
        }
        v
    }
    /// Bytes of a server record.
    fn record(&mut self, r: &Value) -> Vec<u8> {
        let (t, b): (u8, Vec<u8>) = match r["ct"].as_str().unwrap() {
            "hs" => {
                let mut b = vec![];
                for it in r["ms"].as_array().unwrap() {
                    match it["p"].as_str().unwrap() {
                        "b" => b.append(&mut self.second),
                        p => {
                            let m = self.msg(&it["m"]);
                            // the server hashes what it sends, refusals to renegotiate aside
                            if it["m"]["k"] != "HR" {
                                if self.hello_done { self.post.extend(&m) } else { self.pre.extend(&m) }
                                self.hello_done |= it["m"]["k"] == "SHD";
                            }
                            if p == "a" {
                                let cut = (num(it, "cut") as usize).min(m.len() - 1);
                                b.extend(&m[..cut]);
                                self.second = m[cut..].to_vec();
                            } else {
                                b.extend(m);
                            }
                        }
                    }
                }
                (22, b)
            }
            "alert" => {
                let mut b = vec![num(r, "lvl") as u8, num(r, "desc") as u8];
                if r["mal"] == json!(true) {
                    b.truncate(1);
                }
                (21, b)
            }
            "ccs" => (20, if r["mal"] == json!(true) { vec![2] } else { vec![1] }),
            "app" => {
                let n = num(r, "n") as usize;
                let b = server_bytes(self.sapp, n);
                self.sapp += n;
                (23, b)
            }
            "hb" => (24, vec![1, 0, 0]),
            _ => (77, vec![1]),
        };
        let b = if self.senc {
            let mut c = seal(0xe1, self.sseq, &b);
            self.sseq = self.sseq.wrapping_add(1);
            if r["mac"] == json!(false) {
                *c.last_mut().unwrap() ^= 1;
            }
            c
        } else {
            b
        };
        if t == 20 && !self.senc {
            self.senc = true;
        }
        [&[t, 3, 3][..], &p16(&b)].concat()
    }

    fn hs(&self) -> Vec<u8> {
        [&self.pre[..], &self.cl, &self.post].concat()
    }
    fn obs(&self) -> Value {
        let l = self.log.lock().unwrap();
        let prep = match l.prepared {
            0 => "none",
            1 if l.random.as_slice() == srandom(num(&self.sh, "rnd"))
                && l.group as u64 == self.group
                && l.key == self.point
                && l.chain.iter().map(|c| &c.0).eq(self.chain.iter())
                && l.ocsp == self.ocsp
                && l.scts == self.scts
                && l.kx == self.kx
                && l.sch as u64 == self.sch
                && l.sig == self.sig =>
            {
                "ok"
            }
            _ => "bad",
        };
        let c = &self.conn;
        json!({"wr": c.wants_write(), "rd": c.wants_read(), "hsk": c.is_handshaking(), "full": c.sendable_plaintext_is_full(),
               "pe": c.plaintext_is_empty(), "mt": c.is_empty(), "prep": prep})
    }
    fn done(&self, r: Value) -> Value {
        let mut o = self.obs();
        for (k, v) in r.as_object().unwrap() {
            o[k] = v.clone();
        }
        o
    }
    fn process(&mut self) -> Value {
        let conn = &mut self.conn;
        match guard(|| block_on(conn.process_new_packets())) {
            None => json!({"res": "panic", "pt": 0, "tls": false}),
            Some(Err(e)) => json!({"res": class(&e), "pt": 0, "tls": false}),
            Some(Ok(s)) => json!({"res": "ok", "pt": s.plaintext_bytes_to_read(), "tls": s.tls_bytes_to_write() > 0}),
        }
    }
    fn step(&mut self, e: &Value) -> Value {
        match e["op"].as_str().unwrap() {
            "start" => {
                let conn = &mut self.conn;
                let r = match guard(|| block_on(conn.start())) {
                    None => "panic".to_string(),
                    Some(Ok(())) => "ok".into(),
                    Some(Err(e)) => class(&e),
                };
                self.done(json!({"res": r}))
            }
            "recv" => {
                let mut b = vec![];
                for r in e["recs"].as_array().unwrap() {
                    b.extend(self.record(r));
                }
                let ck = (num(e, "ck") as usize).max(1);
                for c in b.chunks(ck) {
                    let mut rd = c;
                    while !rd.is_empty() {
                        match self.conn.read_tls(&mut rd) {
                            Ok(0) | Err(_) => break,
                            Ok(_) => {}
                        }
                    }
                }
                let r = self.process();
                self.done(r)
            }
            "process" => {
                let r = self.process();
                self.done(r)
            }
            "write" => {
                let n = num(e, "n") as usize;
                let b = client_bytes(self.wapp, n);
                let r = match self.conn.write_plaintext(&b) {
                    Ok(k) => {
                        self.wapp += k;
                        json!({"res": "ok", "n": k})
                    }
                    Err(e) => json!({"res": class(&e), "n": 0}),
                };
                self.done(r)
            }
            "read" => {
                let mut b = vec![0xEE; num(e, "n") as usize];
                let r = match self.conn.read_plaintext(&mut b) {
                    Ok(k) => {
                        let good = k <= b.len() && b[..k] == server_bytes(self.rapp, k)[..] && b[k..].iter().all(|x| *x == 0xEE);
                        self.rapp += k;
                        json!({"res": "ok", "n": k, "same": good})
                    }
                    Err(e) => json!({"res": format!("io:{:?}", e.kind()), "n": 0, "same": true}),
                };
                self.done(r)
            }
            "drain" => {
                let cap = (num(e, "cap") as usize).max(1);
                let mut w = Sink { cap, vec: e["vec"] == json!(true), out: vec![] };
                let mut guardn = 0;
                let mut honest = true;
                while self.conn.wants_write() && guardn < 4_000_000 {
                    guardn += 1;
                    let before = w.out.len();
                    match self.conn.write_tls(&mut w) {
                        Ok(k) => honest &= k == w.out.len() - before && k > 0,
                        Err(_) => honest = false,
                    }
                    if !honest {
                        break;
                    }
                }
                self.rest.extend(w.out);
                let recs = self.parse();
                self.done(json!({"res": "ok", "recs": recs, "honest": honest, "left": self.rest.len()}))
            }
            "notify" => {
                let conn = &mut self.conn;
                let r = match guard(|| block_on(conn.send_close_notify())) {
                    None => "panic".to_string(),
                    Some(Ok(())) => "ok".into(),
                    Some(Err(e)) => class(&e),
                };
                self.done(json!({"res": r}))
            }
            "dec" => {
                self.conn.enable_decryption(e["on"] == json!(true));
                self.done(json!({"res": "ok"}))
            }
            "closed" => {
                let conn = &mut self.conn;
                let r = match guard(|| block_on(conn.server_closed())) {
                    None => "panic".to_string(),
                    Some(Ok(())) => "ok".into(),
                    Some(Err(e)) => class(&e),
                };
                self.done(json!({"res": r}))
            }
            x => die(x),
        }
    }
    /// What the server reads: the records written by the client.
    fn parse(&mut self) -> Vec<Value> {
        let mut out = vec![];
        // plaintext handshake messages may be cut into several records
        let (mut part, mut lens, mut pver): (Vec<u8>, Vec<usize>, u16) = (vec![], vec![], 0);
        let max = match self.cfg["frag"].as_u64().unwrap() {
            0 => 16384,
            n => n as usize - 5,
        };
        loop {
            if self.rest.len() < 5 {
                break;
            }
            let n = u16::from_be_bytes([self.rest[3], self.rest[4]]) as usize;
            if self.rest.len() < 5 + n {
                break;
            }
            let rec: Vec<u8> = self.rest.drain(..5 + n).collect();
            let (t, ver) = (rec[0], u16::from_be_bytes([rec[1], rec[2]]));
            let mut body = rec[5..].to_vec();
            let enc = self.enc;
            if enc {
                match open(0xe0, self.cseq, &body) {
                    Some(p) => body = p,
                    None => {
                        out.push(json!({"ct": "undecryptable", "ver": ver, "enc": true}));
                        continue;
                    }
                }
                self.cseq = self.cseq.wrapping_add(1);
            }
            match t {
                20 => {
                    out.push(json!({"ct": if body == [1] {"ccs"} else {"badccs"}, "ver": ver, "enc": enc}));
                    self.enc = true;
                }
                21 if body.len() == 2 => out.push(json!({"ct": "alert", "ver": ver, "enc": enc, "lvl": body[0], "desc": body[1]})),
                22 => {
                    if part.is_empty() {
                        pver = ver;
                    }
                    lens.push(body.len());
                    part.extend(&body);
                    let need = if part.len() < 4 { usize::MAX } else { 4 + u32::from_be_bytes([0, part[1], part[2], part[3]]) as usize };
                    if part.len() >= need {
                        let mut exp: Vec<usize> = vec![max; need / max];
                        if need % max != 0 {
                            exp.push(need % max);
                        }
                        let frok = exp == lens && ver == pver;
                        let m: Vec<u8> = part.drain(..).collect();
                        lens.clear();
                        let am = self.cmsg(&m, enc);
                        if self.pre.is_empty() { self.pre.extend(&m) } else { self.cl.extend(&m) }
                        out.push(json!({"ct": "hs", "ver": pver, "enc": enc, "frok": frok, "m": am}));
                    }
                }
                23 => {
                    let same = body == client_bytes(self.capp, body.len());
                    self.capp += body.len();
                    out.push(json!({"ct": "app", "ver": ver, "enc": enc, "n": body.len(), "same": same}));
                }
                _ => out.push(json!({"ct": "other", "ver": ver, "enc": enc})),
            }
        }
        if !part.is_empty() {
            out.push(json!({"ct": "partial", "ver": pver, "enc": self.enc}));
        }
        out
    }
    fn cmsg(&self, m: &[u8], enc: bool) -> Value {
        let b = &m[4..];
        match m[0] {
            1 => client_hello(b),
            11 => {
                let l: Vec<u8> = p24(&self.cert_sent.iter().flat_map(|c| p24(c)).collect::<Vec<u8>>());
                if b == [0, 0, 0] { json!({"k": "CERT", "own": "none"}) } else { json!({"k": "CERT", "own": if b == l {"all"} else {"?"}}) }
            }
            16 => json!({"k": "CKE", "same": b == p8(&client_key())}),
            15 => {
                let sch = u16::from_be_bytes([b[0], b[1]]);
                let sig = &b[4..];
                let ok = b.len() == 4 + u16::from_be_bytes([b[2], b[3]]) as usize && verifies(&self.p.fx, self.cfg["auth"].as_str().unwrap(), sch, &[&self.pre[..], &self.cl].concat(), sig);
                json!({"k": "CV", "sch": sch, "ok": ok})
            }
            20 => json!({"k": "FIN", "ok": enc && b == vd(b"cf", digest(&SHA256, &[&self.pre[..], &self.cl].concat()).as_ref())}),
            t => json!({"k": format!("type{t}")}),
        }
    }
}

pub fn verifies(fx: &Value, key: &str, sch: u16, msg: &[u8], sig: &[u8]) -> bool {
    let p = unhex(&fx[key]["pub"]);
    let alg: &dyn signature::VerificationAlgorithm = match sch {
        0x0403 => &signature::ECDSA_P256_SHA256_ASN1,
        0x0503 => &signature::ECDSA_P384_SHA384_ASN1,
        0x0807 => &signature::ED25519,
        0x0804 => &signature::RSA_PSS_2048_8192_SHA256,
        0x0805 => &signature::RSA_PSS_2048_8192_SHA384,
        0x0806 => &signature::RSA_PSS_2048_8192_SHA512,
        0x0401 => &signature::RSA_PKCS1_2048_8192_SHA256,
        0x0501 => &signature::RSA_PKCS1_2048_8192_SHA384,
        0x0601 => &signature::RSA_PKCS1_2048_8192_SHA512,
        _ => return false,
    };
    signature::UnparsedPublicKey::new(alg, p).verify(msg, sig).is_ok()
}

struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let n = n.min(self.0.len());
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn n(&mut self, k: usize) -> u64 {
        self.take(k).iter().fold(0, |a, b| a * 256 + *b as u64)
    }
    fn v(&mut self, k: usize) -> &'a [u8] {
        let n = self.n(k) as usize;
        self.take(n)
    }
}
fn words(b: &[u8]) -> Vec<u64> {
    b.chunks(2).map(|c| c.iter().fold(0, |a, x| a * 256 + *x as u64)).collect()
}
fn client_hello(b: &[u8]) -> Value {
    let mut c = Cur(b);
    let ver = c.n(2);
    let rnd = c.take(32) == random();
    let sid = c.v(1).len();
    let suites = words(c.v(2));
    let comp = c.v(1).to_vec();
    let mut e = Cur(c.v(2));
    let over = c.0.len();
    let mut exts = vec![];
    while !e.0.is_empty() {
        let t = e.n(2);
        let d = e.v(2);
        let mut x = Cur(d);
        let v: Value = match t {
            0 => {
                let mut l = Cur(x.v(2));
                let ty = l.n(1);
                let h = String::from_utf8_lossy(l.v(2)).to_string();
                json!({"name": h, "ty": ty, "left": l.0.len()})
            }
            10 | 13 => json!(words(x.v(2))),
            11 => json!(x.v(1)),
            43 => json!(words(x.v(1))),
            16 => {
                let mut l = Cur(x.v(2));
                let mut ps = vec![];
                while !l.0.is_empty() {
                    ps.push(String::from_utf8_lossy(l.v(1)).to_string());
                }
                json!(ps)
            }
            _ => json!(d),
        };
        exts.push(json!({"t": t, "v": v, "left": if [0, 10, 11, 13, 16, 43].contains(&t) { x.0.len() } else { 0 }}));
    }
    json!({"k": "CH", "ver": ver, "rnd": rnd, "sid": sid, "suites": suites, "comp": comp, "exts": exts, "over": over})
}

struct Sink {
    cap: usize,
    vec: bool,
    out: Vec<u8>,
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.cap);
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bs: &[std::io::IoSlice<'_>]) -> std::io::Result<usize> {
        if !self.vec {
            return match bs.iter().find(|b| !b.is_empty()) {
                Some(b) => self.write(b),
                None => Ok(0),
            };
        }
        let mut left = self.cap;
        for b in bs {
            let n = b.len().min(left);
            self.out.extend(&b[..n]);
            left -= n;
        }
        Ok(self.cap - left)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn join<T: std::fmt::Debug>(x: &[T]) -> String {
    x.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join("+")
}
pub fn class(e: &Error) -> String {
    use tls_core::Error as C;
    match e {
        Error::CoreError(c) => match c {
            C::InvalidCertificateEncoding => "core:encoding".into(),
            C::InvalidCertificateSignature => "core:sig".into(),
            C::InvalidCertificateSignatureType => "core:sigtype".into(),
            C::InvalidCertificateData(_) => "core:data".into(),
            C::PeerMisbehavedError(_) => "core:misbehaved".into(),
            C::CorruptMessagePayload(t) => format!("core:payload:{t:?}"),
            c => format!("core:{c:?}"),
        },
        Error::BackendError(_) => "backend".into(),
        Error::InappropriateMessage { expect_types, got_type } => format!("inapp:{got_type:?}/{}", join(expect_types)),
        Error::InappropriateHandshakeMessage { expect_types, got_type } => format!("inapphs:{got_type:?}/{}", join(expect_types)),
        Error::PeerIncompatibleError(_) => "incompatible".into(),
        Error::PeerMisbehavedError(_) => "misbehaved".into(),
        Error::AlertReceived(d) => format!("alert:{}", d.get_u8()),
        Error::CorruptMessagePayload(t) => format!("payload:{t:?}"),
        Error::General(_) => "general".into(),
        e => format!("{e:?}"),
    }
}

fn run(p: &Pki, run: &[Value]) -> Vec<Value> {
    let cfg = &run[0];
    let auth = cfg["auth"].as_str().unwrap();
    let mut cert_sent = vec![];
    let log = Arc::new(Mutex::new(Log::default()));
    let mut c = match auth {
        "none" => ClientConfig::new(p.roots()),
        "unable" => ClientConfig::new_with_cert_resolver(p.roots(), Arc::new(NoCert)),
        k => {
            cert_sent = vec![vec![0x30, 1, 7], vec![0x30, 1, 8]];
            ClientConfig::new_with_client_auth(p.roots(), cert_sent.iter().cloned().map(Certificate).collect(), PrivateKey(unhex(&p.fx[k]["key"])))
                .unwrap_or_else(|_| die("client key"))
        }
    };
    c.alpn_protocols = cfg["alpn"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().as_bytes().to_vec()).collect();
    c.enable_sni = cfg["sni"] == json!(true);
    c.max_fragment_size = match cfg["frag"].as_u64().unwrap() {
        0 => None,
        n => Some(n as usize),
    };
    let conn = ClientConnection::new(Arc::new(c), MpcTlsLeader::new(log.clone()), ServerName::try_from(DOMAIN).unwrap_or_else(|_| die("name")));
    let mut evs = vec![];
    let mut first = cfg.clone();
    match conn {
        Err(e) => {
            first["out"] = json!({"res": class(&e)});
            evs.push(first);
        }
        Ok(conn) => {
            first["out"] = json!({"res": "ok"});
            evs.push(first);
            let mut w = World {
                p, conn, log, cfg: cfg.clone(), cert_sent, pre: vec![], cl: vec![], post: vec![], hello_done: false, rest: vec![], sseq: 0, cseq: 0, sapp: 0, capp: 0, rapp: 0, wapp: 0,
                enc: false, senc: false, sh: json!({"rnd": 0}), chain: vec![], ocsp: vec![], scts: None, kx: vec![], sch: 0, sig: vec![],
                point: vec![], group: 0, second: vec![],
            };
            for e in &run[1..] {
                let mut e = e.clone();
                let o = w.step(&e);
                let stop = o["res"] == "panic";
                e["out"] = o;
                evs.push(e);
                if stop {
                    break;
                }
            }
        }
    }
    evs
}

// ------------------------------------------------------------------ random
fn sh(r: &mut Rng, cfg: &Value) -> Value {
    let mut ext = vec![];
    if r.chance(2, 3) {
        ext.push(json!({"t": "reneg"}));
    }
    if r.chance(1, 2) {
        ext.push(json!({"t": "pf", "v": if r.chance(9, 10) { vec![0, 1] } else { vec![1, 2] }}));
    }
    if r.chance(1, 3) {
        ext.push(json!({"t": "stat"}));
    }
    if r.chance(1, 3) && cfg["sni"] == json!(true) {
        ext.push(json!({"t": "sni"}));
    }
    let al = cfg["alpn"].as_array().unwrap();
    if !al.is_empty() && r.chance(2, 3) {
        ext.push(json!({"t": "alpn", "v": [if r.chance(19, 20) { al[r.below(al.len())].clone() } else { json!("zz") }]}));
    }
    if r.chance(1, 4) {
        let n = r.range(1, 3);
        ext.push(json!({"t": "sct", "v": (0..n).map(|_| if r.chance(1, 30) {0} else {r.range(1, 9)}).collect::<Vec<_>>()}));
    }
    if r.chance(1, 25) {
        ext.push(r.pick(&[json!({"t": "ems"}), json!({"t": "tick"}), json!({"t": "unk", "v": 4660}), json!({"t": "reneg"}), json!({"t": "sv", "v": 771})]).clone());
    }
    if ext.is_empty() {
        ext.push(json!({"t": "reneg"}));
    }
    let k = r.below(ext.len());
    ext.rotate_left(k);
    json!({"k": "SH", "leg": if r.chance(1, 40) { 770 } else { 771 }, "rnd": r.range(1, 40), "comp": if r.chance(1, 60) {1} else {0},
           "suite": if r.chance(1, 40) { 0xc030 } else { *r.pick(&[0xc02b, 0xc02f]) }, "ext": ext})
}
fn gen_run(r: &mut Rng) -> Vec<Value> {
    let auth = *r.pick(&["none", "none", "ec256", "ec384", "ed", "rsa", "unable"]);
    let cfg = json!({"op": "new", "auth": auth, "alpn": r.pick(&[json!([]), json!(["h2", "http/1.1"]), json!(["http/1.1"])]),
        "sni": r.chance(4, 5), "frag": *r.pick(&[0usize, 0, 0, 32, 64, 100, 517, 16389, 31, 16390])});
    let mut v = vec![cfg.clone()];
    if r.chance(1, 8) {
        v.push(json!({"op": "write", "n": r.range(0, 70000)}));
    }
    v.push(json!({"op": "start"}));
    v.push(json!({"op": "drain", "cap": r.range(1, 600), "vec": r.chance(1, 2)}));
    let s = sh(r, &cfg);
    let rsa = s["suite"] == 0xc02f;
    let chain = if r.chance(1, 12) { *r.pick(&["name", "root", "exp", "forged", "garb", "empty", "noint", "ec", "rsa"]) } else if rsa { "rsa" } else { *r.pick(&["ec", "int"]) };
    let sch = if r.chance(1, 30) { *r.pick(&[0x0201u64, 0x0807, 0x0503]) } else if rsa { *r.pick(&[0x0804u64, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601]) } else { 0x0403 };
    let mut flow = vec![s.clone(), json!({"k": "CERT", "chain": chain})];
    if s["ext"].as_array().unwrap().iter().any(|e| e["t"] == "stat") && r.chance(2, 3) {
        flow.push(json!({"k": "CS", "n": r.range(0, 300)}));
    }
    flow.push(json!({"k": "SKE", "curve": 3, "grp": if r.chance(1, 30) { 24 } else { 23 }, "pt": if r.chance(1, 40) {"bad"} else {"ok"},
        "by": if r.chance(1, 30) {"other"} else if rsa {"rsa"} else {"ec"}, "sch": sch, "over": if r.chance(1, 15) { *r.pick(&["swapped", "client", "server", "params"]) } else {"right"}}));
    if r.chance(1, 3) {
        let n = r.range(0, 4);
        let all = [0x0403u64, 0x0503, 0x0603, 0x0807, 0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601, 0x0201];
        flow.push(json!({"k": "CR", "sch": (0..n).map(|_| *r.pick(&all)).collect::<Vec<_>>(), "ca": r.below(3)}));
    }
    flow.push(json!({"k": "SHD"}));
    // deviations
    let extra = ["HR", "NST", "CH", "CKE", "CV", "EE", "KU", "UNK", "SHD"];
    if r.chance(1, 6) {
        let i = r.below(flow.len());
        match r.below(4) {
            0 => {
                flow.remove(i);
            }
            1 => {
                let x = flow[i].clone();
                flow.insert(i, x);
            }
            2 => {
                let j = (i + 1) % flow.len();
                flow.swap(i, j)
            }
            _ => flow.insert(i, json!({"k": *r.pick(&extra)})),
        }
    }
    // a client whose key exchange failed has announced encryption it does not have
    let badpt = flow.iter().any(|m| m["pt"] == "bad");
    // into records
    let mut recs = vec![];
    let mut items: Vec<Value> = vec![];
    for m in flow {
        match r.below(4) {
            0 => {
                items.push(json!({"m": m, "p": "a", "cut": r.range(1, 40)}));
                recs.push(json!({"ct": "hs", "ms": items, "mac": true}));
                items = vec![json!({"m": m, "p": "b", "cut": 0})];
                if r.chance(1, 2) {
                    recs.push(json!({"ct": "hs", "ms": items, "mac": true}));
                    items = vec![];
                }
            }
            1 => items.push(json!({"m": m, "p": "all", "cut": 0})),
            _ => {
                items.push(json!({"m": m, "p": "all", "cut": 0}));
                recs.push(json!({"ct": "hs", "ms": items, "mac": true}));
                items = vec![];
            }
        }
    }
    if !items.is_empty() {
        recs.push(json!({"ct": "hs", "ms": items, "mac": true}));
    }
    if r.chance(1, 10) {
        let i = r.below(recs.len());
        recs.insert(i, r.pick(&[json!({"ct": "alert", "lvl": 1, "desc": 90, "mac": true}), json!({"ct": "alert", "lvl": 2, "desc": 40, "mac": true}),
            json!({"ct": "alert", "lvl": 3, "desc": 40, "mac": true}), json!({"ct": "app", "n": 3, "mac": true}), json!({"ct": "hb", "mac": true})]).clone());
    }
    let ck = |r: &mut Rng| if r.chance(1, 3) { r.range(1, 50) } else { 100000 };
    while !recs.is_empty() {
        let k = r.range(1, recs.len());
        let b: Vec<Value> = recs.drain(..k).collect();
        v.push(json!({"op": "recv", "recs": b, "ck": ck(r)}));
        if r.chance(1, 8) {
            v.push(json!({"op": "write", "n": r.range(1, 5000)}));
        }
        if r.chance(1, 4) {
            v.push(json!({"op": "drain", "cap": r.range(1, 600), "vec": r.chance(1, 2)}));
        }
    }
    v.push(json!({"op": "drain", "cap": r.range(1, 3000), "vec": r.chance(1, 2)}));
    // server completes
    let mut tail = vec![json!({"ct": "ccs", "mac": true}), json!({"ct": "hs", "ms": [{"m": {"k": "FIN", "vd": if r.chance(1, 12) { *r.pick(&["bad", "short", "empty", "client"]) } else {"ok"}}, "p": "all", "cut": 0}], "mac": !r.chance(1, 30)})];
    if r.chance(1, 20) {
        tail.insert(r.below(2), r.pick(&[json!({"ct": "app", "n": 5, "mac": true}), json!({"ct": "hs", "ms": [{"m": {"k": "NST"}, "p": "all", "cut": 0}], "mac": true}), json!({"ct": "ccs", "mac": true}),
            json!({"ct": "alert", "lvl": 1, "desc": 0, "mac": true})]).clone());
    }
    for _ in 0..r.below(4) {
        tail.push(json!({"ct": "app", "n": r.range(0, 3000), "mac": true}));
    }
    while !tail.is_empty() {
        let k = r.range(1, tail.len());
        let b: Vec<Value> = tail.drain(..k).collect();
        v.push(json!({"op": "recv", "recs": b, "ck": ck(r)}));
    }
    let mut closed = false;
    for _ in 0..r.below(14) {
        let e = match r.below(20) {
            0..=2 => json!({"op": "write", "n": *r.pick(&[0, 1, 27, 28, 4000, 16384, 16385, 65535, 65536, 70000])}),
            3..=5 => json!({"op": "read", "n": r.range(0, 4000)}),
            6..=8 => json!({"op": "process"}),
            9..=11 => json!({"op": "drain", "cap": r.range(1, 20000), "vec": r.chance(1, 2)}),
            12..=14 if !closed => json!({"op": "recv", "ck": ck(r), "recs": (0..r.range(1, 3)).map(|_| json!({"ct": "app", "n": r.range(0, 5000), "mac": !r.chance(1, 60)})).collect::<Vec<_>>()}),
            15 => json!({"op": "dec", "on": r.chance(1, 2)}),
            16 if !badpt => json!({"op": "notify"}),
            17 if !closed => {
                closed = r.chance(1, 2);
                if closed { json!({"op": "closed"}) } else { json!({"op": "recv", "ck": 9999, "recs": [{"ct": "hs", "ms": [{"m": {"k": if r.chance(3, 4) {"HR"} else {"NST"}}, "p": "all", "cut": 0}], "mac": true}]}) }
            }
            18 if !closed => {
                closed = true;
                json!({"op": "recv", "ck": 9999, "recs": [{"ct": "alert", "lvl": *r.pick(&[1, 1, 2, 7]), "desc": *r.pick(&[0, 0, 40, 90]), "mac": true}]})
            }
            _ => json!({"op": "process"}),
        };
        v.push(e);
    }
    v.push(json!({"op": "process"}));
    v.push(json!({"op": "drain", "cap": 65536, "vec": true}));
    v.push(json!({"op": "read", "n": 100000}));
    v
}

/// args: scenarios seed n trace
pub fn main(a: &[String]) {
    let p = Pki::new();
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut o = Out::new(&a[3]);
    for s in read_scenarios(&a[0]) {
        o.run(&run(&p, s.as_array().unwrap()));
    }
    for _ in 0..n {
        let s = gen_run(&mut r);
        o.run(&run(&p, &s));
    }
}
