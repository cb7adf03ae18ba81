//! Attestations: notary, prover, verifier, and what an adversary makes of their messages.
use crate::disclose::{Custom, alg};
use crate::util::*;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::{Arc, LazyLock, Mutex};
use tlsn_attestation::connection::{ServerCertCommitment, ServerIdentityProof};
use tlsn_attestation::presentation::Presentation;
use tlsn_attestation::request::{Request, RequestConfig};
use tlsn_attestation::signing::*;
use tlsn_attestation::*;
use tlsn_core::connection::*;
use tlsn_core::fixtures::ConnectionFixture;
use tlsn_core::hash::{Hash, HashAlgId, HashAlgorithm, HashProvider, TypedHash};
use tlsn_core::merkle::MerkleTree;
use tlsn_core::transcript::hash::{PlaintextHash, PlaintextHashSecret, hash_plaintext};
use tlsn_core::transcript::*;
use tlsn_core::webpki::{CertificateDer, RootCertStore, ServerCertVerifier};

fn de<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| die(&format!("{e}: {v}")))
}
/// Over the wire and back.
fn sent<T: serde::Serialize + DeserializeOwned>(v: &T) -> T {
    bincode::deserialize(&bincode::serialize(v).unwrap()).unwrap()
}
fn ser<T: serde::Serialize>(v: &T) -> Value {
    serde_json::to_value(v).unwrap()
}
fn sha(b: &[u8]) -> Vec<u8> {
    ring::digest::digest(&ring::digest::SHA256, b).as_ref().to_vec()
}
fn bt(n: usize, x: u8) -> Vec<u8> {
    (1..=n).map(|q| (x as usize + 7 * q) as u8).collect()
}

/* ---- a signature algorithm of our own, and recording providers ---- */
struct Own {
    key: VerifyingKey,
    log: Arc<Mutex<Vec<Vec<u8>>>>,
}
fn own_key(who: u8) -> VerifyingKey {
    VerifyingKey { alg: KeyAlgId::new(130), data: vec![who; 20] }
}
fn own_sig(key: &VerifyingKey, msg: &[u8]) -> Vec<u8> {
    [sha(&[&key.data[..], msg].concat()), vec![1, 2]].concat()
}
impl Signer for Own {
    fn alg_id(&self) -> SignatureAlgId {
        SignatureAlgId::new(130)
    }
    fn sign(&self, msg: &[u8]) -> Result<Signature, SignatureError> {
        self.log.lock().unwrap().push(msg.to_vec());
        Ok(Signature { alg: self.alg_id(), data: own_sig(&self.key, msg) })
    }
    fn verifying_key(&self) -> VerifyingKey {
        self.key.clone()
    }
}
struct OwnVerifier;
impl SignatureVerifier for OwnVerifier {
    fn alg_id(&self) -> SignatureAlgId {
        SignatureAlgId::new(130)
    }
    fn verify(&self, key: &VerifyingKey, msg: &[u8], sig: &[u8]) -> Result<(), SignatureError> {
        if key.alg.as_u8() == 130 && own_sig(key, msg) == sig { Ok(()) } else { Err(SignatureError::from_str("no")) }
    }
}
type HashLog = Arc<Mutex<Vec<(Option<Vec<u8>>, Vec<u8>, Hash)>>>;
struct Rec {
    id: HashAlgId,
    log: HashLog,
}
impl Rec {
    fn put(&self, p: Option<&[u8]>, d: &[u8]) -> Hash {
        let custom = Custom(200);
        let all = HashProvider::default();
        let h: &dyn HashAlgorithm = if self.id.as_u8() == 200 { &custom } else { all.get(&self.id).unwrap() };
        let v = h.hash(&[p.unwrap_or(&[]), d].concat());
        self.log.lock().unwrap().push((p.map(|p| p.to_vec()), d.to_vec(), v));
        v
    }
}
impl HashAlgorithm for Rec {
    fn id(&self) -> HashAlgId {
        self.id
    }
    fn hash(&self, data: &[u8]) -> Hash {
        self.put(None, data)
    }
    fn hash_prefixed(&self, prefix: &[u8], data: &[u8]) -> Hash {
        self.put(Some(prefix), data)
    }
}
const HONEST: [u8; 32] = [42; 32];
const ATTACKER: [u8; 32] = [77; 32];
fn provider(hash: &[u64], sig: bool) -> CryptoProvider {
    let mut p = CryptoProvider::default();
    for i in hash {
        p.hash.set_algorithm(HashAlgId::new(*i as u8), Box::new(Custom(*i as u8)));
    }
    if sig {
        p.signature.set_verifier(Box::new(OwnVerifier));
    } else {
        p.signature = SignatureVerifierProvider::empty();
    }
    p
}
fn signers(p: &mut CryptoProvider, algs: &[u64]) {
    for a in algs {
        match a {
            1 => drop(p.signer.set_secp256k1(&HONEST).unwrap()),
            2 => drop(p.signer.set_secp256r1(&HONEST).unwrap()),
            3 => drop(p.signer.set_secp256k1eth(&HONEST).unwrap()),
            _ => p.signer.set_signer(Box::new(Own { key: own_key(42), log: Default::default() })),
        }
    }
}
static PROVIDERS: LazyLock<Vec<CryptoProvider>> = LazyLock::new(|| {
    (0..4)
        .map(|i| {
            let mut p = provider(if i & 2 == 0 { &[200] } else { &[] }, i & 1 == 0);
            signers(&mut p, &[1, 2, 3, 130]);
            p
        })
        .collect()
});
/// A signature by somebody with the algorithm.
fn sign_as(who: &[u8; 32], a: u64, msg: &[u8]) -> (VerifyingKey, Vec<u8>) {
    let s: Box<dyn Signer> = match a {
        1 => Box::new(Secp256k1Signer::new(who).unwrap()),
        2 => Box::new(Secp256r1Signer::new(who).unwrap()),
        3 => Box::new(Secp256k1EthSigner::new(who).unwrap()),
        130 => Box::new(Own { key: own_key(who[0]), log: Default::default() }),
        _ => return (own_key(0), vec![0; 64]),
    };
    (s.verifying_key(), s.sign(msg).unwrap().data)
}

/* ---- fields and their variants: v % 10 names the field, v / 10 the variant ---- */
fn key(a: u64, v: u64) -> VerifyingKey {
    type Keys = HashMap<(u64, u8), VerifyingKey>;
    static CACHE: LazyLock<Mutex<Keys>> = LazyLock::new(Default::default);
    let who = if v / 10 == 1 { ATTACKER } else { HONEST };
    let mut k = CACHE.lock().unwrap().entry((a, who[0])).or_insert_with(|| sign_as(&who, a, &[]).0).clone();
    if v / 10 == 2 {
        k.alg = de(&json!(if a == 2 { 1 } else { 2 }));
    }
    if v / 10 == 3 {
        *k.data.last_mut().unwrap() ^= 1;
    }
    k
}
fn conn(v: u64) -> ConnectionInfo {
    let d = |x: u64| (v / 10 == x) as u32;
    ConnectionInfo {
        time: 1671637529 + d(1) as u64,
        version: if v / 10 == 2 { TlsVersion::V1_3 } else { TlsVersion::V1_2 },
        transcript_length: TranscriptLength { sent: 100 + d(3), received: 200 + d(4) },
    }
}
fn ekey(v: u64) -> ServerEphemKey {
    let mut key = bt(65, 2);
    if v / 10 == 1 {
        key[64] ^= 1;
    }
    if v / 10 == 2 {
        key.pop();
    }
    ServerEphemKey { typ: KeyType::SECP256R1, key }
}
fn cert(v: u64) -> ServerCertCommitment {
    let mut b = bt(32, 3);
    b[31] ^= (v / 10 == 2) as u8;
    de(&json!({"alg": if v / 10 == 1 { 1 } else { 2 }, "value": b}))
}
fn ext(v: u64) -> Extension {
    let k = (v % 10) as u8;
    let (id, value) = match v / 10 {
        0 => (vec![k, 1], vec![k, 2, 3]),
        1 => (vec![k, 9], vec![k, 2, 3]),
        2 => (vec![k, 1], vec![k, 2, 4]),
        _ => (vec![k], vec![1, k, 2, 3]),
    };
    Extension { id, value }
}
fn cm(v: u64) -> TranscriptCommitment {
    let k = (v % 10) as usize;
    let at = k * 10 + (v / 10 == 2) as usize;
    TranscriptCommitment::Hash(PlaintextHash {
        direction: if v / 10 == 1 { Direction::Received } else { Direction::Sent },
        idx: (at..at + 3).into(),
        hash: TypedHash { alg: alg(&json!(if v / 10 == 3 { 1 } else { 2 })), value: Hash::try_from(bt(32, k as u8)).unwrap() },
    })
}
fn field(a: u64, kind: u64, v: u64) -> Value {
    match kind {
        1 => ser(&key(a, v)),
        2 => ser(&conn(v)),
        3 => ser(&ekey(v)),
        4 => ser(&cert(v)),
        5 => ser(&ext(v)),
        _ => ser(&cm(v)),
    }
}
/// Which variant it is.
fn which(a: u64, kind: u64, d: &Value) -> u64 {
    for v in 0..5 {
        for k in 0..10 {
            if field(a, kind, v * 10 + k) == *d {
                return if kind <= 4 { v * 10 } else { v * 10 + k };
            }
        }
    }
    999
}
fn domain(name: &str) -> Vec<u8> {
    blake3::hash(name.as_bytes()).as_bytes()[..16].to_vec()
}
const DOMAINS: [&str; 6] = [
    "VerifyingKey", "tlsn_core::connection::ConnectionInfo", "tlsn_core::connection::ServerEphemKey",
    "ServerCertCommitment", "Extension", "tlsn_core::transcript::TranscriptCommitment",
];
/// The root of a body, by our own means.
fn root_of(h: &dyn HashAlgorithm, body: &Value) -> TypedHash {
    let mut l: Vec<(u64, Hash)> = vec![];
    let mut put = |k: usize, f: &Value| {
        let d = &f["data"];
        let b = match k {
            0 => bcs::to_bytes(&de::<VerifyingKey>(d)),
            1 => bcs::to_bytes(&de::<ConnectionInfo>(d)),
            2 => bcs::to_bytes(&de::<ServerEphemKey>(d)),
            3 => bcs::to_bytes(&de::<ServerCertCommitment>(d)),
            4 => bcs::to_bytes(&de::<Extension>(d)),
            _ => bcs::to_bytes(&de::<TranscriptCommitment>(d)),
        };
        l.push((f["id"].as_u64().unwrap(), h.hash(&[domain(DOMAINS[k]), b.unwrap()].concat())));
    };
    for (k, n) in ["verifying_key", "connection_info", "server_ephemeral_key", "cert_commitment"].iter().enumerate() {
        put(k, &body[n]);
    }
    for f in body["extensions"].as_array().unwrap() {
        put(4, f);
    }
    for f in body["transcript_commitments"].as_array().unwrap() {
        put(5, f);
    }
    l.sort_by_key(|x| x.0);
    let mut t = MerkleTree::new(h.id());
    t.insert(h, l.into_iter().map(|x| x.1).collect());
    t.root()
}

/* ---- adversaries ---- */
fn request_json(s: u64, h: u64, c: u64, exts: &[Extension]) -> Request {
    de(&json!({"signature_alg": s, "hash_alg": h, "server_cert_commitment": cert(c), "extensions": exts}))
}
fn honest(s: u64, h: u64, ne: u64, nc: u64) -> Value {
    type Atts = HashMap<(u64, u64, u64, u64), Value>;
    static CACHE: LazyLock<Mutex<Atts>> = LazyLock::new(Default::default);
    if let Some(v) = CACHE.lock().unwrap().get(&(s, h, ne, nc)) {
        return v.clone();
    }
    let exts: Vec<_> = (1..=ne).map(ext).collect();
    let cfg = AttestationConfig::builder()
        .supported_signature_algs([de::<SignatureAlgId>(&json!(s))])
        .supported_hash_algs([alg(&json!(h))])
        .extension_validator(|_| Ok(()))
        .build()
        .unwrap();
    let mut b = Attestation::builder(&cfg).accept_request(request_json(s, h, 0, &exts)).unwrap();
    b.connection_info(conn(0)).server_ephemeral_key(ekey(0)).transcript_commitments((ne + 1..=ne + nc).map(cm).collect());
    let v = ser(&b.build(&PROVIDERS[0]).unwrap());
    CACHE.lock().unwrap().insert((s, h, ne, nc), v.clone());
    v
}
fn slot(body: &mut Value, k: u64) -> Option<(u64, &mut Value)> {
    let n = body["extensions"].as_array().unwrap().len() as u64;
    Some(match k {
        1 => (1, &mut body["verifying_key"]),
        2 => (2, &mut body["connection_info"]),
        3 => (3, &mut body["server_ephemeral_key"]),
        4 => (4, &mut body["cert_commitment"]),
        k if k <= 4 + n => (5, &mut body["extensions"][k as usize - 5]),
        k => (6, body["transcript_commitments"].get_mut((k - n) as usize - 5)?),
    })
}
fn list(body: &mut Value, k: u64) -> Option<(&mut Vec<Value>, usize)> {
    let n = body["extensions"].as_array().unwrap().len() as u64;
    let m = body["transcript_commitments"].as_array().unwrap().len() as u64;
    match k {
        k if k >= 5 && k < 5 + n => Some((body["extensions"].as_array_mut().unwrap(), k as usize - 5)),
        k if k >= 5 + n && k < 5 + n + m => Some((body["transcript_commitments"].as_array_mut().unwrap(), (k - n) as usize - 5)),
        _ => None,
    }
}
struct Atk {
    a: u64,
    sig: Value,
    hdr: Value,
    body: Value,
    count: i64,
    lack: usize,
}
fn flip(v: &mut Value) {
    *v = json!(v.as_u64().unwrap() ^ 1)
}
fn apply(p: &mut Atk, o: &Value) {
    let g = |k: &str| o[k].as_u64().unwrap_or(0);
    match o["o"].as_str().unwrap() {
        "sig" => {
            let n = p.sig["data"].as_array().unwrap().len();
            flip(&mut p.sig["data"][n / 3]);
        }
        "sigalg" => p.sig["alg"] = o["v"].clone(),
        "hid" => flip(&mut p.hdr["id"][15]),
        "hver" => flip(&mut p.hdr["version"]),
        "hroot" => flip(&mut p.hdr["root"]["value"][31]),
        "halg" => p.hdr["root"]["alg"] = o["v"].clone(),
        "val" => {
            let a = p.a;
            if let Some((kind, f)) = slot(&mut p.body, g("k")) {
                let v = which(a, kind, &f["data"]) % 10 + 10 * g("v");
                f["data"] = field(a, kind, v);
            }
        }
        "id" => {
            if let Some((_, f)) = slot(&mut p.body, g("k")) {
                f["id"] = o["v"].clone();
            }
        }
        "swap" => {
            let (k, j) = (g("k"), g("j"));
            let id = |b: &mut Value, k| slot(b, k).map(|x| x.1["id"].clone());
            if let (Some(x), Some(y)) = (id(&mut p.body, k), id(&mut p.body, j)) {
                slot(&mut p.body, k).unwrap().1["id"] = y;
                slot(&mut p.body, j).unwrap().1["id"] = x;
            }
        }
        "add" => {
            let n = 4 + p.body["extensions"].as_array().unwrap().len() + p.body["transcript_commitments"].as_array().unwrap().len();
            p.body["extensions"].as_array_mut().unwrap().push(json!({"id": n, "data": ext(9)}));
        }
        "dup" => {
            if let Some((l, k)) = list(&mut p.body, g("k")) {
                let f = l[k].clone();
                l.push(f);
            }
        }
        "del" => {
            if let Some((l, k)) = list(&mut p.body, g("k")) {
                l.remove(k);
            }
        }
        "count" => p.count += o["v"].as_i64().unwrap(),
        "reroot" => {
            if let Ok(h) = PROVIDERS[0].hash.get(&alg(&p.hdr["root"]["alg"])) {
                p.hdr["root"] = ser(&root_of(h, &p.body));
            }
        }
        "resign" => {
            let msg = bcs::to_bytes(&de::<Header>(&p.hdr)).unwrap();
            p.sig["data"] = json!(sign_as(&ATTACKER, p.sig["alg"].as_u64().unwrap(), &msg).1);
        }
        "lacksig" => p.lack |= 1,
        "lackhash" => p.lack |= 2,
        x => die(x),
    }
}
fn attack(e: &Value) -> Value {
    let (s, h, ne, nc) = (u(e, "sig") as u64, u(e, "hash") as u64, u(e, "nE") as u64, u(e, "nC") as u64);
    let att = honest(s, h, ne, nc);
    let mut p = Atk { a: s, sig: att["signature"].clone(), hdr: att["header"].clone(), body: att["body"].clone(), count: 0, lack: 0 };
    for o in e["ops"].as_array().unwrap() {
        apply(&mut p, o);
    }
    let prov = &PROVIDERS[p.lack];
    let forged = || de::<Attestation>(&json!({"signature": p.sig, "header": p.hdr, "body": p.body}));
    match e["ev"].as_str().unwrap() {
        "validate" => {
            let exts: Vec<_> = e["rexts"].as_array().unwrap().iter().map(|x| ext(x.as_u64().unwrap())).collect();
            let r = request_json(u(e, "rsig") as u64, u(e, "rhash") as u64, u(e, "rcert") as u64, &exts);
            match guard(|| sent(&r).validate(&sent(&forged()), prov).is_ok()) {
                Some(ok) => json!({"ok": ok}),
                None => json!({"panic": true}),
            }
        }
        "makes" => match guard(|| forged().presentation_builder(prov).build().is_ok()) {
            Some(ok) => json!({"ok": ok}),
            None => json!({"panic": true}),
        },
        _ => {
            let mut w = ser(&de::<Attestation>(&att).presentation_builder(&PROVIDERS[0]).build().unwrap());
            let x = &mut w["attestation"];
            x["signature"] = p.sig;
            x["header"] = p.hdr;
            x["body"]["body"] = p.body;
            let c = &mut x["body"]["proof"]["leaf_count"];
            *c = json!(c.as_i64().unwrap() + p.count);
            let w: Presentation = de(&w);
            match guard(|| {
                let shown = w.verifying_key().clone();
                sent(&w).verify(prov).map(|o| (o, shown))
            }) {
                None => json!({"panic": true}),
                Some(Err(_)) => json!({"ok": false}),
                Some(Ok((o, shown))) => {
                    let a = ser(&o.attestation);
                    let b = &a["body"];
                    let n = |k: &str| b[k].as_array().unwrap().len();
                    if o.attestation.body.verifying_key() != &shown || ser(&o.connection_info) != b["connection_info"]["data"] || o.server_name.is_some() || o.transcript.is_some() {
                        return json!({"differ": true});
                    }
                    json!({"ok": true, "key": which(s, 1, &ser(&shown)), "conn": which(s, 2, &ser(&o.connection_info)),
                           "exts": o.extensions.iter().map(|x| which(s, 5, &ser(x))).collect::<Vec<_>>(),
                           "n": 4 + n("extensions") + n("transcript_commitments")})
                }
            }
        }
    }
}

/* ---- presentations with identity and transcript ---- */
fn pres(e: &Value) -> Value {
    let t = Transcript::new(*b"abcdef", *b"wxyz");
    let fx = ConnectionFixture::tlsnotary(t.length());
    let (id, tr) = (e["id"].as_str().unwrap(), e["tr"].as_str().unwrap());
    let (s, h) = (e["sig"].clone(), e["hash"].clone());
    let prov = &PROVIDERS[0];
    let hasher = prov.hash.get(&alg(&json!(2))).unwrap();
    let commit = |a: usize, b: usize, bl: u64| {
        let blinder = crate::disclose::blinder(bl);
        (
            PlaintextHash { direction: Direction::Sent, idx: (a..b).into(), hash: hash_plaintext(hasher, &t.sent()[a..b], &blinder) },
            PlaintextHashSecret { direction: Direction::Sent, idx: (a..b).into(), alg: alg(&json!(2)), blinder },
        )
    };
    let (c1, s1) = commit(0, 3, 1);
    let (c2, s2) = commit(3, 6, 2);
    let mut cfg = RequestConfig::builder();
    cfg.signature_alg(de(&s)).hash_alg(alg(&h));
    let exts: Vec<_> = (1..=u(e, "nE") as u64).map(ext).collect();
    for x in &exts {
        cfg.extension(x.clone());
    }
    let cfg = cfg.build().unwrap();
    let shown = match tr {
        "data" => Transcript::new(*b"abXdef", *b"wxyz"),
        "cut" => Transcript::new(*b"abcdefg", *b"wxyz"),
        _ => t.clone(),
    };
    let secrets = match tr {
        "blind" => vec![PlaintextHashSecret { blinder: crate::disclose::blinder(9), ..s1.clone() }, s2],
        "other" => vec![commit(0, 6, 3).1],
        _ => vec![s1, s2],
    };
    let mut b = Request::builder(&cfg);
    b.server_name(fx.server_name.clone())
        .handshake_data(fx.server_cert_data.clone())
        .transcript(shown)
        .transcript_commitments(secrets.into_iter().map(TranscriptSecret::Hash).collect(), vec![TranscriptCommitment::Hash(c1.clone()), TranscriptCommitment::Hash(c2.clone())]);
    let (req, sec) = b.build(prov).unwrap();
    let sec: Secrets = sent(&sec);
    let acfg = AttestationConfig::builder()
        .supported_signature_algs([de::<SignatureAlgId>(&s)])
        .supported_hash_algs([alg(&h)])
        .extension_validator(|_| Ok(()))
        .build()
        .unwrap();
    let mut info = fx.connection_info.clone();
    if id == "early" {
        info.time = 1_000_000_000;
    }
    if tr == "len" {
        info.transcript_length.received += 1;
    }
    let mut ek = fx.server_ephemeral_key().clone();
    if id == "ekey" {
        ek.key[30] ^= 4;
    }
    let mut ab = Attestation::builder(&acfg).accept_request(sent(&req)).unwrap();
    ab.connection_info(info.clone()).server_ephemeral_key(ek).transcript_commitments(vec![TranscriptCommitment::Hash(c1), TranscriptCommitment::Hash(c2)]);
    let att = ab.build(prov).unwrap();
    req.validate(&att, prov).unwrap();
    let mut pb = att.presentation_builder(prov);
    match id {
        "" => {}
        "name" => {
            let mut w = ser(&sec.identity_proof());
            w["name"] = ser(&ServerName::Dns(DnsName::try_from("example.org").unwrap()));
            pb.identity_proof(de(&w));
        }
        "opening" => {
            let o = ConnectionFixture::appliedzkp(t.length());
            let mut b = Request::builder(&cfg);
            b.server_name(o.server_name).handshake_data(o.server_cert_data).transcript(t.clone());
            pb.identity_proof(b.build(prov).unwrap().1.identity_proof());
        }
        _ => {
            pb.identity_proof(sec.identity_proof());
        }
    }
    if !tr.is_empty() {
        let mut tb = sec.transcript_proof_builder();
        let r = match tr {
            "part" => 0..3,
            _ => 0..6,
        };
        tb.reveal(&r, Direction::Sent).unwrap();
        pb.transcript_proof(tb.build().unwrap());
    }
    let p = pb.build().unwrap();
    let mut vp = provider(&[200], true);
    if id == "noca" {
        let fx: Value = serde_json::from_str(include_str!("../fixtures/algs.json")).unwrap();
        let s = fx["ca"].as_str().unwrap();
        let ca = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
        vp.cert = ServerCertVerifier::new(&RootCertStore { roots: vec![CertificateDer(ca)] }).unwrap();
    }
    match guard(|| sent(&p).verify(&vp)) {
        None => json!({"panic": true}),
        Some(Err(_)) => json!({"ok": false}),
        Some(Ok(o)) => {
            let shown = o.transcript.as_ref().map(|x| x.sent_authed().iter().flatten().count()).unwrap_or(0);
            let same = o.transcript.as_ref().map(|x| x.sent_unsafe()[..shown] == t.sent()[..shown] && x.received_authed().iter().flatten().count() == 0 && x.len_sent() == 6 && x.len_received() == 4);
            json!({"ok": true, "name": o.server_name.as_ref() == Some(&fx.server_name), "tr": o.transcript.is_some(), "shown": shown,
                   "exts": o.extensions.iter().zip(&exts).filter(|(a, b)| a == b).count() + 100 * (o.extensions.len() != exts.len()) as usize,
                   "key": o.attestation.body.verifying_key() == &key(s.as_u64().unwrap(), 0), "conn": o.connection_info == info,
                   "same": same.unwrap_or(true) && (o.server_name.is_some() == (id == "good"))})
        }
    }
}

/* ---- bytes ---- */
fn limbs(v: &Value) -> u64 {
    v.as_array().unwrap().iter().rev().fold(0, |a, x| a << 16 | x.as_u64().unwrap())
}
fn dom_of(p: &[u8]) -> String {
    DOMAINS.iter().copied().chain(["ServerCertOpening"]).find(|n| domain(n) == p).unwrap_or("?").to_string()
}
fn commit_json(c: &Value) -> TranscriptCommitment {
    let idx: Vec<std::ops::Range<usize>> = c["x"].as_array().unwrap().iter().map(|r| r[0].as_u64().unwrap() as usize..r[1].as_u64().unwrap() as usize).collect();
    TranscriptCommitment::Hash(PlaintextHash {
        direction: if c["d"] == "s" { Direction::Sent } else { Direction::Received },
        idx: idx.into(),
        hash: de(&c["hash"]),
    })
}
fn root(e: &Value) -> Value {
    let log: HashLog = Default::default();
    let signed: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
    let mut p = provider(&[200], true);
    let a = alg(&e["alg"]);
    p.hash.set_algorithm(a, Box::new(Rec { id: a, log: log.clone() }));
    p.signer.set_signer(Box::new(Own { key: de(&e["key"]), log: signed.clone() }));
    let exts: Vec<Extension> = e["exts"].as_array().unwrap().iter().map(de).collect();
    let req: Request = de(&json!({"signature_alg": 130, "hash_alg": e["alg"], "server_cert_commitment": e["cert"], "extensions": exts}));
    let cfg = AttestationConfig::builder().supported_signature_algs([SignatureAlgId::new(130)]).supported_hash_algs([a]).extension_validator(|_| Ok(())).build().unwrap();
    let mut b = Attestation::builder(&cfg).accept_request(req).unwrap();
    let c = &e["conn"];
    b.connection_info(ConnectionInfo {
        time: limbs(&c["time"]),
        version: if c["ver"] == "12" { TlsVersion::V1_2 } else { TlsVersion::V1_3 },
        transcript_length: TranscriptLength { sent: limbs(&c["sent"]) as u32, received: limbs(&c["recv"]) as u32 },
    })
    .server_ephemeral_key(ServerEphemKey { typ: KeyType::SECP256R1, key: bytes_of(&e["ekey"]) })
    .transcript_commitments(e["cms"].as_array().unwrap().iter().map(commit_json).collect());
    let Some(Ok(att)) = guard(|| b.build(&p)) else { return json!({"failed": true}) };
    let log = log.lock().unwrap();
    let mut leaves = vec![];
    fn walk(h: &Hash, log: &[(Option<Vec<u8>>, Vec<u8>, Hash)], leaves: &mut Vec<Value>) -> Value {
        match log.iter().find(|x| x.2 == *h) {
            Some((Some(p), d, _)) => {
                leaves.push(json!({"dom": dom_of(p), "b": d}));
                json!([leaves.len()])
            }
            Some((None, d, _)) => {
                let half = |b: &[u8]| Hash::try_from(b.to_vec()).unwrap();
                let m = d.len() / 2;
                let l = walk(&half(&d[..m]), log, leaves);
                let r = walk(&half(&d[m..]), log, leaves);
                json!([l, r])
            }
            None => json!([0]),
        }
    }
    let w = ser(&att);
    let shape = walk(&att.header.root.value, &log, &mut leaves);
    let signed = signed.lock().unwrap();
    if signed.len() != 1 || att.header.root.alg != a {
        return json!({"differ": true});
    }
    json!({"leaves": leaves, "shape": shape, "signed": signed[0], "id": w["header"]["id"], "root": att.header.root.value.as_bytes()})
}
fn open(e: &Value) -> Value {
    let log: HashLog = Default::default();
    let a = alg(&e["alg"]);
    let have = |k: &str| e["have"][k] == true;
    let mut p = CryptoProvider::default();
    if a.as_u8() < 128 || have("hash") {
        p.hash.set_algorithm(a, Box::new(Rec { id: a, log: log.clone() }));
    }
    let hs = &e["hs"];
    let arr = |k: &str| <[u8; 32]>::try_from(bytes_of(&hs[k])).unwrap();
    let data = HandshakeData {
        certs: hs["certs"].as_array().unwrap().iter().map(|c| CertificateDer(bytes_of(c))).collect(),
        sig: ServerSignature { alg: de(&json!(hs["alg"].as_str().unwrap().to_lowercase())), sig: bytes_of(&hs["sig"]) },
        binding: CertBinding::V1_2(CertBindingV1_2 {
            client_random: arr("cr"),
            server_random: arr("sr"),
            server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: bytes_of(&hs["key"]) },
        }),
    };
    let mut cfg = RequestConfig::builder();
    cfg.signature_alg(de(&e["sig"])).hash_alg(a);
    for x in e["exts"].as_array().unwrap() {
        cfg.extension(de(x));
    }
    let cfg = cfg.build().unwrap();
    let nm = ServerName::Dns(DnsName::try_from("a.test").unwrap());
    let tr = Transcript::new(*b"abc", *b"de");
    let make = || {
        let mut b = Request::builder(&cfg);
        if have("name") {
            b.server_name(nm.clone());
        }
        if have("hs") {
            b.handshake_data(data.clone());
        }
        if have("tr") {
            b.transcript(tr.clone());
        }
        b.build(&p).ok()
    };
    let (Some((r1, s1)), Some((r2, _))) = (make(), make()) else { return json!({"ok": false}) };
    let (w1, w2, log) = (ser(&r1), ser(&r2), log.lock().unwrap());
    if log.len() != 2 {
        return json!({"calls": log.len()});
    }
    let (pre, d, v) = &log[0];
    let cut = d.len().saturating_sub(16);
    let c = &w1["server_cert_commitment"];
    let s1: Secrets = sent(&s1);
    json!({"ok": true, "dom": dom_of(pre.as_deref().unwrap_or(&[])), "b": d[..cut], "blind": d.len() - cut, "alg": c["alg"], "value": bytes_of(&c["value"]) == v.as_bytes(),
           "fresh": d[cut..] != log[1].1[cut..] && c != &w2["server_cert_commitment"], "sig": w1["signature_alg"], "exts": w1["extensions"],
           "name": s1.server_name() == &nm, "tr": s1.transcript().sent() == b"abc" && s1.transcript().received() == b"de"})
}
fn ident(e: &Value) -> Value {
    let f: Vec<&str> = e["f"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let has = |x: &str| f.contains(&x);
    let t = Transcript::new(*b"abc", *b"de");
    let fx = ConnectionFixture::tlsnotary(t.length());
    let mut cfg = RequestConfig::builder();
    cfg.hash_alg(alg(&e["alg"]));
    let cfg = cfg.build().unwrap();
    let make = |fx: &ConnectionFixture| {
        let mut b = Request::builder(&cfg);
        b.server_name(fx.server_name.clone()).handshake_data(fx.server_cert_data.clone()).transcript(t.clone());
        b.build(&PROVIDERS[0]).unwrap()
    };
    let (r, s) = make(&fx);
    let mut proof = s.identity_proof();
    let mut c = ser(&r)["server_cert_commitment"].clone();
    if has("other") {
        proof = make(&ConnectionFixture::appliedzkp(t.length())).1.identity_proof();
        let mut w = ser(&proof);
        w["name"] = ser(&fx.server_name);
        proof = de(&w);
    }
    if has("fresh") {
        c = ser(&make(&fx).0)["server_cert_commitment"].clone();
    }
    if has("value") {
        flip(&mut c["value"][0]);
    }
    if has("alg") {
        c["alg"] = json!(if e["alg"] == 1 { 2 } else { 1 });
    }
    if has("nohash") {
        c["alg"] = json!(201);
    }
    if has("name") {
        let mut w = ser(&proof);
        w["name"] = ser(&ServerName::Dns(DnsName::try_from("www.example.org").unwrap()));
        proof = de(&w);
    }
    let time = if has("early") { 1_000_000_000 } else if has("late") { 4_000_000_000 } else { fx.connection_info.time };
    let mut ek = fx.server_ephemeral_key().clone();
    if has("ekey") {
        ek.key[64] ^= 1;
    }
    static NOCA: LazyLock<CryptoProvider> = LazyLock::new(|| {
        let mut p = provider(&[200], true);
        p.cert = ServerCertVerifier::new(&RootCertStore { roots: vec![] }).unwrap();
        p
    });
    let prov = if has("noca") { &*NOCA } else { &PROVIDERS[0] };
    let proof: ServerIdentityProof = sent(&proof);
    match guard(|| proof.verify_with_provider(prov, time, &ek, &de(&c))) {
        None => json!({"panic": true}),
        Some(r) => json!({"ok": r.map(|n| n == fx.server_name).unwrap_or(false)}),
    }
}

/* ---- notaries ---- */
fn nums(v: &Value) -> Vec<u64> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
}
fn notary(e: &Value) -> Value {
    let mut cb = AttestationConfig::builder();
    cb.supported_signature_algs(nums(&e["sup"]["sig"]).iter().map(|a| de(&json!(a))).collect::<Vec<SignatureAlgId>>());
    let sh = nums(&e["sup"]["hash"]);
    if !sh.is_empty() {
        cb.supported_hash_algs(sh.iter().map(|a| alg(&json!(a))).collect::<Vec<_>>());
    }
    match e["val"].as_str().unwrap() {
        "any" => drop(cb.extension_validator(|_| Ok(()))),
        "one" => drop(cb.extension_validator(|x| if x.iter().all(|x| x.id == [1]) { Ok(()) } else { Err(InvalidExtension::new("no")) })),
        _ => {}
    }
    let cfg = cb.build().unwrap();
    let mut p = provider(&nums(&e["prov"]["hash"]), true);
    signers(&mut p, &nums(&e["prov"]["sig"]));
    let q = &e["req"];
    let exts: Vec<Extension> = q["exts"].as_array().unwrap().iter().map(de).collect();
    let req: Request = de(&json!({"signature_alg": q["sig"], "hash_alg": q["hash"], "server_cert_commitment": cert(0), "extensions": exts}));
    let make = || {
        let Ok(mut b) = Attestation::builder(&cfg).accept_request(req.clone()) else { return Err("accept") };
        for c in nums(&e["conn"]) {
            b.connection_info(ConnectionInfo { time: c, ..conn(0) });
        }
        for k in nums(&e["ekey"]) {
            b.server_ephemeral_key(ServerEphemKey { typ: KeyType::SECP256R1, key: vec![k as u8; 65] });
        }
        for x in e["more"].as_array().unwrap() {
            b.extension(de(x));
        }
        for l in e["cms"].as_array().unwrap() {
            b.transcript_commitments(nums(l).into_iter().map(cm).collect());
        }
        b.build(&p).map_err(|_| "build")
    };
    let (a1, a2) = match (guard(make), guard(make)) {
        (Some(Ok(a)), Some(Ok(b))) => (a, b),
        (Some(Err(x)), Some(Err(y))) if x == y => return json!({"at": x}),
        _ => return json!({"at": "panic"}),
    };
    let w = ser(&a1);
    let b = &w["body"];
    let prover = provider(&[200, 201], true);
    let valid = req.validate(&sent(&a1), &prover).is_ok()
        && a1.presentation_builder(&prover).build().map(|x| x.verify(&prover).is_ok()).unwrap_or(false);
    let vk = &b["verifying_key"]["data"];
    let rs = q["sig"].as_u64().unwrap();
    json!({"at": "ok", "sig": w["signature"]["alg"], "signer": if *vk == ser(&key(rs, 0)) { rs } else { 0 }, "hash": w["header"]["root"]["alg"],
           "version": w["header"]["version"], "conn": b["connection_info"]["data"]["time"], "ekey": b["server_ephemeral_key"]["data"]["key"][0],
           "cert": b["cert_commitment"]["data"] == ser(&cert(0)), "exts": a1.body.extensions().map(ser).collect::<Vec<_>>(),
           "cms": b["transcript_commitments"].as_array().unwrap().iter().map(|f| which(0, 6, &f["data"])).collect::<Vec<_>>(),
           "fresh": a1.header.id != a2.header.id, "valid": valid})
}

/* ---- signatures ---- */
fn sign(e: &Value, r: &mut Rng) -> Value {
    let seed = |n: u64| [(n * 31 + 1) as u8; 32];
    let a = u(e, "alg") as u64;
    let msg = r.bytes(e["ml"].as_u64().unwrap_or(40) as usize);
    let (vk, mut sig) = sign_as(&seed(e["by"]["n"].as_u64().unwrap()), a, &msg);
    let n = sig.len();
    // the recovery id names the key that signed
    let v = a != 3 || {
        let c = ec::k256();
        let mut k = tiny_keccak::Keccak::v256();
        let mut h = vec![0; 32];
        use tiny_keccak::Hasher as _;
        k.update(&msg);
        k.finalize(&mut h);
        let b = ec::BigUint::from_bytes_be;
        let (rr, s, z) = (b(&sig[..32]), b(&sig[32..64]), b(&h) % &c.n);
        let pt = c.decode(&[&[sig[64] - 27 + 2][..], &sig[..32]].concat());
        let ri = rr.modpow(&(&c.n - 2u32), &c.n);
        let q = pt.and_then(|p| {
            let (x, y) = c.mul(&(&s * &ri % &c.n), &p)?;
            let (gx, gy) = c.mul(&(&z * &ri % &c.n), &c.g)?;
            c.sub(&(x, y), &(gx, gy))
        });
        (sig[64] == 27 || sig[64] == 28) && q.map(|q| c.encode(&q, true) == vk.data).unwrap_or(false)
    };
    match e["t"].as_str().unwrap() {
        "flip" => {
            let i = r.below(64);
            sig[i] ^= 1 << r.below(8);
        }
        "short" => drop(sig.pop()),
        "long" => sig.push(0),
        "zero" => sig[..64].fill(0),
        _ => {}
    }
    let shown = &e["key"];
    let ka = if shown["kind"] == "p256" { 2 } else { 1 };
    let mut k = sign_as(&seed(shown["n"].as_u64().unwrap()), ka, &[]).0;
    let as_ = shown["as"].as_str().unwrap();
    k.alg = match as_ {
        "k256" => KeyAlgId::K256,
        "p256" => KeyAlgId::P256,
        _ => KeyAlgId::new(200),
    };
    if shown["t"] == "bad" {
        let i = r.below(k.data.len());
        k.data[i] ^= 8;
    }
    let mut m = msg.clone();
    if e["same"] == false {
        if m.is_empty() || r.chance(1, 3) {
            m.push(0);
        } else {
            let i = r.below(m.len());
            m[i] ^= 1 << r.below(8);
        }
    }
    let ver: Box<dyn SignatureVerifier> = match u(e, "ver") {
        1 => Box::new(Secp256k1Verifier),
        2 => Box::new(Secp256r1Verifier),
        _ => Box::new(Secp256k1EthVerifier),
    };
    if ver.alg_id().as_u8() as usize != u(e, "ver") {
        return json!({"differ": true});
    }
    let kind = if vk.alg == KeyAlgId::K256 { "k256" } else if vk.alg == KeyAlgId::P256 { "p256" } else { "?" };
    match guard(|| ver.verify(&k, &m, &sig).is_ok()) {
        None => json!({"panic": true}),
        Some(ok) => json!({"ok": ok, "n": n, "v": v, "as": a, "kind": kind}),
    }
}
fn skey(e: &Value) -> Value {
    let c = if e["alg"] == 2 { ec::p256() } else { ec::k256() };
    let b = match e["k"].as_str().unwrap() {
        "ok" => ec::be(&(&c.n - 1u32)).to_vec(),
        "zero" => vec![0; 32],
        "order" => ec::be(&c.n).to_vec(),
        "big" => vec![255; 32],
        "short" => vec![1; 31],
        "long" => vec![1; 33],
        _ => vec![],
    };
    let mut p = SignerProvider::default();
    let ok = match u(e, "alg") {
        1 => p.set_secp256k1(&b).is_ok(),
        2 => p.set_secp256r1(&b).is_ok(),
        _ => p.set_secp256k1eth(&b).is_ok(),
    };
    let l: Vec<u8> = p.supported_algs().map(|a| a.as_u8()).collect();
    if l != if ok { vec![u(e, "alg") as u8] } else { vec![] } {
        return json!({"differ": true});
    }
    json!({"ok": ok})
}
fn exec(e: &Value, r: &mut Rng) -> Value {
    match e["ev"].as_str().unwrap() {
        "root" => root(e),
        "open" => open(e),
        "ident" => ident(e),
        "notary" => notary(e),
        "pres" => pres(e),
        "sign" => sign(e, r),
        "skey" => skey(e),
        "ids" => {
            let n = u(e, "id") as u8;
            json!({"key": guard(|| KeyAlgId::new(n)).map(|k| k.as_u8() == n).unwrap_or(false), "sig": guard(|| SignatureAlgId::new(n)).map(|k| k.as_u8() == n).unwrap_or(false)})
        }
        _ => attack(e),
    }
}

/* ---- random histories ---- */
fn rop(r: &mut Rng, n: usize, verify: bool) -> Value {
    match r.below(if verify { 15 } else { 14 }) {
        0 => json!({"o": "sig"}),
        1 => json!({"o": "sigalg", "v": *r.pick(&[1, 2, 3, 130, 131])}),
        2 => json!({"o": *r.pick(&["hid", "hver", "hroot"])}),
        3 => json!({"o": "halg", "v": *r.pick(&[1, 2, 3, 200, 201])}),
        4 | 5 | 6 => {
            let k = r.range(1, n);
            let max = match k {
                2 => 4,
                3 | 4 => 2,
                _ => 3,
            };
            json!({"o": "val", "k": k, "v": r.range(0, max)})
        }
        7 => json!({"o": "id", "k": r.range(1, n), "v": r.range(0, n)}),
        8 => {
            let k = r.range(1, n);
            json!({"o": "swap", "k": k, "j": r.range(1, n)})
        }
        9 => json!({"o": *r.pick(&["add", "reroot", "resign"])}),
        10 => json!({"o": "dup", "k": r.range(5, n + 1)}),
        11 => json!({"o": "del", "k": r.range(5, n + 1)}),
        12 => json!({"o": *r.pick(&["reroot", "resign"])}),
        13 => json!({"o": *r.pick(&["lacksig", "lackhash"])}),
        _ => json!({"o": "count", "v": *r.pick(&[-1, 1])}),
    }
}
fn rattack(r: &mut Rng, kinds: &[&str]) -> Value {
    let ev = *r.pick(kinds);
    let (ne, nc) = (r.range(0, 4), r.range(0, 4));
    let n = 4 + ne + nc;
    let ops: Vec<Value> = (0..r.range(0, 4)).map(|_| rop(r, n, ev == "verify")).collect();
    // dup and val on a field beyond 9 of a kind would be ambiguous
    let s = *r.pick(&[130, 130, 130, 1, 2, 3]);
    let h = *r.pick(&[1, 2, 3, 200]);
    let mut e = json!({"ev": ev, "sig": s, "hash": h, "nE": ne, "nC": nc, "ops": ops});
    if ev == "validate" {
        e["rsig"] = json!(if r.chance(1, 8) { *r.pick(&[1, 2, 3, 130, 131]) } else { s });
        e["rhash"] = json!(if r.chance(1, 8) { *r.pick(&[1, 2, 3, 200]) } else { h });
        e["rcert"] = json!(if r.chance(1, 8) { *r.pick(&[10, 20]) } else { 0 });
        let mut x: Vec<u64> = (1..=ne as u64).filter(|_| r.chance(7, 8)).collect();
        if r.chance(1, 8) {
            x.push(*r.pick(&[1, 9, 11, 22, 5]));
        }
        e["rexts"] = json!(x);
    }
    e
}
fn rroot(r: &mut Rng) -> Value {
    let len = |r: &mut Rng| match r.below(8) {
        0 => r.range(120, 140),
        1 => r.range(250, 270),
        _ => r.below(40),
    };
    let mut b = |r: &mut Rng| {
        let n = len(r);
        r.bytes(n)
    };
    let mut l = |r: &mut Rng, n: usize| (0..n).map(|_| if r.chance(1, 3) { 0 } else { r.below(65536) }).collect::<Vec<_>>();
    let exts: Vec<Value> = (0..r.below(5)).map(|_| json!({"id": b(r), "value": b(r)})).collect();
    let cms: Vec<Value> = (0..r.below(5))
        .map(|_| {
            let mut x = vec![];
            let mut at = 0;
            for _ in 0..r.below(4) {
                let a = at + r.range(1, 400);
                at = a + r.range(1, 70000);
                x.push([a, at]);
            }
            let n = r.below(65);
            json!({"d": *r.pick(&["s", "r"]), "x": x, "hash": {"alg": r.below(256), "value": r.bytes(n)}})
        })
        .collect();
    let n = r.below(65);
    json!({"ev": "root", "alg": *r.pick(&[1, 2, 3, 200]), "key": {"alg": r.below(256), "data": b(r)},
           "conn": {"time": l(r, 4), "ver": *r.pick(&["12", "13"]), "sent": l(r, 2), "recv": l(r, 2)}, "ekey": b(r),
           "cert": {"alg": r.below(256), "value": r.bytes(n)}, "exts": exts, "cms": cms})
}
fn rnotary(r: &mut Rng) -> Value {
    let some = |r: &mut Rng, xs: &[u64]| xs.iter().copied().filter(|_| r.chance(3, 4)).collect::<Vec<_>>();
    let x = |r: &mut Rng| json!({"id": if r.chance(3, 4) { vec![1] } else { vec![2, 2] }, "value": [r.below(3)]});
    let exts: Vec<Value> = (0..r.below(4)).map(|_| x(r)).collect();
    let more: Vec<Value> = (0..r.below(3)).map(|_| x(r)).collect();
    let cms: Vec<Vec<usize>> = (0..r.below(3)).map(|_| (0..r.below(5)).map(|_| r.range(1, 9)).collect()).collect();
    let lo = if r.chance(1, 6) { 0 } else { 1 };
    let conn: Vec<usize> = (0..r.range(lo, 3)).map(|_| r.below(999)).collect();
    let lo = if r.chance(1, 6) { 0 } else { 1 };
    let ek: Vec<usize> = (0..r.range(lo, 3)).map(|_| r.below(255)).collect();
    json!({"ev": "notary", "sup": {"sig": some(r, &[130, 1, 2, 3]), "hash": if r.chance(1, 3) { vec![] } else { some(r, &[1, 2, 3, 200]) }},
           "val": *r.pick(&["any", "any", "one", "none"]), "prov": {"sig": some(r, &[1, 2, 3, 130]), "hash": some(r, &[200])},
           "req": {"sig": *r.pick(&[130, 130, 1, 2, 3]), "hash": *r.pick(&[1, 2, 3, 200]), "exts": exts},
           "conn": conn, "ekey": ek, "more": more, "cms": cms})
}
fn rsign(r: &mut Rng) -> Value {
    let a = *r.pick(&[1u64, 2, 3]);
    let kind = if a == 2 { "p256" } else { "k256" };
    let n = r.range(1, 4);
    let mut k = json!({"kind": kind, "n": n, "as": kind, "t": ""});
    if r.chance(1, 4) {
        k["n"] = json!(r.range(1, 4));
    }
    if r.chance(1, 6) {
        k["as"] = json!(*r.pick(&["k256", "p256", "own"]));
    }
    let t = if r.chance(1, 3) { *r.pick(&["flip", "short", "long", "zero"]) } else { "" };
    json!({"ev": "sign", "by": {"kind": kind, "n": n}, "alg": a, "key": k, "ver": if r.chance(1, 5) { r.range(1, 3) as u64 } else { a }, "same": r.chance(4, 5), "t": t, "ml": r.below(200)})
}
pub fn main(a: &[String]) {
    let mut r = Rng::new(a[1].parse().unwrap());
    let mut out = Out::new(&a[3]);
    let mut evs = vec![];
    let mut go = |e: &Value, r: &mut Rng, out: &mut Out| {
        let mut e = e.clone();
        e["out"] = exec(&e, r);
        evs.push(e);
        if evs.len() == 8 {
            out.run(&evs);
            evs.clear();
        }
    };
    for e in read_scenarios(&a[0]) {
        go(&e, &mut r, &mut out);
    }
    for _ in 0..a[2].parse::<usize>().unwrap() {
        let e = match a[4].as_str() {
            "root" => rroot(&mut r),
            "notary" => rnotary(&mut r),
            "sign" => rsign(&mut r),
            "validate" => rattack(&mut r, &["validate", "validate", "makes"]),
            "verify" => rattack(&mut r, &["verify"]),
            x => die(x),
        };
        go(&e, &mut r, &mut out);
    }
    if !evs.is_empty() {
        out.run(&evs);
    }
}
