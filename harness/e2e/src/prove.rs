//! Rounds of proving over a committed connection.
use super::{duo, util::*};
use crate::{msg::ProveRequestMsg, prover, verifier};
use ctr::{
    Ctr32BE,
    cipher::{KeyIvInit, StreamCipher},
};
use mpc_tls::SessionKeys;
use mpz_common::Context;
use mpz_ideal_vm::IdealVm;
use mpz_memory_core::{Array, MemoryExt, ViewExt, binary::U8};
use rangeset::set::RangeSet;
use serde_json::{Value, json};
use std::{cell::RefCell, rc::Rc};
use tlsn_core::{
    config::{prove::ProveConfig, verifier::VerifierConfig},
    connection::{CertBinding, DnsName, HandshakeData, ServerName, TlsVersion, TranscriptLength},
    fixtures::ConnectionFixture,
    hash::HashAlgId,
    transcript::*,
    webpki::{CertificateDer, RootCertStore},
};

const D: [&str; 2] = ["s", "r"];
pub fn dir(v: &Value) -> Direction {
    if v == "s" { Direction::Sent } else { Direction::Received }
}
pub fn sd(d: Direction) -> &'static str {
    if d == Direction::Sent { "s" } else { "r" }
}
/// Ranges [[a, b], ..] with b exclusive.
pub fn set(v: &Value) -> RangeSet<usize> {
    let mut s = RangeSet::default();
    for r in v.as_array().unwrap() {
        let (a, b) = (r[0].as_u64().unwrap() as usize, r[1].as_u64().unwrap() as usize);
        if a < b {
            s.union_mut(&(a..b));
        }
    }
    s
}
pub fn asc(s: &RangeSet<usize>) -> Vec<Value> {
    s.iter().map(|r| json!([r.start, r.end])).collect()
}
pub fn hash(alg: HashAlgId, data: &[u8]) -> Vec<u8> {
    match alg {
        HashAlgId::SHA256 => ring::digest::digest(&ring::digest::SHA256, data).as_ref().to_vec(),
        HashAlgId::BLAKE3 => blake3::hash(data).as_bytes().to_vec(),
        _ => vec![],
    }
}
fn algo(v: &Value) -> HashAlgId {
    match v.as_str().unwrap() {
        "sha256" => HashAlgId::SHA256,
        "blake3" => HashAlgId::BLAKE3,
        "keccak" => HashAlgId::KECCAK256,
        _ => HashAlgId::new(77),
    }
}
fn an(a: HashAlgId) -> &'static str {
    if a == HashAlgId::SHA256 {
        "sha256"
    } else if a == HashAlgId::BLAKE3 {
        "blake3"
    } else if a == HashAlgId::KECCAK256 {
        "keccak"
    } else {
        "other"
    }
}
pub struct Keys {
    pub key: [u8; 16],
    pub iv: [u8; 4],
}
/// A record of the type, and the same with its plaintext.
pub fn record(seq: u64, typ: ContentType, pt: &[u8], k: &Keys, r: &mut Rng) -> (Record, Record) {
    let nonce = r.bytes(8);
    let mut ct = pt.to_vec();
    let full = [&k.iv[..], &nonce, &[0, 0, 0, 2]].concat();
    Ctr32BE::<aes::Aes128>::new(&k.key.into(), &<[u8; 16]>::try_from(full).unwrap().into()).apply_keystream(&mut ct);
    let mk = |p: Option<Vec<u8>>| Record { seq, typ, plaintext: p, explicit_nonce: nonce.clone(), ciphertext: ct.clone(), tag: Some(vec![0; 16]) };
    (mk(None), mk(Some(pt.to_vec())))
}
fn alloc(vm: &mut IdealVm, k: &[u8], prover: bool) -> (Array<U8, 16>, Array<U8, 4>) {
    let a: Array<U8, 16> = vm.alloc().unwrap();
    let b: Array<U8, 4> = vm.alloc().unwrap();
    if prover {
        vm.mark_private(a).unwrap();
        vm.mark_private(b).unwrap();
        vm.assign(a, <[u8; 16]>::try_from(&k[..16]).unwrap()).unwrap();
        vm.assign(b, <[u8; 4]>::try_from(&k[16..]).unwrap()).unwrap();
    } else {
        vm.mark_blind(a).unwrap();
        vm.mark_blind(b).unwrap();
    }
    vm.commit(a).unwrap();
    vm.commit(b).unwrap();
    (a, b)
}
fn keys(vm: &mut IdealVm, c: &[u8], s: &[u8], prover: bool) -> SessionKeys {
    let (client_write_key, client_write_iv) = alloc(vm, c, prover);
    let (server_write_key, server_write_iv) = alloc(vm, s, prover);
    let (server_write_mac_key, _) = alloc(vm, s, prover);
    SessionKeys { client_write_key, client_write_iv, server_write_key, server_write_iv, server_write_mac_key }
}
pub fn mux() -> tlsn_mux::Handle {
    let (a, _) = futures_plex::duplex(64);
    tlsn_mux::Connection::new(a, Default::default()).handle().unwrap()
}
fn err(e: &crate::Error) -> String {
    let k = if e.is_user() {
        "user"
    } else if e.is_io() {
        "io"
    } else if e.is_internal() {
        "internal"
    } else {
        "other"
    };
    if std::env::var("SHOW").is_ok() {
        eprintln!("{e:?}");
    }
    k.into()
}
fn name(n: &ServerName) -> String {
    let ServerName::Dns(d) = n;
    d.as_str().to_string()
}
fn commits(l: &[TranscriptCommitment]) -> Value {
    l.iter()
        .map(|c| {
            let TranscriptCommitment::Hash(h) = c else { die("commitment") };
            json!({"d": sd(h.direction), "x": asc(&h.idx), "alg": an(h.hash.alg), "h": dig(h.hash.value.as_bytes())})
        })
        .collect()
}
fn config(s: &Value, sent: &[u8], recv: &[u8]) -> ProveConfig {
    // the builder refuses what is out of bounds, so it is told of more than there is
    let t = Transcript::new([sent, &[0; 512]].concat(), [recv, &[0; 512]].concat());
    let mut b = ProveConfig::builder(&t);
    if s["id"].as_bool().unwrap() {
        b.server_identity();
    }
    if let Some(r) = s["reveal"].as_array().filter(|r| !r.is_empty()) {
        b.reveal(Direction::Sent, &set(&r[0])).unwrap();
        b.reveal(Direction::Received, &set(&r[1])).unwrap();
    }
    let c = s["commits"].as_array().unwrap();
    if !c.is_empty() {
        let mut k = TranscriptCommitConfig::builder(&t);
        for c in c {
            k.commit_with_kind(&set(&c["x"]), dir(&c["d"]), TranscriptCommitmentKind::Hash { alg: algo(&c["alg"]) }).unwrap();
        }
        b.transcript_commit(k.build().unwrap());
    }
    b.build().unwrap()
}
fn flip(v: &mut [u8], i: usize) {
    if let Some(b) = v.get_mut(i) {
        *b ^= 0x41
    }
}
fn run(s: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    let open = &s[0];
    let mut r = Rng::new(u(open, "seed") as u64);
    let (ck, sk) = (r.bytes(20), r.bytes(20));
    let k = |b: &[u8]| Keys { key: b[..16].try_into().unwrap(), iv: b[16..].try_into().unwrap() };
    let mut plain: [Vec<u8>; 2] = [vec![], vec![]];
    let mut cipher: [Vec<u8>; 2] = [vec![], vec![]];
    let mut recs: [Vec<Record>; 4] = [vec![], vec![], vec![], vec![]];
    for (i, (f, key)) in [("sent", k(&ck)), ("recv", k(&sk))].iter().enumerate() {
        let (a, b) = record(0, ContentType::Handshake, &[&[20, 0, 0, 12][..], &r.bytes(12)].concat(), key, &mut r);
        recs[i].push(a);
        recs[i + 2].push(b);
        for n in open[f].as_array().unwrap() {
            let n = n.as_i64().unwrap();
            // negative: a record of another type
            let pt = r.bytes(n.unsigned_abs() as usize);
            let typ = if n < 0 { if n == -4 { ContentType::Handshake } else { ContentType::Alert } } else { ContentType::ApplicationData };
            let seq = recs[i].len() as u64;
            let (a, b) = record(seq, typ, &pt, key, &mut r);
            if n >= 0 {
                plain[i].extend(&pt);
                cipher[i].extend(&a.ciphertext);
            }
            recs[i].push(a);
            recs[i + 2].push(b);
        }
    }
    let [vs, vr, ps, pr] = recs;
    let fx = ConnectionFixture::tlsnotary(TranscriptLength { sent: 0, received: 0 });
    let other = ConnectionFixture::appliedzkp(TranscriptLength { sent: 0, received: 0 });
    let good = fx.server_cert_data.clone();
    let late = open["late"] == true;
    let tls = |s: Vec<Record>, r: Vec<Record>, eph: bool| {
        let mut binding = good.binding.clone();
        if eph {
            let CertBinding::V1_2(b) = &mut binding else { die("binding") };
            b.server_ephemeral_key = other.server_ephemeral_key().clone();
        }
        TlsTranscript::builder()
            .time(if late { 4671637529 } else { 1671637529 })
            .version(TlsVersion::V1_2)
            .records_sent(s)
            .records_recv(r)
            .server_signature(good.sig.clone())
            .server_cert_chain(good.certs.clone())
            .certificate_binding(binding)
            .build()
            .unwrap_or_else(|e| die(&e.to_string()))
    };
    let (pt, vt) = (tls(ps, pr, false), tls(vs, vr, open["eph"] == true));
    let (ca, cb) = Context::pair();
    let (mut pvm, mut vvm) = (IdealVm::new(), IdealVm::new());
    pvm.set_lenient();
    vvm.set_lenient();
    let (pk, vk) = (keys(&mut pvm, &ck, &sk, true), keys(&mut vvm, &ck, &sk, false));
    let log = vvm.log();
    let transcript = pt.to_transcript().unwrap_or_else(|e| die(&e.to_string()));
    if transcript.sent() != plain[0] || transcript.received() != plain[1] {
        return vec![json!({"ev": "open", "out": {"differ": true}})];
    }
    let root = if open["noroot"] == true { other.server_cert_data.certs[2].clone() } else { good.certs[2].clone() };
    let vc = VerifierConfig::builder().root_store(RootCertStore { roots: vec![root] }).build().unwrap();
    let mut p = Some(prover::harness::committed(ca, mux(), prover::state::Committed { vm: pvm, server_name: fx.server_name.clone(), keys: pk, tls_transcript: pt, transcript: transcript.clone() }));
    let mut v = Some(verifier::harness::committed(cb, mux(), vc, verifier::state::Committed { vm: vvm, keys: vk, tls_transcript: vt }));
    let mut e = open.clone();
    e["ps"] = json!(plain[0]);
    e["pr"] = json!(plain[1]);
    e["cs"] = json!(cipher[0]);
    e["cr"] = json!(cipher[1]);
    e["ks"] = json!([ck[..16], ck[16..]]);
    e["kr"] = json!([sk[..16], sk[16..]]);
    e["out"] = json!({});
    out.push(e);
    for s in &s[1..] {
        let Some(ver) = v.take() else { break };
        let before = log.lock().unwrap().decoded.len();
        let cfg = config(s, &plain[0], &plain[1]);
        let lie = &s["lie"];
        let kind = lie["k"].as_str().unwrap();
        // what the prover says the plaintext is
        let mut said = [plain[0].clone(), plain[1].clone()];
        let at = if lie["d"] == "s" { 0 } else { 1 };
        if kind == "byte" || kind == "msg" {
            flip(&mut said[at], u(lie, "i"));
        }
        let used = if kind == "byte" { Transcript::new(said[0].clone(), said[1].clone()) } else { transcript.clone() };
        let (mut asks, mut askr) = cfg.reveal().cloned().unwrap_or_default();
        if kind == "len" {
            said[at].resize(u(lie, "i"), 7);
        }
        if kind == "auth" {
            *(if at == 0 { &mut asks } else { &mut askr }) = set(&lie["x"]);
        }
        let partial = guard(|| Transcript::new(said[0].clone(), said[1].clone()).to_partial(asks, askr));
        let Some(partial) = partial else { die("partial transcript") };
        let hs = |data: HandshakeData| Some((fx.server_name.clone(), data));
        let handshake = match lie["id"].as_str().unwrap() {
            "honest" => cfg.server_identity().then(|| hs(good.clone())).flatten(),
            "omitted" => None,
            "unasked" => hs(good.clone()),
            "name" => Some((ServerName::Dns(DnsName::try_from("example.org").unwrap()), good.clone())),
            "other" => Some((other.server_name.clone(), other.server_cert_data.clone())),
            "sig" => {
                let mut d = good.clone();
                flip(&mut d.sig.sig, 77);
                hs(d)
            }
            "chain" => {
                let mut d = good.clone();
                d.certs[0] = other.server_cert_data.certs[0].clone();
                hs(d)
            }
            "nocerts" => {
                let mut d = good.clone();
                d.certs = Vec::<CertificateDer>::new();
                hs(d)
            }
            "binding" => {
                let mut d = good.clone();
                d.binding = other.server_cert_data.binding.clone();
                hs(d)
            }
            _ => die("lie about the identity"),
        };
        let honest = kind == "none" && lie["id"] == "honest";
        let msg = ProveRequestMsg {
            request: cfg.to_request(),
            handshake,
            transcript: match kind {
                "drop" => None,
                "extra" => Some(partial),
                _ => cfg.reveal().is_some().then_some(partial),
            },
        };
        let accept = s["answer"] == "accept";
        let reason = s["answer"].as_str().unwrap().to_string();
        let stop = kind == "beyond";
        let back: Rc<RefCell<Option<verifier::Verifier<verifier::state::Committed>>>> = Default::default();
        let vout: Rc<RefCell<Option<tlsn_core::VerifierOutput>>> = Default::default();
        let seen: Rc<RefCell<Value>> = Default::default();
        let pres = Rc::new(RefCell::new(String::from("stuck")));
        let vres = Rc::new(RefCell::new(String::from("stuck")));
        let pout = Rc::new(RefCell::new(None));
        let fine = guard(|| {
            let a = async {
                let q = p.as_mut().unwrap();
                let r = if honest {
                    q.prove(&cfg).await.map(Some)
                } else {
                    prover::harness::lie(q, msg, (!stop).then_some((&cfg, &used))).await
                };
                *pres.borrow_mut() = match &r {
                    Ok(_) => "ok".into(),
                    Err(e) => err(e),
                };
                *pout.borrow_mut() = r.ok().flatten();
                // who stops leaves the connection
                if stop && *pres.borrow() == "ok" || *pres.borrow() != "ok" && *pres.borrow() != "user" {
                    p = None;
                }
            };
            let b = async {
                *vres.borrow_mut() = match ver.verify().await {
                    Err(e) => err(&e),
                    Ok(v) => {
                        let q = v.request();
                        *seen.borrow_mut() = json!({"id": q.server_identity(), "hs": verifier::harness::handshake(&v),
                            "reveal": q.reveal().map(|(a, b)| json!([asc(a), asc(b)])).unwrap_or(json!([])),
                            "commits": q.transcript_commit().map(|c| c.iter_hash().map(|(d, x, a)| json!({"d": sd(*d), "x": asc(x), "alg": an(*a)})).collect::<Vec<_>>()).unwrap_or_default()});
                        if accept {
                            match v.accept().await {
                                Err(e) => err(&e),
                                Ok((o, v)) => {
                                    *vout.borrow_mut() = Some(o);
                                    *back.borrow_mut() = Some(v);
                                    "ok".into()
                                }
                            }
                        } else {
                            match v.reject(Some(&reason)).await {
                                Err(e) => err(&e),
                                Ok(v) => {
                                    *back.borrow_mut() = Some(v);
                                    "rejected".into()
                                }
                            }
                        }
                    }
                };
            };
            duo::both(a, b);
        })
        .is_some();
        let learned: Vec<Value> = log.lock().unwrap().decoded[before..].iter().map(|(_, b)| json!(b)).collect();
        let vo = vout.borrow_mut().take();
        let hashes: Vec<u64> = vo
            .iter()
            .flat_map(|o| &o.transcript_commitments)
            .map(|c| {
                let TranscriptCommitment::Hash(h) = c else { die("commitment") };
                dig(h.hash.value.as_bytes())
            })
            .collect();
        let po = pout.borrow_mut().take();
        let want: Vec<Value> = po
            .iter()
            .flat_map(|o| &o.transcript_secrets)
            .map(|c| {
                let TranscriptSecret::Hash(h) = c else { die("secret") };
                let b = if h.direction == Direction::Sent { &plain[0] } else { &plain[1] };
                let data: Vec<u8> = h.idx.iter().flatten().map(|i| b[i]).chain(h.blinder.as_bytes().to_vec()).collect();
                json!({"d": sd(h.direction), "x": asc(&h.idx), "alg": an(h.alg), "h": dig(&hash(h.alg, &data))})
            })
            .collect();
        let mut e = s.clone();
        let pc = po.map(|o| commits(&o.transcript_commitments)).unwrap_or(json!([]));
        e["out"] = json!({
            "fine": fine, "p": *pres.borrow(), "v": *vres.borrow(), "seen": *seen.borrow(),
            "learned": learned.into_iter().map(|b| { let h = dig(&bytes_of(&b)); json!({"b": b, "h": h, "hash": hashes.contains(&h)}) }).collect::<Vec<_>>(),
            "pc": pc, "want": want,
            "vc": vo.as_ref().map(|o| commits(&o.transcript_commitments)).unwrap_or(json!([])),
            "name": vo.as_ref().and_then(|o| o.server_name.as_ref().map(name)).unwrap_or_default(),
            "tr": vo.as_ref().and_then(|o| o.transcript.as_ref()).map(|t| json!([{"s": t.sent_unsafe(), "r": t.received_unsafe(), "as": asc(t.sent_authed()), "ar": asc(t.received_authed())}])).unwrap_or(json!([])),
        });
        out.push(e);
        if !fine {
            break;
        }
        v = back.borrow_mut().take();
    }
    out
}
fn ranges(r: &mut Rng, n: usize) -> Value {
    match r.below(8) {
        0 => json!([]),
        1 => json!([[0, n]]),
        2 if n > 0 => json!([[0, n - 1]]),
        3 if n > 0 => json!([[1, n]]),
        _ => {
            let mut v = vec![];
            let mut at = 0;
            while at < n && v.len() < 4 {
                let a = r.range(at, n - 1);
                let b = if r.chance(1, 3) { a + 1 } else { r.range(a + 1, n) };
                v.push(json!([a, b]));
                at = b + 1;
            }
            json!(v)
        }
    }
}
fn random(r: &mut Rng) -> Vec<Value> {
    let lens = |r: &mut Rng| -> Vec<i64> {
        (0..r.below(5))
            .map(|_| match r.below(8) {
                0 => -2,
                1 => 0,
                2 => -4,
                3 => 16 * r.range(1, 3) as i64,
                4 => r.range(1, 70) as i64,
                _ => r.range(1, 30) as i64,
            })
            .collect()
    };
    let (a, b) = (lens(r), lens(r));
    let n = |l: &[i64]| l.iter().filter(|x| **x > 0).sum::<i64>() as usize;
    let len = [n(&a), n(&b)];
    let mut s = vec![json!({"ev": "open", "sent": a, "recv": b, "seed": r.below(1 << 30), "late": r.chance(1, 20), "eph": r.chance(1, 20), "noroot": r.chance(1, 20)})];
    for _ in 0..r.range(1, 3) {
        let reveal = if r.chance(1, 4) { json!([]) } else { json!([ranges(r, len[0]), ranges(r, len[1])]) };
        let mut cs = vec![];
        for _ in 0..r.below(4) {
            let d = r.below(2);
            let x = ranges(r, len[d]);
            let c = json!({"d": D[d], "x": x, "alg": if r.chance(1, 30) { "keccak" } else { *r.pick(&["sha256", "blake3"]) }});
            if !cs.contains(&c) {
                cs.push(c);
            }
        }
        let d = r.below(2);
        let mut lie = json!({"k": "none", "id": "honest"});
        match r.below(12) {
            0 | 1 if len[d] > 0 => lie = json!({"k": "byte", "id": "honest", "d": D[d], "i": r.below(len[d])}),
            2 if len[d] > 0 => lie = json!({"k": "msg", "id": "honest", "d": D[d], "i": r.below(len[d])}),
            3 => lie = json!({"k": "len", "id": "honest", "d": D[d], "i": if r.chance(1, 2) { len[d] + 1 } else { r.below(len[d] + 20) }}),
            4 => lie = json!({"k": "auth", "id": "honest", "d": D[d], "x": ranges(r, len[d])}),
            5 => lie["k"] = json!(*r.pick(&["drop", "extra"])),
            6 | 7 => lie["id"] = json!(*r.pick(&["omitted", "unasked", "name", "other", "sig", "chain", "nocerts", "binding"])),
            8 if r.chance(1, 2) => {
                lie["k"] = json!("beyond");
                let x = json!([[r.range(0, len[d]), len[d] + r.range(1, 40)]]);
                cs.push(json!({"d": D[d], "x": x, "alg": "sha256"}));
            }
            _ => {}
        }
        // a length that cuts what is to be revealed cannot be expressed
        if lie["k"] == "len" {
            let end = reveal.as_array().unwrap().get(d).and_then(|x| x.as_array().unwrap().last().map(|x| x[1].as_u64().unwrap() as usize)).unwrap_or(0);
            if u(&lie, "i") < end {
                lie["i"] = json!(end);
            }
        }
        s.push(json!({"ev": "prove", "reveal": reveal, "commits": cs, "id": r.chance(1, 2), "lie": lie, "answer": if r.chance(1, 10) { "reject" } else { "accept" }}));
    }
    s
}
pub fn main(a: &[String]) {
    duo::all(a, random, run);
}
