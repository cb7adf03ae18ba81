//! Commitment and disclosure configuration, transcript proofs.
use crate::transcript::*;
use crate::util::*;
use rangeset::set::RangeSet;
use serde_json::{Value, json};
use std::collections::HashMap;
use tlsn_core::config::prove::{ProveConfig, ProveRequest};
use tlsn_core::connection::TranscriptLength;
use tlsn_core::hash::{Blinder, Hash, HashAlgId, HashAlgorithm, HashProvider};
use tlsn_core::transcript::hash::{PlaintextHash, PlaintextHashSecret, hash_plaintext};
use tlsn_core::transcript::*;

/// An algorithm outside the reserved identifiers.
pub struct Custom(pub u8);
impl HashAlgorithm for Custom {
    fn id(&self) -> HashAlgId {
        HashAlgId::new(self.0)
    }
    fn hash(&self, data: &[u8]) -> Hash {
        self.hash_prefixed(&[], data)
    }
    fn hash_prefixed(&self, prefix: &[u8], data: &[u8]) -> Hash {
        let mut v = vec![self.0];
        v.extend_from_slice(prefix);
        v.extend_from_slice(data);
        let mut d = ring::digest::digest(&ring::digest::SHA512, &v).as_ref().to_vec();
        d.truncate(48);
        Hash::try_from(d).unwrap()
    }
}
pub fn alg(v: &Value) -> HashAlgId {
    serde_json::from_value(v.clone()).unwrap()
}
pub fn provider(ids: &[Value]) -> HashProvider {
    let mut p = HashProvider::default();
    for i in ids {
        let i = i.as_u64().unwrap() as u8;
        if i >= 128 {
            p.set_algorithm(HashAlgId::new(i), Box::new(Custom(i)));
        }
    }
    p
}
fn all() -> HashProvider {
    provider(&[json!(200), json!(201)])
}
pub fn blinder(b: u64) -> Blinder {
    serde_json::from_value(json!(vec![b as u8; 16])).unwrap()
}
pub fn transcript(e: &Value) -> Transcript {
    Transcript::new(bytes_of(&e["s"]), bytes_of(&e["r"]))
}
fn plain(t: &Transcript, d: Direction, x: &RangeSet<usize>) -> Vec<u8> {
    let b = if d == Direction::Sent { t.sent() } else { t.received() };
    x.iter().flatten().map(|i| b[i]).collect()
}
/// The commitment c to the transcript t.
pub fn commitment(t: &Transcript, c: &Value) -> PlaintextHash {
    let p = all();
    let (direction, idx) = (dir(&c["d"]), set(&c["x"]));
    let hash = hash_plaintext(p.get(&alg(&c["alg"])).unwrap(), &plain(t, direction, &idx), &blinder(c["b"].as_u64().unwrap()));
    PlaintextHash { direction, idx, hash }
}
pub fn secret(c: &Value) -> PlaintextHashSecret {
    PlaintextHashSecret { direction: dir(&c["d"]), idx: set(&c["x"]), alg: alg(&c["alg"]), blinder: blinder(c["b"].as_u64().unwrap()) }
}
fn kind(a: &Value) -> TranscriptCommitmentKind {
    TranscriptCommitmentKind::Hash { alg: alg(a) }
}
fn sd(d: Direction) -> &'static str {
    if d == Direction::Sent { "s" } else { "r" }
}
fn config(t: &Transcript, ops: &[Value]) -> (TranscriptCommitConfig, Vec<bool>) {
    let mut b = TranscriptCommitConfig::builder(t);
    let mut res = vec![];
    for o in ops {
        res.push(match o["op"].as_str().unwrap() {
            "default" => {
                b.default_kind(kind(&o["alg"]));
                true
            }
            "with" => b.commit_with_kind(&set(&o["x"]), dir(&o["d"]), kind(&o["alg"])).is_ok(),
            "commit" => b.commit(&set(&o["x"]), dir(&o["d"])).is_ok(),
            "sent" => b.commit_sent(&set(&o["x"])).is_ok(),
            _ => b.commit_recv(&set(&o["x"])).is_ok(),
        });
    }
    (b.build().unwrap(), res)
}
fn request(r: &TranscriptCommitRequest) -> Vec<Value> {
    r.iter_hash().map(|(d, x, a)| json!({"d": sd(*d), "x": asc(x), "alg": a.as_u8()})).collect()
}
fn cfg(c: &TranscriptCommitConfig) -> Vec<Value> {
    c.iter_hash().map(|((d, x), a)| json!({"d": sd(*d), "x": asc(x), "alg": a.as_u8()})).collect()
}
/// The same through its serialised form.
fn again<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> T {
    bincode::deserialize(&bincode::serialize(v).unwrap()).unwrap()
}
fn commits(e: &Value) -> Value {
    let t = transcript(&e["t"]);
    let (c, res) = config(&t, e["ops"].as_array().unwrap());
    let (c, r) = (again(&c), again(&c.to_request()));
    let req = request(&r);
    if req != cfg(&c) || c.has_hash() != r.has_hash() {
        return json!({"differ": true});
    }
    json!({"res": res, "has": r.has_hash(), "req": req})
}
fn prove(e: &Value) -> Value {
    let t = transcript(&e["t"]);
    let mut b = ProveConfig::builder(&t);
    let mut res = vec![];
    for o in e["ops"].as_array().unwrap() {
        let d = dir(&o["d"]);
        let k = res.len();
        res.push(match o["op"].as_str().unwrap() {
            "id" => {
                b.server_identity();
                true
            }
            "commit" => {
                b.transcript_commit(config(&t, o["ops"].as_array().unwrap()).0);
                true
            }
            "all" if d == Direction::Sent => b.reveal_sent_all().is_ok(),
            "all" => b.reveal_recv_all().is_ok(),
            _ if k % 2 == 0 => b.reveal(d, &set(&o["x"])).is_ok(),
            _ if d == Direction::Sent => b.reveal_sent(&set(&o["x"])).is_ok(),
            _ => b.reveal_recv(&set(&o["x"])).is_ok(),
        });
    }
    let c = again(&b.build().unwrap());
    let r: ProveRequest = again(&c.to_request());
    let rev = |x: Option<&(RangeSet<usize>, RangeSet<usize>)>| x.map(|(s, r)| json!([asc(s), asc(r)])).unwrap_or(json!([]));
    let req = r.transcript_commit().map(request).unwrap_or_default();
    if rev(c.reveal()) != rev(r.reveal()) || c.server_identity() != r.server_identity() || req != c.transcript_commit().map(cfg).unwrap_or_default() {
        return json!({"differ": true});
    }
    json!({"res": res, "id": r.server_identity(), "rev": rev(r.reveal()), "has": r.transcript_commit().is_some(), "req": req})
}
fn verify(e: &Value) -> Value {
    let t = transcript(&e["t"]);
    let com: Vec<_> = e["com"].as_array().unwrap().iter().map(|c| TranscriptCommitment::Hash(commitment(&t, c))).collect();
    let sec: Vec<_> = e["sec"].as_array().unwrap().iter().map(secret).collect();
    let p = &e["p"];
    let w = json!({"transcript": {"sent_authed": p["s"], "received_authed": p["r"], "sent_idx": wire_set(&p["sx"]), "recv_idx": wire_set(&p["rx"]),
                                  "sent_total": p["sn"], "recv_total": p["rn"]}, "hash_secrets": sec});
    let proof: TranscriptProof = match serde_json::from_value(w) {
        Ok(p) => p,
        Err(_) => return json!({"ok": false}),
    };
    let len = TranscriptLength { sent: e["len"][0].as_u64().unwrap() as u32, received: e["len"][1].as_u64().unwrap() as u32 };
    match guard(|| proof.verify_with_provider(&provider(e["prov"].as_array().unwrap()), &len, &com)) {
        None => json!({"panic": true}),
        Some(Err(_)) => json!({"ok": false}),
        Some(Ok(p)) => json!({"ok": true, "p": obs(&p)}),
    }
}
fn build(e: &Value) -> Value {
    let t = transcript(&e["t"]);
    let specs = e["sec"].as_array().unwrap();
    let sec: Vec<_> = specs.iter().map(|c| TranscriptSecret::Hash(secret(c))).collect();
    let mut b = TranscriptProofBuilder::new(&t, &sec);
    let kinds: Vec<_> = e["kinds"].as_array().unwrap().iter().map(kind).collect();
    b.commitment_kinds(&kinds);
    let mut res = vec![];
    for o in e["ops"].as_array().unwrap() {
        let (d, x) = (dir(&o["d"]), set(&o["x"]));
        res.push(match (res.len() % 2, d) {
            (0, _) => b.reveal(&x, d).is_ok(),
            (_, Direction::Sent) => b.reveal_sent(&x).is_ok(),
            _ => b.reveal_recv(&x).is_ok(),
        });
    }
    let proof = match guard(|| b.build()) {
        None => return json!({"res": res, "panic": true}),
        Some(Err(_)) => return json!({"res": res, "ok": false}),
        Some(Ok(p)) => p,
    };
    let w = serde_json::to_value(&proof).unwrap();
    let used: Vec<_> = w["hash_secrets"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| {
            let b = s["blinder"][0].as_u64().unwrap();
            let k = specs.iter().position(|c| c["b"] == b).unwrap_or(999);
            if k != 999 && s != &serde_json::to_value(secret(&specs[k])).unwrap() { 999 } else { k + 1 }
        })
        .collect();
    let com: Vec<_> = specs.iter().map(|c| TranscriptCommitment::Hash(commitment(&t, c))).collect();
    match again(&proof).verify_with_provider(&all(), &t.length(), &com) {
        Ok(p) => json!({"res": res, "ok": true, "ver": true, "p": obs(&p), "used": used}),
        Err(_) => json!({"res": res, "ok": true, "ver": false}),
    }
}
pub fn exec(e: &Value) -> Value {
    match e["ev"].as_str().unwrap() {
        "commits" => commits(e),
        "prove" => prove(e),
        "verify" => verify(e),
        "build" => build(e),
        _ => die("bad event"),
    }
}
fn cops(r: &mut Rng, sn: usize, rn: usize) -> Vec<Value> {
    (0..r.below(6))
        .map(|_| {
            let d = *r.pick(&["s", "r"]);
            let n = if d == "s" { sn } else { rn };
            let a = *r.pick(&[1, 2, 3, 200]);
            match r.below(5) {
                0 => json!({"op": "default", "alg": a}),
                1 => json!({"op": "with", "d": d, "alg": a, "x": within(r, n, 3)}),
                2 => json!({"op": "commit", "d": d, "x": within(r, n, 3)}),
                3 => json!({"op": "sent", "x": within(r, sn, 3)}),
                _ => json!({"op": "recv", "x": within(r, rn, 3)}),
            }
        })
        .collect()
}
fn byte_at(v: &Value, x: &Value) -> Vec<u8> {
    let b = bytes_of(v);
    set(x).iter().flatten().map(|i| *b.get(i).unwrap_or(&0)).collect()
}
fn random(r: &mut Rng, fam: &str) -> Value {
    let (sn, rn) = (r.below(20), r.below(20));
    let t = json!({"s": r.bytes(sn), "r": r.bytes(rn)});
    let pick = |r: &mut Rng, b: u64, algs: &[u64]| {
        let d = *r.pick(&["s", "r"]);
        let n = if d == "s" { sn } else { rn };
        json!({"d": d, "x": rnd(r, n, 2), "alg": *r.pick(algs), "b": b})
    };
    match fam {
        "config" => {
            if r.chance(1, 2) {
                return json!({"ev": "commits", "t": t, "ops": cops(r, sn, rn)});
            }
            let ops: Vec<_> = (0..r.below(7))
                .map(|_| {
                    let d = *r.pick(&["s", "r"]);
                    let n = if d == "s" { sn } else { rn };
                    match r.below(8) {
                        0 => json!({"op": "id"}),
                        1 => json!({"op": "commit", "ops": cops(r, sn, rn)}),
                        2 => json!({"op": "all", "d": d}),
                        _ => json!({"op": "reveal", "d": d, "x": within(r, n, 3)}),
                    }
                })
                .collect();
            json!({"ev": "prove", "t": t, "ops": ops})
        }
        "build" => {
            let many = r.chance(1, 4);
            let sec: Vec<_> = (0..r.below(if many { 16 } else { 8 })).map(|k| pick(r, k as u64 + 1, if many { &[1, 1, 1, 2] } else { &[1, 2, 3] })).collect();
            let kinds: Vec<u64> = (0..r.below(5)).map(|_| *r.pick(&[1, 2, 3])).collect();
            let mut ops = vec![];
            for _ in 0..r.range(1, if many { 14 } else { 4 }) {
                // mostly what is committed, whole or in part
                if !sec.is_empty() && r.chance(5, 6) {
                    let c = r.pick(&sec);
                    ops.push(json!({"op": "reveal", "d": c["d"], "x": c["x"]}));
                } else {
                    let d = *r.pick(&["s", "r"]);
                    ops.push(json!({"op": "reveal", "d": d, "x": within(r, if d == "s" { sn } else { rn }, 2)}));
                }
            }
            json!({"ev": "build", "t": t, "sec": sec, "kinds": kinds, "ops": ops})
        }
        _ => {
            let com: Vec<_> = (0..r.range(1, 6)).map(|k| pick(r, k as u64 + 1, &[1, 2, 3, 200])).collect();
            let mut sec: Vec<Value> = vec![];
            for c in &com {
                if r.chance(2, 3) {
                    sec.push(c.clone());
                }
            }
            if r.chance(1, 3) && !sec.is_empty() {
                sec.push(sec[r.below(sec.len())].clone());
            }
            let union = |d: &str, sec: &[Value]| -> Value {
                json!(sec.iter().filter(|c| c["d"] == d).flat_map(|c| c["x"].as_array().unwrap().clone()).collect::<Vec<_>>())
            };
            let (mut sx, mut rx) = (union("s", &sec), union("r", &sec));
            let mut prov = vec![1, 2, 3, 200];
            let mut len = json!([sn, rn]);
            let (mut p_sn, p_rn) = (sn, rn);
            let mut flip = None;
            match r.below(14) {
                0 if !sec.is_empty() => {
                    sec.remove(r.below(sec.len()));
                }
                1 if !sec.is_empty() => {
                    let k = r.below(sec.len());
                    sec[k]["alg"] = json!(*r.pick(&[1, 2, 3, 200, 7, 201]));
                }
                2 if !sec.is_empty() => {
                    let k = r.below(sec.len());
                    sec[k]["b"] = json!(r.below(8));
                }
                3 if !sec.is_empty() => {
                    let k = r.below(sec.len());
                    let d = if sec[k]["d"] == "s" { "r" } else { "s" };
                    sec[k]["d"] = json!(d);
                }
                4 if !sec.is_empty() => {
                    let k = r.below(sec.len());
                    let n = if sec[k]["d"] == "s" { sn } else { rn };
                    sec[k]["x"] = within(r, n, 2);
                }
                5 => sx = within(r, sn, 3),
                6 => rx = within(r, rn, 3),
                7 => len = json!([sn + r.below(2), rn + r.below(2)]),
                8 => p_sn += r.below(2),
                9 => prov = vec![1, 2, 3],
                10 | 11 => flip = Some(r.below(40)),
                _ => {}
            }
            let (mut s, mut v) = (byte_at(&t["s"], &sx), byte_at(&t["r"], &rx));
            if let Some(k) = flip {
                let b = if k % 2 == 0 { &mut s } else { &mut v };
                if !b.is_empty() {
                    let n = b.len();
                    b[k % n] ^= 1 << (k % 8);
                }
            }
            json!({"ev": "verify", "t": t, "com": com, "sec": sec, "len": len, "prov": prov,
                   "p": {"s": s, "r": v, "sx": sx, "rx": rx, "sn": p_sn, "rn": p_rn}})
        }
    }
}
pub fn main(a: &[String]) {
    let mut out = Out::new(&a[3]);
    let mut r = Rng::new(a[1].parse().unwrap());
    let mut emit = |mut e: Value| {
        e["out"] = exec(&e);
        out.run(&[e]);
    };
    let mut seen: HashMap<String, ()> = HashMap::new();
    for s in read_scenarios(&a[0]) {
        if seen.insert(s.to_string(), ()).is_none() {
            emit(s);
        }
    }
    for _ in 0..a[2].parse::<usize>().unwrap() {
        emit(random(&mut r, &a[4]));
    }
}
