//! Merkle trees and hash types.
use crate::disclose::{Custom, alg};
use crate::util::*;
use serde_json::{Value, json};
use tiny_keccak::Hasher as _;
use tlsn_core::hash::*;
use tlsn_core::merkle::{MerkleProof, MerkleTree};

fn hash(b: &[u8]) -> Hash {
    Hash::try_from(b.to_vec()).unwrap()
}
fn merkle(e: &Value) -> Value {
    let p = HashProvider::default();
    let a = alg(&e["alg"]);
    let h = p.get(&a).unwrap();
    let leaf = |v: &Value| h.hash(&[v.as_u64().unwrap() as u8]);
    let leaves: Vec<Hash> = e["n"].as_array().unwrap().iter().map(leaf).collect();
    let mut t = MerkleTree::new(a);
    t.insert(h, leaves.clone());
    // the same tree in two insertions, through its serialised form
    let mut t2 = MerkleTree::new(a);
    t2.insert(h, leaves[..leaves.len() / 2].to_vec());
    let mut t2: MerkleTree = bincode::deserialize(&bincode::serialize(&t2).unwrap()).unwrap();
    t2.insert(h, leaves[leaves.len() / 2..].to_vec());
    if t.root() != t2.root() {
        return json!({"differ": true});
    }
    let x: Vec<usize> = e["x"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
    let Some(proof) = guard(|| t2.proof(&x)) else { return json!({"panic": true}) };
    let mut w = serde_json::to_value(&proof).unwrap();
    let hs = w["proof"]["hashes"].as_array_mut().unwrap();
    let f = e["f"].as_str().unwrap();
    if f == "drop" {
        hs.pop();
    }
    if f == "swap" && hs.len() >= 2 {
        hs.swap(0, 1);
    }
    let proof: MerkleProof = serde_json::from_value(w.clone()).unwrap();
    let mut root = t.root();
    if f == "root" {
        let mut b = root.value.as_bytes().to_vec();
        b[7] ^= 1;
        root.value = hash(&b);
    }
    let other = p.get(&if a == HashAlgId::SHA256 { HashAlgId::BLAKE3 } else { HashAlgId::SHA256 }).unwrap();
    let claims = e["c"].as_array().unwrap().iter().map(|c| (c[0].as_u64().unwrap() as usize, leaf(&c[1]))).collect::<Vec<_>>();
    match guard(|| proof.verify(if f == "alg" { other } else { h }, &root, claims).is_ok()) {
        None => json!({"panicv": true}),
        Some(ok) => json!({"ok": ok, "alg": t.algorithm().as_u8()}),
    }
}
fn reference(id: u64, d: &[u8]) -> Vec<u8> {
    match id {
        1 => ring::digest::digest(&ring::digest::SHA256, d).as_ref().to_vec(),
        2 => blake3::hash(d).as_bytes().to_vec(),
        _ => {
            let mut k = tiny_keccak::Keccak::v256();
            k.update(d);
            let mut o = vec![0; 32];
            k.finalize(&mut o);
            o
        }
    }
}
fn exec(e: &Value) -> Value {
    let p = HashProvider::default();
    match e["ev"].as_str().unwrap() {
        "merkle" => merkle(e),
        "insert" => {
            let mut t = MerkleTree::new(alg(&e["tree"]));
            let h = p.get(&alg(&e["hasher"])).unwrap();
            match guard(|| t.insert(h, vec![hash(&[1; 32])])) {
                None => json!({"panic": true}),
                Some(()) => json!({"same": true}),
            }
        }
        "hash" => {
            let h = p.get(&alg(&e["alg"])).unwrap();
            let (a, b) = (bytes_of(&e["a"]), bytes_of(&e["b"]));
            let ab = [a.clone(), b.clone()].concat();
            let v = h.hash(&ab);
            json!({"alg": h.id().as_u8(), "n": v.as_bytes().len(), "prefixed": h.hash_prefixed(&a, &b) == v,
                   "reference": v.as_bytes() == &reference(e["alg"].as_u64().unwrap(), &ab)[..]})
        }
        "value" => {
            let n = u(e, "n");
            let b: Vec<u8> = (0..n).map(|k| (k * 7 + 1) as u8).collect();
            let a = Hash::try_from(b.clone()).ok();
            let j: Option<Hash> = serde_json::from_value(json!(b)).ok();
            let s: Option<Hash> = bincode::deserialize(&bincode::serialize(&b).unwrap()).ok();
            if a != j || a != s {
                return json!({"differ": true});
            }
            match a {
                None => json!({"ok": false}),
                Some(h) => {
                    let back: Hash = bincode::deserialize(&bincode::serialize(&h).unwrap()).unwrap();
                    json!({"ok": true, "n": h.as_bytes().len(), "back": h.as_bytes() == &b[..] && Vec::<u8>::from(h) == b && back == h})
                }
            }
        }
        "algid" => {
            let id = u(e, "id") as u8;
            json!({"ok": guard(|| HashAlgId::new(id)).map(|a| a.as_u8() == id).unwrap_or(false)})
        }
        "provider" => {
            let mut p = HashProvider::default();
            for i in e["set"].as_array().unwrap() {
                let i = i.as_u64().unwrap() as u8;
                p.set_algorithm(HashAlgId::new(i), Box::new(Custom(i)));
            }
            let k: Vec<bool> = e["ask"].as_array().unwrap().iter().map(|i| p.get(&alg(i)).map(|h| h.id() == alg(i)).unwrap_or(false)).collect();
            json!({"known": k})
        }
        "eq" => {
            let (a, b) = (hash(&bytes_of(&e["a"])), hash(&bytes_of(&e["b"])));
            let t = |v: Hash, i: u64| TypedHash { alg: alg(&json!(i)), value: v };
            assert!(t(a, 1) != t(a, 2));
            if (a == b) != (t(a, 1) == t(b, 1)) { json!({"differ": true}) } else { json!({"same": a == b}) }
        }
        _ => die("bad event"),
    }
}
fn random(r: &mut Rng) -> Value {
    match r.below(8) {
        0 | 1 => {
            let (a, b) = (r.below(200), r.below(40));
            json!({"ev": "hash", "alg": r.range(1, 3), "a": r.bytes(a), "b": r.bytes(b)})
        }
        2 => {
            let n = r.below(65);
            let a = r.bytes(n);
            let mut b = a.clone();
            match r.below(4) {
                0 => b.push(0),
                1 if n > 0 => b[n - 1] ^= 0x80,
                2 => {
                    b.pop();
                }
                _ => {}
            }
            b.truncate(64);
            json!({"ev": "eq", "a": a, "b": b})
        }
        _ => {
            let n = r.range(1, 24);
            let v = if r.chance(1, 3) { 3 } else { 200 };
            let l: Vec<usize> = (0..n).map(|_| r.below(v)).collect();
            let mut x: Vec<usize> = (0..n).filter(|_| r.chance(1, 3)).collect();
            if x.is_empty() {
                x.push(r.below(n));
            }
            let mut c: Vec<(usize, usize)> = x.iter().map(|i| (*i, l[*i])).collect();
            for k in (1..c.len()).rev() {
                c.swap(k, r.below(k + 1));
            }
            match r.below(6) {
                0 => {
                    let k = r.below(c.len());
                    c[k].1 = r.below(v);
                }
                1 => {
                    let k = r.below(c.len());
                    c[k].0 = r.below(n);
                }
                2 => c.push((r.below(n), l[0])),
                3 if c.len() > 1 => {
                    c.pop();
                }
                _ => {}
            }
            let f = if r.chance(1, 4) { *r.pick(&["root", "drop", "swap", "alg"]) } else { "" };
            json!({"ev": "merkle", "n": l, "x": x, "c": c, "f": f, "alg": r.range(1, 3)})
        }
    }
}
pub fn main(a: &[String]) {
    let mut out = Out::new(&a[3]);
    let mut r = Rng::new(a[1].parse().unwrap());
    let mut emit = |mut e: Value| {
        e["out"] = exec(&e);
        out.run(&[e]);
    };
    for s in read_scenarios(&a[0]) {
        emit(s);
    }
    for _ in 0..a[2].parse::<usize>().unwrap() {
        emit(random(&mut r));
    }
}
