//! The proof of the tags of the records received.
use super::{duo, util::*};
use crate::tag::verify_tags;
use mpz_common::Context;
use mpz_ideal_vm::IdealVm;
use mpz_memory_core::{Array, MemoryExt, ViewExt, binary::U8};
use mpz_vm_core::Execute;
use ring::aead;
use serde_json::{Value, json};
use tlsn_core::{
    connection::TlsVersion,
    transcript::{ContentType, Record},
};

fn typ(k: u64) -> ContentType {
    match k {
        20 => ContentType::ChangeCipherSpec,
        21 => ContentType::Alert,
        22 => ContentType::Handshake,
        23 => ContentType::ApplicationData,
        24 => ContentType::Heartbeat,
        k => ContentType::Unknown(k as u8),
    }
}
fn flip(v: &mut [u8], i: usize) {
    if let Some(n) = v.len().checked_sub(1) {
        v[i.min(n)] ^= 1 << (i % 8);
    }
}
/// The record as it was sealed, then as the deviation has it.
fn sealed(no: usize, key: &[u8], iv: &[u8], d: &Value, r: &mut Rng) -> Record {
    let (seq, t, len) = (d["seq"].as_u64().unwrap(), d["typ"].as_u64().unwrap(), u(d, "len"));
    let nonce = r.bytes(8);
    let mut data = r.bytes(len);
    if len > 0 {
        data[0] = no as u8 + 1; // no two alike
    }
    let aad = [&seq.to_be_bytes()[..], &[t as u8, 3, 3], &(len as u16).to_be_bytes()].concat();
    let k = aead::LessSafeKey::new(aead::UnboundKey::new(&aead::AES_128_GCM, key).unwrap());
    let n = aead::Nonce::try_assume_unique_for_key(&[iv, &nonce[..]].concat()).unwrap();
    let tag = k.seal_in_place_separate_tag(n, aead::Aad::from(aad), &mut data).unwrap();
    let mut rec = Record { seq, typ: typ(t), plaintext: None, explicit_nonce: nonce, ciphertext: data, tag: Some(tag.as_ref().to_vec()) };
    let i = u(d, "i");
    match d["dev"].as_str().unwrap() {
        "none" => {}
        "seq" => rec.seq ^= 1 << (i % 64),
        "typ" => rec.typ = typ(i as u64),
        "nonce" => flip(&mut rec.explicit_nonce, i),
        "shortnonce" => rec.explicit_nonce.truncate(7),
        "longnonce" => rec.explicit_nonce.push(0),
        "data" => flip(&mut rec.ciphertext, i),
        "cut" => {
            rec.ciphertext.pop();
        }
        "more" => rec.ciphertext.push(0),
        "tag" => flip(rec.tag.as_mut().unwrap(), i),
        "shorttag" => rec.tag.as_mut().unwrap().truncate(i),
        "longtag" => rec.tag.as_mut().unwrap().push(0),
        "notag" => rec.tag = None,
        _ => die("deviation"),
    }
    rec
}
fn party(key: &[u8], iv: &[u8], mac: &[u8], prover: bool) -> (IdealVm, (Array<U8, 16>, Array<U8, 4>), Array<U8, 16>) {
    let mut vm = IdealVm::new();
    vm.set_lenient();
    let k: Array<U8, 16> = vm.alloc().unwrap();
    let m: Array<U8, 16> = vm.alloc().unwrap();
    let i: Array<U8, 4> = vm.alloc().unwrap();
    if prover {
        vm.mark_private(k).unwrap();
        vm.mark_private(m).unwrap();
        vm.mark_private(i).unwrap();
        vm.assign(k, <[u8; 16]>::try_from(key).unwrap()).unwrap();
        vm.assign(m, <[u8; 16]>::try_from(mac).unwrap()).unwrap();
        vm.assign(i, <[u8; 4]>::try_from(iv).unwrap()).unwrap();
    } else {
        vm.mark_blind(k).unwrap();
        vm.mark_blind(m).unwrap();
        vm.mark_blind(i).unwrap();
    }
    vm.commit(k).unwrap();
    vm.commit(m).unwrap();
    vm.commit(i).unwrap();
    (vm, (k, i), m)
}
fn go(e: &Value) -> Value {
    let mut r = Rng::new(u(e, "seed") as u64);
    let (key, iv) = (r.bytes(16), r.bytes(4));
    let mut recs: Vec<Record> = e["recs"].as_array().unwrap().iter().enumerate().map(|(k, d)| sealed(k, &key, &iv, d, &mut r)).collect();
    let n = recs.len();
    match e["all"].as_str().unwrap() {
        "none" => {}
        // two records trade something
        "swap" if n > 1 => recs.swap(0, n - 1),
        "swapdata" if n > 1 => {
            let x = recs[0].ciphertext.clone();
            recs[0].ciphertext = std::mem::replace(&mut recs[n - 1].ciphertext, x);
        }
        "swaptag" if n > 1 => {
            let x = recs[0].tag.clone();
            recs[0].tag = std::mem::replace(&mut recs[n - 1].tag, x);
        }
        "swapnonce" if n > 1 => {
            let x = recs[0].explicit_nonce.clone();
            recs[0].explicit_nonce = std::mem::replace(&mut recs[n - 1].explicit_nonce, x);
        }
        _ => {}
    }
    let mac = aes::encrypt(&aes::schedule(&key), &[0; 16]);
    let v = if e["ver"] == "1.3" { TlsVersion::V1_3 } else { TlsVersion::V1_2 };
    let (mut ca, mut cb) = Context::pair();
    let (mut pvm, pk, pm) = party(&key, &iv, &mac, true);
    let (mut vvm, vk, vm_) = party(&key, &iv, &mac, false);
    let log = vvm.log();
    let out = guard(|| {
        let (pr, ve) = (recs.clone(), recs.clone());
        duo::both(
            async {
                let Ok(_p) = verify_tags(&mut pvm, pk, pm, v, pr) else { return "refused" };
                if pvm.execute_all(&mut ca).await.is_err() { "failed" } else { "ok" }
            },
            async {
                let Ok(p) = verify_tags(&mut vvm, vk, vm_, v, ve) else { return "refused" };
                if vvm.execute_all(&mut cb).await.is_err() {
                    return "failed";
                }
                if p.verify().is_ok() { "ok" } else { "bad" }
            },
        )
    });
    let Some((p, v)) = out else { return json!({"p": "panic", "v": "panic", "key": false}) };
    // was the key or its stream told?
    let told = log.lock().unwrap().decoded.iter().any(|(_, d)| d.windows(16).any(|w| w == &key[..]) || d == &iv);
    json!({"p": p.unwrap_or("stuck"), "v": v.unwrap_or("stuck"), "key": told})
}
fn run(s: &[Value]) -> Vec<Value> {
    s.iter()
        .map(|e| {
            let mut e = e.clone();
            e["out"] = go(&e);
            e
        })
        .collect()
}
fn random(r: &mut Rng) -> Vec<Value> {
    let n = r.below(5);
    let bad = if r.chance(1, 2) { r.below(n.max(1)) } else { 99 };
    let recs: Vec<Value> = (0..n)
        .map(|k| {
            let len = match r.below(6) {
                0 => 0,
                1 => 16 * r.below(4),
                2 => r.range(250, 300),
                _ => r.below(50),
            };
            let dev = if k == bad { *r.pick(&["seq", "typ", "nonce", "shortnonce", "longnonce", "data", "cut", "more", "tag", "shorttag", "longtag", "notag"]) } else { "none" };
            json!({"seq": *r.pick(&[k, k, k + 255, (1usize << 32) - 1 + k]), "typ": *r.pick(&[20, 21, 22, 23, 24, 77]), "len": len, "dev": dev, "i": match dev {"shorttag" => r.below(16), "typ" => *r.pick(&[20, 21, 22, 23, 24, 99]), _ => r.below(64)}})
        })
        .collect();
    vec![json!({"ev": "tags", "seed": r.below(1 << 30), "ver": if r.chance(1, 8) { "1.3" } else { "1.2" }, "recs": recs,
        "all": if r.chance(1, 5) { *r.pick(&["swap", "swapdata", "swaptag", "swapnonce"]) } else { "none" }})]
}
pub fn main(a: &[String]) {
    duo::all(a, random, run)
}
