//! Private keys of the client: which are understood, what they agree to sign
//! with, and what they sign.
use crate::{
    client::{
        PrivateKey,
        sign::{RsaSigningKey, SigningKey, any_ecdsa_type, any_eddsa_type, any_supported_type},
    },
    conn::{fixtures, unhex, verifies},
    util::*,
};
use serde_json::{Value, json};
use std::sync::Arc;
use tls_core::msgs::enums::SignatureScheme;

fn load(via: &str, k: &PrivateKey) -> Option<Arc<dyn SigningKey>> {
    match via {
        "any" => any_supported_type(k).ok(),
        "ecdsa" => any_ecdsa_type(k).ok(),
        "eddsa" => any_eddsa_type(k).ok(),
        _ => RsaSigningKey::new(k).ok().map(|k| Arc::new(k) as Arc<dyn SigningKey>),
    }
}
fn schemes(v: &Value) -> Vec<SignatureScheme> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| {
            use tls_core::msgs::codec::{Codec, Reader};
            SignatureScheme::read(&mut Reader::init(&(x.as_u64().unwrap() as u16).to_be_bytes())).unwrap()
        })
        .collect()
}
fn one(fx: &Value, e: &Value) -> Value {
    let kind = e["key"].as_str().unwrap();
    let mut der = unhex(&fx[kind][e["form"].as_str().unwrap()]);
    match e["fault"].as_str().unwrap() {
        "short" => {
            der.pop();
        }
        "empty" => der.clear(),
        "tag" => der[0] ^= 1,
        _ => {}
    }
    let none = json!({"ok": false, "alg": "", "sch": 0, "good": false, "other": false});
    let key = match guard(|| load(e["via"].as_str().unwrap(), &PrivateKey(der))) {
        None => return json!({"ok": "panic", "alg": "", "sch": 0, "good": false, "other": false}),
        Some(None) => return none,
        Some(Some(k)) => k,
    };
    let alg = if kind == "ed" { "".to_string() } else { format!("{:?}", key.algorithm()) };
    let msg: Vec<u8> = (0..e["n"].as_u64().unwrap()).map(|i| (i * 3 + 1) as u8).collect();
    let mut msg2 = msg.clone();
    msg2.push(0);
    match key.choose_scheme(&schemes(&e["offer"])) {
        None => json!({"ok": true, "alg": alg, "sch": 0, "good": false, "other": false}),
        Some(s) => {
            let sch = s.scheme().get_u16();
            match s.sign(&msg) {
                Ok(sig) => json!({"ok": true, "alg": alg, "sch": sch, "good": verifies(fx, kind, sch, &msg, &sig), "other": verifies(fx, kind, sch, &msg2, &sig)}),
                Err(_) => json!({"ok": true, "alg": alg, "sch": sch, "good": "failed", "other": false}),
            }
        }
    }
}
fn random(r: &mut Rng) -> Value {
    let key = *r.pick(&["ec256", "ec384", "ed", "rsa", "ec521"]);
    let form = if r.chance(1, 2) && ["ec256", "ec384", "rsa"].contains(&key) { "alt" } else { "key" };
    let all = [0x0403u64, 0x0503, 0x0603, 0x0203, 0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601, 0x0201, 0x0807, 0x0808, 0x1234, 0];
    let n = r.range(0, 12);
    json!({"op": "key", "key": key, "form": form, "via": r.pick(&["any", "any", "ecdsa", "eddsa", "rsa"]), "fault": r.pick(&["none", "none", "none", "none", "none", "short", "empty", "tag"]),
           "offer": (0..n).map(|_| *r.pick(&all)).collect::<Vec<_>>(), "n": r.range(0, 300)})
}

/// args: scenarios seed n trace
pub fn main(a: &[String]) {
    let fx = fixtures();
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut o = Out::new(&a[3]);
    let exec = |e: &Value| {
        let mut e = e.clone();
        e["out"] = one(&fx, &e);
        e
    };
    for s in read_scenarios(&a[0]) {
        o.run(&s.as_array().unwrap().iter().map(&exec).collect::<Vec<_>>());
    }
    for _ in 0..n {
        o.run(&[exec(&random(&mut r))]);
    }
}
