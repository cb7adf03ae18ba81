//! Configurations and connection types.
use crate::util::*;
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use tls_core::msgs::enums as te;
use tlsn_core::config::{prover::ProverConfig, tls::TlsClientConfig, tls_commit::*, verifier::VerifierConfig};
use tlsn_core::connection::*;
use tlsn_core::transcript::ContentType;
use tlsn_core::webpki::*;

fn wire<T: Serialize + DeserializeOwned>(t: &T) -> Option<T> {
    let j: T = serde_json::from_str(&serde_json::to_string(t).ok()?).ok()?;
    bincode::deserialize(&bincode::serialize(&j).ok()?).ok()
}
fn show(c: &mpc::MpcTlsConfig) -> Value {
    let o = |x: Option<usize>| x.into_iter().collect::<Vec<_>>();
    json!({"ok": true, "sent": c.max_sent_data(), "srec": o(c.max_sent_records()), "online": c.max_recv_data_online(),
        "recv": c.max_recv_data(), "rrec": o(c.max_recv_records_online()), "defer": c.defer_decryption_from_start() as u8,
        "net": matches!(c.network(), mpc::NetworkSetting::Latency) as u8})
}
fn net(v: usize) -> mpc::NetworkSetting {
    if v == 0 { mpc::NetworkSetting::Bandwidth } else { mpc::NetworkSetting::Latency }
}
fn no() -> Value {
    json!({"ok": false})
}
fn mpc_build(ops: &Value) -> Value {
    let mut b = mpc::MpcTlsConfig::builder();
    for o in ops.as_array().unwrap() {
        let v = u(o, "v");
        b = match o["f"].as_str().unwrap() {
            "sent" => b.max_sent_data(v),
            "srec" => b.max_sent_records(v),
            "online" => b.max_recv_data_online(v),
            "recv" => b.max_recv_data(v),
            "rrec" => b.max_recv_records_online(v),
            "defer" => b.defer_decryption_from_start(v == 1),
            _ => b.network(net(v)),
        };
    }
    match b.build() {
        Err(_) => json!({"built": no(), "wired": no()}),
        Ok(c) => {
            let w = wire(&TlsCommitConfig::from(c.clone())).map(|w| match w {
                TlsCommitConfig::Mpc(c) => show(&c),
                _ => no(),
            });
            json!({"built": show(&c), "wired": w.unwrap_or(no())})
        }
    }
}
#[derive(Serialize)]
struct Raw {
    max_sent_data: usize,
    max_sent_records: Option<usize>,
    max_recv_data_online: usize,
    max_recv_data: usize,
    max_recv_records_online: Option<usize>,
    defer_decryption_from_start: bool,
    network: mpc::NetworkSetting,
}
fn mpc_wire(ops: &Value) -> Value {
    let mut r = Raw {
        max_sent_data: 0,
        max_sent_records: None,
        max_recv_data_online: 32,
        max_recv_data: 0,
        max_recv_records_online: None,
        defer_decryption_from_start: true,
        network: net(1),
    };
    for o in ops.as_array().unwrap() {
        let v = u(o, "v");
        match o["f"].as_str().unwrap() {
            "sent" => r.max_sent_data = v,
            "srec" => r.max_sent_records = Some(v),
            "online" => r.max_recv_data_online = v,
            "recv" => r.max_recv_data = v,
            "rrec" => r.max_recv_records_online = Some(v),
            "defer" => r.defer_decryption_from_start = v == 1,
            _ => r.network = net(v),
        };
    }
    let a: Option<mpc::MpcTlsConfig> = serde_json::from_value(serde_json::to_value(&r).unwrap()).ok();
    let b: Option<mpc::MpcTlsConfig> = bincode::deserialize(&bincode::serialize(&r).unwrap()).ok();
    match (a, b) {
        (Some(a), Some(b)) if show(&a) == show(&b) => show(&a),
        (None, None) => no(),
        _ => json!({"differ": true}),
    }
}
fn store(n: i64) -> RootCertStore {
    RootCertStore { roots: (0..n).map(|i| CertificateDer(vec![i as u8; 3])).collect() }
}
fn dns(s: &str) -> DnsName {
    DnsName::try_from(s).unwrap()
}
fn event(e: &Value) -> Value {
    let roots = || e["roots"].as_i64().unwrap();
    let right = |s: &RootCertStore| s.roots.iter().enumerate().all(|(i, c)| c.0 == vec![i as u8; 3]);
    match e["ev"].as_str().unwrap() {
        "mpc" => mpc_build(&e["ops"]),
        "mpcwire" => mpc_wire(&e["ops"]),
        "client" => {
            let mut b = TlsClientConfig::builder();
            let n = e["name"].as_str().unwrap();
            let auth = bytes_of(&e["auth"]);
            if !auth.is_empty() {
                b = b.client_auth((auth.iter().map(|x| CertificateDer(vec![*x])).collect(), PrivateKeyDer(auth.clone())));
            }
            if !n.is_empty() {
                b = b.server_name(ServerName::Dns(dns(n)));
            }
            if roots() >= 0 {
                b = b.root_store(store(roots()));
            }
            match b.build().ok().and_then(|c| wire(&c)) {
                None => no(),
                Some(c) => {
                    let ServerName::Dns(d) = c.server_name();
                    let a = c.client_auth().map(|(c, k)| {
                        if c.iter().map(|c| c.0[0]).collect::<Vec<_>>() == k.0 { k.0.clone() } else { vec![255] }
                    });
                    json!({"ok": right(c.root_store()), "name": d.as_str(), "roots": c.root_store().roots.len(), "auth": a.unwrap_or_default()})
                }
            }
        }
        "verifier" => {
            let mut b = VerifierConfig::builder();
            if roots() >= 0 {
                b = b.root_store(store(roots()));
            }
            if ProverConfig::builder().build().is_err() {
                return json!({"prover": false});
            }
            match b.build().ok().and_then(|c| wire(&c)) {
                None => no(),
                Some(c) => json!({"ok": right(c.root_store()), "roots": c.root_store().roots.len()}),
            }
        }
        "proxy" => {
            let mut b = proxy::ProxyTlsConfig::builder();
            let n = e["name"].as_str().unwrap();
            if !n.is_empty() {
                b = b.server_name(dns(n));
            }
            match b.build().ok().and_then(|c| wire(&TlsCommitConfig::from(c))) {
                Some(TlsCommitConfig::Proxy(c)) => json!({"ok": true, "name": c.server_name().to_string()}),
                Some(_) => json!({"kind": "?"}),
                None => no(),
            }
        }
        "name" => {
            let b = bytes_of(&e["b"]);
            let Ok(s) = String::from_utf8(b.clone()) else { return json!({"ok": false, "wire": false}) };
            let w: Result<DnsName, _> = serde_json::from_value(json!(s));
            let w2: Result<ServerName, _> = bincode::deserialize(&bincode::serialize(&(0u32, &s)).unwrap());
            let same = |d: &DnsName| d.as_str() == s && d.to_string() == s && d.as_ref() == s;
            let wire = match (&w, &w2) {
                (Ok(a), Ok(ServerName::Dns(b))) => same(a) && same(b),
                (Err(_), Err(_)) => false,
                _ => return json!({"differ": true}),
            };
            match (DnsName::try_from(s.as_str()), DnsName::try_from(s.clone())) {
                (Ok(a), Ok(b)) if a == b => json!({"ok": true, "str": a.as_str().as_bytes(), "wire": wire && ServerName::Dns(a.clone()).to_string() == s}),
                (Err(_), Err(_)) => json!({"ok": false, "wire": wire}),
                _ => json!({"differ": true}),
            }
        }
        "version" => json!({"v": match TlsVersion::try_from(te::ProtocolVersion::from(u(e, "v") as u16)) {
            Ok(TlsVersion::V1_2) => "12",
            Ok(TlsVersion::V1_3) => "13",
            Err(_) => "",
        }}),
        "group" => match ServerEphemKey::try_from(tls_core::key::PublicKey::new(te::NamedGroup::from(u(e, "g") as u16), &bytes_of(&e["key"]))) {
            Ok(k) => json!({"ok": k.typ == KeyType::SECP256R1, "key": k.key}),
            Err(_) => no(),
        },
        "algs" => {
            use tls_core::verify::SignatureAlgorithm as A;
            let all = [
                A::ECDSA_NISTP256_SHA256, A::ECDSA_NISTP256_SHA384, A::ECDSA_NISTP384_SHA256, A::ECDSA_NISTP384_SHA384, A::ED25519,
                A::RSA_PKCS1_2048_8192_SHA256, A::RSA_PKCS1_2048_8192_SHA384, A::RSA_PKCS1_2048_8192_SHA512,
                A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY, A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY, A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
            ];
            let show = |a: A| {
                let c = SignatureAlgorithm::from(a);
                if format!("{c:?}") == c.to_string() && wire(&c) == Some(c) { c.to_string() } else { "?".into() }
            };
            json!({"same": all.into_iter().map(show).collect::<Vec<_>>()})
        }
        _ => {
            let t = u(e, "t") as u8;
            let c = ContentType::from(te::ContentType::from(t));
            let n = format!("{c:?}");
            let back = te::ContentType::from(wire(&c).unwrap()).get_u8();
            json!({"name": n.split('(').next().unwrap(), "back": back})
        }
    }
}
pub fn main(a: &[String]) {
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let mut evs = read_scenarios(&a[0]);
    for t in 0..256 {
        evs.push(json!({"ev": "ctype", "t": t}));
    }
    for v in (0..0x400).chain((0x400..0x10000).step_by(251)) {
        evs.push(json!({"ev": "version", "v": v}));
        evs.push(json!({"ev": "group", "g": v % 0x200, "key": [v & 255, 7]}));
    }
    evs.push(json!({"ev": "algs", "names": [
        "ECDSA_NISTP256_SHA256", "ECDSA_NISTP256_SHA384", "ECDSA_NISTP384_SHA256", "ECDSA_NISTP384_SHA384", "ED25519",
        "RSA_PKCS1_2048_8192_SHA256", "RSA_PKCS1_2048_8192_SHA384", "RSA_PKCS1_2048_8192_SHA512",
        "RSA_PSS_2048_8192_SHA256_LEGACY_KEY", "RSA_PSS_2048_8192_SHA384_LEGACY_KEY", "RSA_PSS_2048_8192_SHA512_LEGACY_KEY"]}));
    for _ in 0..n {
        let k = r.below(10);
        let ops: Vec<Value> = (0..k)
            .map(|_| {
                let f = *r.pick(&["sent", "srec", "online", "recv", "recv", "sent", "rrec", "defer", "net"]);
                let v = if f == "defer" || f == "net" { r.below(2) } else { *r.pick(&[0, 1, 31, 32, 33, 1000, 1 << 30]) + r.below(2) };
                json!({"f": f, "v": v})
            })
            .collect();
        let has = |f: &str| ops.iter().any(|o| o["f"] == f);
        evs.push(json!({"ev": if has("sent") && has("recv") && r.chance(1, 2) { "mpcwire" } else { "mpc" }, "ops": ops}));
        let k = r.below(40);
        let mut b: Vec<u8> = (0..k).map(|_| *r.pick(b"abcZ019.-_.xyz")).collect();
        if r.chance(1, 10) && !b.is_empty() {
            let p = r.below(b.len());
            b[p] = r.below(128) as u8;
        }
        evs.push(json!({"ev": "name", "b": b}));
    }
    for c in evs.chunks_mut(20) {
        for e in c.iter_mut() {
            e["out"] = event(e);
        }
        out.run(c);
    }
}
