//! Server identity: handshake data and certificate chains.
use crate::certs::*;
use crate::util::*;
use serde_json::{Value, json};
use tlsn_core::connection::*;
use tlsn_core::fixtures::ConnectionFixture;
use tlsn_core::webpki::*;

fn verifier(k: &Keys, s: &Value) -> Result<ServerCertVerifier, ServerCertVerifierError> {
    let mut roots: Vec<CertificateDer> = s["roots"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| {
            CertificateDer(k.cert(&json!({"subj": r["subj"], "iss": r["subj"], "key": r["key"], "by": r["key"], "good": true,
                "nb": 0, "na": 1000, "ca": "yes", "pl": -1, "eku": "none", "names": [], "der": "ok"})))
        })
        .collect();
    if s["badroot"] == true {
        let at = roots.len() / 2;
        roots.insert(at, CertificateDer(vec![0x30, 0x03, 1, 1, 0]));
    }
    ServerCertVerifier::new(&RootCertStore { roots })
}
fn chain_err(e: &ServerCertVerifierError) -> &'static str {
    match e {
        ServerCertVerifierError::InvalidRootCertificate { .. } => "root",
        ServerCertVerifierError::InvalidEndEntityCertificate { .. } => "ee",
        ServerCertVerifierError::InvalidPath => "path",
        ServerCertVerifierError::InvalidServerName => "name",
    }
}
fn hs_err(e: &HandshakeVerificationError) -> &'static str {
    match e {
        HandshakeVerificationError::InvalidEndEntityCertificate => "ee",
        HandshakeVerificationError::MissingCerts => "missing",
        HandshakeVerificationError::InvalidServerSignature => "sig",
        HandshakeVerificationError::InvalidServerEphemeralKey => "eph",
        HandshakeVerificationError::ServerCert(e) => chain_err(e),
    }
}
fn ans<E>(r: Option<Result<(), E>>, f: impl Fn(&E) -> &'static str) -> &'static str {
    match r {
        None => "panic",
        Some(Ok(())) => "ok",
        Some(Err(e)) => f(&e),
    }
}
fn eph(key: Vec<u8>) -> ServerEphemKey {
    ServerEphemKey { typ: KeyType::SECP256R1, key }
}
fn decl(x: &str) -> SignatureAlgorithm {
    serde_json::from_value(json!(x.to_lowercase())).unwrap_or_else(|e| die(&format!("{e}: {x}")))
}
fn run(k: &Keys, s: &Value) -> &'static str {
    let v = match verifier(k, s) {
        Ok(v) => v,
        Err(e) => return chain_err(&e),
    };
    let ee = CertificateDer(k.cert(&s["ee"]));
    let ints: Vec<CertificateDer> = s["ints"].as_array().unwrap().iter().map(|c| CertificateDer(k.cert(c))).collect();
    let nm = ServerName::Dns(DnsName::try_from(dotted(&s["name"])).unwrap());
    let t = (BASE + s["t"].as_i64().unwrap()) as u64;
    if s["ev"] == "chain" {
        return ans(guard(|| v.verify_server_cert(&ee, &ints, &nm, t)), chain_err);
    }
    let (cr, sr): ([u8; 32], [u8; 32]) = ([11; 32], [22; 32]);
    let key: Vec<u8> = (4..69).collect();
    let params = [&[3u8, 0, 23, key.len() as u8][..], &key].concat();
    let kx = &s["kx"];
    let msg = match kx["msg"].as_str().unwrap() {
        "right" => [&cr[..], &sr, &params].concat(),
        "swapped" => [&sr[..], &cr, &params].concat(),
        "noclient" => [&sr[..], &params].concat(),
        "noserver" => [&cr[..], &params].concat(),
        "params" => [&cr[..], &sr, &params[..params.len() - 1]].concat(),
        _ => vec![],
    };
    let mut sig = k.sign(kx["by"].as_u64().unwrap(), &msg);
    if kx["intact"] == false {
        *sig.last_mut().unwrap() ^= 1;
    }
    let given = match s["eph"].as_str().unwrap() {
        "same" => key.clone(),
        "byte" => {
            let mut x = key.clone();
            x[64] ^= 1;
            x
        }
        "short" => key[..64].to_vec(),
        _ => [&key[..], &[0]].concat(),
    };
    let mut certs = vec![ee];
    certs.extend(ints);
    if s["none"] == true {
        certs.clear();
    }
    let hd = HandshakeData {
        certs,
        sig: ServerSignature { alg: decl(s["decl"].as_str().unwrap()), sig },
        binding: CertBinding::V1_2(CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: eph(key) }),
    };
    // what is verified is what another party received
    let hd: HandshakeData = bincode::deserialize(&bincode::serialize(&hd).unwrap()).unwrap();
    ans(guard(|| hd.verify(&v, t, &eph(given.clone()), &nm)), hs_err)
}
fn hex(v: &Value) -> Vec<u8> {
    let s = v.as_str().unwrap();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
const ALGS: [&str; 11] = [
    "ECDSA_NISTP256_SHA256", "ECDSA_NISTP256_SHA384", "ECDSA_NISTP384_SHA256", "ECDSA_NISTP384_SHA384", "ED25519",
    "RSA_PKCS1_2048_8192_SHA256", "RSA_PKCS1_2048_8192_SHA384", "RSA_PKCS1_2048_8192_SHA512",
    "RSA_PSS_2048_8192_SHA256_LEGACY_KEY", "RSA_PSS_2048_8192_SHA384_LEGACY_KEY", "RSA_PSS_2048_8192_SHA512_LEGACY_KEY",
];
fn algs(r: &mut Rng, full: bool, out: &mut Out) {
    let fx: Value = serde_json::from_str(include_str!("../fixtures/algs.json")).unwrap();
    let v = ServerCertVerifier::new(&RootCertStore { roots: vec![CertificateDer(hex(&fx["ca"]))] }).unwrap();
    let nm = ServerName::Dns(DnsName::try_from("a.x.test").unwrap());
    let key: Vec<u8> = std::iter::once(4).chain((0..64u32).map(|i| (7 * i % 251) as u8)).collect();
    for (name, cert) in fx["certs"].as_object().unwrap() {
        let mut evs = vec![];
        for s in fx["sigs"].as_array().unwrap() {
            let related = s["key"].as_str().unwrap()[..1] == name[..1];
            if !related && !full && !r.chance(1, 4) {
                continue;
            }
            for d in ALGS {
                for (same, intact) in [(true, true), (false, true), (true, false)] {
                    if !(same && intact) && !full && !r.chance(1, 3) {
                        continue;
                    }
                    let mut sig = hex(&s["sig"]);
                    if !intact {
                        let p = sig.len() - 1 - r.below(16);
                        sig[p] ^= 1 << r.below(8);
                    }
                    let mi = s["msg"].as_u64().unwrap() == 0;
                    let mut sr = [22u8; 32];
                    if mi != same {
                        sr[31] = 23;
                    }
                    let hd = HandshakeData {
                        certs: vec![CertificateDer(hex(cert))],
                        sig: ServerSignature { alg: decl(d), sig },
                        binding: CertBinding::V1_2(CertBindingV1_2 { client_random: [11; 32], server_random: sr, server_ephemeral_key: eph(key.clone()) }),
                    };
                    let o = ans(guard(|| hd.verify(&v, 1_900_000_000, &eph(key.clone()), &nm)), hs_err);
                    evs.push(json!({"ev": "alg", "key": name, "by": s["key"], "alg": s["alg"], "decl": d, "same": same, "intact": intact, "out": o}));
                }
            }
        }
        out.run(&evs);
    }
}
fn captures(out: &mut Out) {
    let t = tlsn_core::transcript::Transcript::new([1, 2], [3]).length();
    for (f, mut c) in [("tlsnotary", ConnectionFixture::tlsnotary(t.clone())), ("appliedzkp", ConnectionFixture::appliedzkp(t.clone()))] {
        let root = c.server_cert_data.certs.last().unwrap().clone();
        let ord = c.server_cert_data.certs.len();
        let key = c.server_ephemeral_key().clone();
        let base = c.server_cert_data.clone();
        let mut evs = vec![];
        for p in ["", "noca", "time", "noint", "host", "cr", "sr", "sig", "alg", "key", "keylen", "none", "noroot", "both"] {
            let mut hd = base.clone();
            let mut k = key.clone();
            let mut roots = vec![root.clone()];
            let mut time = c.connection_info.time;
            c.server_name = c.server_name.clone();
            let mut nm = c.server_name.clone();
            let CertBinding::V1_2(b) = &mut hd.binding else { die("binding") };
            match p {
                "noca" => hd.certs.truncate(ord - 1),
                "time" => time = 1_571_465_711,
                "noint" => {
                    hd.certs.remove(1);
                }
                "host" => nm = ServerName::Dns(DnsName::try_from("badhost.com").unwrap()),
                "cr" => b.client_random[0] ^= 1,
                "sr" => b.server_random[31] ^= 1,
                "sig" => *hd.sig.sig.last_mut().unwrap() ^= 1,
                "alg" => hd.sig.alg = SignatureAlgorithm::ED25519,
                "key" => k.key[1] ^= 1,
                "keylen" => k.key.truncate(33),
                "none" => hd.certs.clear(),
                "noroot" => roots.clear(),
                // recorded and session key changed together
                "both" => {
                    k.key[5] ^= 1;
                    b.server_ephemeral_key.key[5] ^= 1;
                }
                _ => {}
            }
            let v = ServerCertVerifier::new(&RootCertStore { roots }).unwrap();
            let o = ans(guard(|| hd.verify(&v, time, &k, &nm)), hs_err);
            evs.push(json!({"ev": "cap", "f": f, "p": p, "out": o}));
        }
        out.run(&evs);
    }
}

fn mutate(r: &mut Rng, s: &mut Value) {
    let t = [-1i64, 0, 1, 499, 500, 501, 999, 1000, 1001, 1_000_000_000];
    match r.below(13) {
        0 => s["t"] = json!(r.pick(&t)),
        1 => s["name"] = json!(r.pick(&[vec!["a", "x", "test"], vec!["q", "y", "test"], vec!["a", "test"]])),
        2 => {
            let i = r.below(s["ints"].as_array().unwrap().len() + 1);
            let c = if i == 0 { s["ee"].clone() } else { s["ints"][i - 1].clone() };
            let a = s["ints"].as_array_mut().unwrap();
            let p = r.below(a.len() + 1);
            a.insert(p, c);
        }
        3 => {
            let a = s["roots"].as_array_mut().unwrap();
            let p = r.below(a.len() + 1);
            let x = json!({"subj": r.range(1, 9), "key": r.range(1, 9)});
            a.insert(p, x);
        }
        12 => {
            // certificates that lead nowhere
            let mut d = s["ee"].clone();
            for i in 0..r.range(3, 9) {
                d["subj"] = json!(20 + i);
                d["iss"] = json!(30 + i);
                d["key"] = json!(r.range(1, 9));
                d["ca"] = json!("yes");
                let a = s["ints"].as_array_mut().unwrap();
                let p = r.below(a.len() + 1);
                a.insert(p, d.clone());
                let a = s["roots"].as_array_mut().unwrap();
                let p = r.below(a.len() + 1);
                a.insert(p, json!({"subj": 40 + i, "key": r.range(1, 9)}));
            }
        }
        4 => s["eph"] = json!(r.pick(&["same", "byte", "short", "long"])),
        5 => s["kx"] = json!({"by": r.pick(&[9, 9, 7]), "msg": r.pick(&["right", "right", "swapped", "params"]), "intact": r.chance(3, 4)}),
        _ => {
            let n = s["ints"].as_array().unwrap().len();
            let i = r.below(n + 1);
            let c = if i == 0 { &mut s["ee"] } else { &mut s["ints"][i - 1] };
            match r.below(11) {
                0 => c["nb"] = json!(r.pick(&t[..9])),
                1 => c["na"] = json!(r.pick(&t[..9])),
                2 => c["ca"] = json!(r.pick(&["none", "no", "yes", "yes"])),
                3 => c["eku"] = json!(r.pick(&["none", "server", "client", "both", "other"])),
                4 => c["good"] = json!(!c["good"].as_bool().unwrap()),
                5 => c["by"] = json!(r.range(1, 9)),
                6 => c["iss"] = json!(r.range(1, 9)),
                7 => c["key"] = json!(r.range(1, 9)),
                8 => c["subj"] = json!(r.range(1, 9)),
                9 => c["names"] = json!(r.pick(&[vec![], vec![vec!["a", "x", "test"]], vec![vec!["*", "y", "test"]]])),
                _ => c["pl"] = json!(r.range(0, 2)),
            }
        }
    }
}
pub fn main(a: &[String]) {
    let scn = read_scenarios(&a[0]);
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let k = Keys::new();
    if a.get(4).is_some_and(|x| x.starts_with("algs")) {
        captures(&mut out);
        algs(&mut r, a[4] == "algs-full", &mut out);
        return;
    }
    let mut evs = vec![];
    let mut emit = |evs: &mut Vec<Value>, mut s: Value| {
        s["out"] = json!(run(&k, &s));
        evs.push(s);
        if evs.len() >= 20 {
            out.run(evs);
            evs.clear();
        }
    };
    for s in &scn {
        emit(&mut evs, s.clone());
    }
    for _ in 0..n {
        let mut s = scn[r.below(scn.len())].clone();
        for _ in 0..r.range(1, 4) {
            mutate(&mut r, &mut s);
        }
        emit(&mut evs, s);
    }
    if !evs.is_empty() {
        out.run(&evs);
    }
}
