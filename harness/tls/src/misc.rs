//! PRF, suites, names and small helpers.
use crate::util::*;
use serde_json::{Value, json};

pub fn prf(a: &[String]) {
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let mut cases: Vec<[usize; 4]> =
        read_scenarios(&a[0]).iter().map(|s| [u(s, "n"), u(s, "sec"), u(s, "lab"), u(s, "seed")]).collect();
    for _ in 0..n {
        cases.push([r.below(180), r.below(140), r.below(30), r.below(100)]);
    }
    for c in cases.chunks(10) {
        let evs: Vec<Value> = c
            .iter()
            .map(|&[n, sec, lab, seed]| {
                let (sec, lab, seed) = (r.bytes(sec), r.bytes(lab), r.bytes(seed));
                // independent HMAC table: every message P_hash may ask for
                let key = ring::hmac::Key::new(ring::hmac::HMAC_SHA256, &sec);
                let ls = [lab.clone(), seed.clone()].concat();
                let mac = |m: &[u8]| ring::hmac::sign(&key, m).as_ref().to_vec();
                let mut h = vec![];
                let mut x = ls.clone();
                for _ in 0..n.div_ceil(32) {
                    let d = mac(&x);
                    let m2 = [d.clone(), ls.clone()].concat();
                    h.push(json!({"m": x, "d": d}));
                    h.push(json!({"m": m2, "d": mac(&m2)}));
                    x = d;
                }
                let mut o = vec![0xa5u8; n];
                let res = guard(|| tls_core::prf::prf(&mut o, &sec, &lab, &seed).is_ok());
                if res != Some(true) {
                    o = vec![];
                }
                json!({"ev": "prf", "n": n, "secret": sec.len(), "lab": lab.len(), "label": ls[..lab.len()].to_vec(),
                    "seed": seed, "h": h, "out": o})
            })
            .collect();
        out.run(&evs);
    }
}

use tls_core::{
    msgs::{
        codec::{Codec, Reader},
        enums::{CipherSuite, ContentType, HashAlgorithm, NamedGroup, ProtocolVersion, SignatureAlgorithm, SignatureScheme},
        handshake::{ClientExtension, DecomposedSignatureScheme, ServerECDHParams, SessionID},
    },
    suites::{self, SupportedCipherSuite},
    versions::{EnabledVersions, TLS12, TLS13},
};

fn suite(id: u64) -> SupportedCipherSuite {
    match id {
        49199 => suites::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
        49200 => suites::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384,
        49195 => suites::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256,
        49196 => suites::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,
        52392 => suites::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256,
        52393 => suites::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256,
        4865 => suites::TLS13_AES_128_GCM_SHA256,
        4866 => suites::TLS13_AES_256_GCM_SHA384,
        4867 => suites::TLS13_CHACHA20_POLY1305_SHA256,
        _ => die("suite"),
    }
}
fn ids(v: &Value) -> Vec<u64> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
}
fn sup(v: &Value) -> Vec<SupportedCipherSuite> {
    ids(v).into_iter().map(suite).collect()
}
fn sch(v: &[SignatureScheme]) -> Vec<u16> {
    v.iter().map(|s| s.get_u16()).collect()
}
fn codes(v: &[SupportedCipherSuite]) -> Vec<u16> {
    v.iter().map(|s| s.suite().get_u16()).collect()
}

fn suite_event(e: &Value) -> Value {
    let cs = |v: &Value| ids(v).iter().map(|x| CipherSuite::from(*x as u16)).collect::<Vec<_>>();
    let r = guard(|| match e["ev"].as_str().unwrap() {
        "info" => {
            let s = suite(e["id"].as_u64().unwrap());
            let (iv, ex, schemes, aead) = match s {
                SupportedCipherSuite::Tls12(i) => (i.fixed_iv_len, i.explicit_nonce_len, sch(i.sign), format!("{:?}", i.common.aead_algorithm)),
                SupportedCipherSuite::Tls13(i) => (0, 0, vec![], format!("{:?}", i.common.aead_algorithm)),
            };
            if s.suite().get_u16() as u64 != e["id"].as_u64().unwrap() || s.tls13().is_some() != (s.version().version == ProtocolVersion::TLSv1_3) {
                return json!("mismatch");
            }
            json!({"ver": s.version().version.get_u16(), "hash": format!("{:?}", s.hash_algorithm()),
                "hlen": s.hash_algorithm().output_len(), "aead": aead, "iv": iv, "ex": ex, "schemes": schemes})
        }
        "offered" => {
            let a = codes(suites::ALL_CIPHER_SUITES);
            if codes(suites::DEFAULT_CIPHER_SUITES) != a {
                return json!("mismatch");
            }
            json!(a)
        }
        "client" => json!(codes(&suites::choose_ciphersuite_preferring_client(&cs(&e["client"]), &sup(&e["server"])).into_iter().collect::<Vec<_>>())),
        "server" => json!(codes(&suites::choose_ciphersuite_preferring_server(&cs(&e["client"]), &sup(&e["server"])).into_iter().collect::<Vec<_>>())),
        "bysig" => json!(codes(&suites::reduce_given_sigalg(&sup(&e["suites"]), SignatureAlgorithm::from(u(e, "alg") as u8)))),
        "byver" => json!(codes(&suites::reduce_given_version(&sup(&e["suites"]), ProtocolVersion::from(u(e, "v") as u16)))),
        "compat" => json!(suites::compatible_sigscheme_for_suites(SignatureScheme::from(u(e, "scheme") as u16), &sup(&e["suites"]))),
        "resolve" => match suite(e["id"].as_u64().unwrap()) {
            SupportedCipherSuite::Tls12(i) => {
                let o: Vec<SignatureScheme> = ids(&e["offered"]).iter().map(|x| SignatureScheme::from(*x as u16)).collect();
                json!(sch(&i.resolve_sig_schemes(&o)))
            }
            _ => json!("mismatch"),
        },
        "resume" => {
            let (a, b) = (suite(e["a"].as_u64().unwrap()).tls13().unwrap(), suite(e["b"].as_u64().unwrap()).tls13().unwrap());
            match a.can_resume_from(b) {
                Some(x) if x == b => json!(true),
                Some(_) => json!("mismatch"),
                None => json!(false),
            }
        }
        "schemealg" => json!(SignatureScheme::from(u(e, "scheme") as u16).sign().get_u8()),
        "hashlen" => {
            use suites::HashAlgorithm::*;
            json!([SHA1, SHA256, SHA384, SHA512, SHA512_256].map(|h| h.output_len()))
        }
        "eq" => {
            let (a, b) = (suite(e["a"].as_u64().unwrap()), suite(e["b"].as_u64().unwrap()));
            json!(a == b)
        }
        "sentinel" => json!(suites::tls12::DOWNGRADE_SENTINEL),
        "allversions" => {
            let v = |l: &[&tls_core::versions::SupportedProtocolVersion]| l.iter().map(|v| v.version.get_u16()).collect::<Vec<_>>();
            let a = v(tls_core::versions::ALL_VERSIONS);
            if a != v(tls_core::versions::DEFAULT_VERSIONS) {
                return json!("mismatch");
            }
            json!(a)
        }
        "randoms" => {
            let arr = |k: &str| -> [u8; 32] { bytes_of(&e[k]).try_into().unwrap() };
            json!(suites::tls12::join_randoms(&arr("a"), &arr("b")).to_vec())
        }
        "make" => json!(SignatureScheme::make(SignatureAlgorithm::from(u(e, "alg") as u8), HashAlgorithm::from(u(e, "hash") as u8)).get_u16()),
        "versions" => {
            let on: Vec<_> = ids(&e["on"]).iter().map(|x| if *x == 771 { &TLS12 } else { &TLS13 }).collect();
            let ev = EnabledVersions::new(&on);
            json!(ids(&e["ask"]).iter().map(|x| ev.contains(ProtocolVersion::from(*x as u16))).collect::<Vec<_>>())
        }
        _ => die("event"),
    });
    r.unwrap_or(json!("panic"))
}

fn batch(out: &mut Out, evs: Vec<Value>) {
    for c in evs.chunks(50) {
        out.run(c);
    }
}

pub fn suites(a: &[String]) {
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let mut evs = read_scenarios(&a[0]);
    for x in 0..0x10000u32 {
        // all named ranges and a sample of the rest
        if x < 0x1000 || r.chance(1, 64) {
            evs.push(json!({"ev": "schemealg", "scheme": x}));
        }
    }
    for _ in 0..8 {
        evs.push(json!({"ev": "randoms", "a": r.bytes(32), "b": r.bytes(32)}));
    }
    let all = [49199u64, 49200, 49195, 49196, 52392, 52393, 4865, 4866, 4867];
    for _ in 0..n {
        let mut pick = |m: usize| (0..r.below(m)).map(|_| *r.pick(&all)).collect::<Vec<_>>();
        let (c, s) = (pick(12), pick(14));
        let t = *r.pick(&["client", "server"]);
        evs.push(json!({"ev": t, "client": c, "server": s}));
        evs.push(json!({"ev": "bysig", "alg": r.range(1, 4), "suites": s}));
        evs.push(json!({"ev": "compat", "scheme": *r.pick(&[1027, 1283, 2052, 513, 2055, 1025, 1, 1539]), "suites": s}));
        let off: Vec<u16> = (0..r.below(8)).map(|_| *r.pick(&[2055u16, 1539, 1283, 1027, 2054, 2053, 2052, 1537, 1281, 1025, 513, 7])).collect();
        evs.push(json!({"ev": "resolve", "id": all[r.below(6)], "offered": off}));
    }
    for e in evs.iter_mut() {
        e["out"] = suite_event(e);
    }
    batch(&mut out, evs);
}

fn name_event(b: &[u8]) -> Value {
    let o = guard(|| {
        let Ok(s) = std::str::from_utf8(b) else { return json!({"ok": false}) };
        match tls_core::dns::ServerName::try_from(s) {
            Err(_) => json!({"ok": false}),
            Ok(n) => {
                let sni = n.for_sni().unwrap_or_else(|| die("sni"));
                let mut ext = vec![];
                ClientExtension::make_sni(sni.clone()).encode(&mut ext);
                json!({"ok": true, "sni": sni.as_ref().as_bytes(), "enc": n.encode(), "ext": ext})
            }
        }
    });
    json!({"ev": "name", "b": b, "out": o.unwrap_or(json!({"ok": "panic"}))})
}

pub fn names(a: &[String]) {
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let mut evs: Vec<Value> = read_scenarios(&a[0]).iter().map(|s| name_event(&bytes_of(&s["b"]))).collect();
    for _ in 0..n {
        let k = r.below(40);
        let mut b: Vec<u8> = (0..k).map(|_| *r.pick(b"abcZ019.-_.xyz")).collect();
        if r.chance(1, 10) && !b.is_empty() {
            let p = r.below(b.len());
            b[p] = r.below(128) as u8;
        }
        evs.push(name_event(&b));
        // additional data of a TLS 1.2 record
        let seq = if r.chance(1, 3) { r.next() >> r.below(64) } else { r.next() };
        let (t, v, l) = (r.next() as u8, r.next() as u16, *r.pick(&[0usize, 1, 255, 256, 16384, 65535]) + r.below(2));
        let aad = guard(|| tls_core::cipher::make_tls12_aad(seq, ContentType::from(t), ProtocolVersion::from(v), l).to_vec());
        evs.push(json!({"ev": "aad", "seq": seq.to_be_bytes(), "typ": t, "ver": v, "len": l, "out": aad.unwrap_or_default()}));
        let len = match r.below(4) {
            0 => r.below(300),
            1 => r.below(70000),
            2 => *r.pick(&[0usize, 1, 127, 128, 255, 256, 65535, 65536, 65537]),
            _ => r.below(130),
        };
        let body = r.bytes(len);
        let mut v = body.clone();
        let o = guard(|| {
            tls_core::x509::wrap_in_sequence(&mut v);
            let h = v.len() - body.len();
            if v[h..] == body[..] { v[..h].to_vec() } else { vec![] }
        });
        evs.push(json!({"ev": "der", "n": len, "out": o.unwrap_or_default()}));
        let (x, y): ([u8; 32], [u8; 32]) = (r.bytes(32).try_into().unwrap(), r.bytes(32).try_into().unwrap());
        evs.push(json!({"ev": "randoms", "a": x, "b": y, "out": suites::tls12::join_randoms(&x, &y).to_vec()}));
        let la = r.below(33);
        let sa = r.bytes(la);
        let mut sb = sa.clone();
        match r.below(4) {
            0 => sb = r.bytes(la),
            1 if la > 0 => sb[la - 1] ^= 1,
            2 if la > 0 => { sb.pop(); }
            _ => {}
        }
        let sid = |b: &[u8]| {
            let mut w = vec![b.len() as u8];
            w.extend_from_slice(b);
            SessionID::read(&mut Reader::init(&w)).unwrap_or_else(|| die("sid"))
        };
        evs.push(json!({"ev": "sid", "a": sa, "b": sb, "out": sid(&sa) == sid(&sb)}));
        let nr = r.below(4);
        let subj: Vec<Vec<u8>> = (0..nr).map(|_| { let k = *r.pick(&[0usize, 5, 127, 128, 200, 300]); r.bytes(k) }).collect();
        let mut st = tls_core::anchors::RootCertStore::empty();
        for s in &subj {
            st.roots.push(rustls_pki_types::TrustAnchor {
                subject: rustls_pki_types::Der::from(s.clone()),
                subject_public_key_info: rustls_pki_types::Der::from(vec![1]),
                name_constraints: None,
            });
        }
        evs.push(json!({"ev": "subjects", "names": subj, "out": st.subjects().iter().map(|d| d.0.clone()).collect::<Vec<_>>()}));
        evs.push(json!({"ev": "root", "names": subj, "out": {"n": st.len(), "empty": st.is_empty()}}));
        let kl = r.below(70);
        let mut p = vec![];
        ServerECDHParams::new(NamedGroup::from(23), &r.bytes(kl)).encode(&mut p);
        let extra = r.below(3);
        let xs = r.bytes(extra);
        p.extend(xs);
        evs.push(json!({"ev": "ecdh", "extra": extra, "out": suites::tls12::decode_ecdh_params::<ServerECDHParams>(&p).is_some()}));
    }
    batch(&mut out, evs);
}
