//! Server identity: executes abstract certificate scenarios with real keys,
//! certificates, timestamps and signatures.
use crate::util::*;
use ring::signature::KeyPair;
use serde_json::{Value, json};
use std::{
    sync::Mutex,
    time::{Duration, SystemTime},
};
use crate::certs::*;
use tls_core::{
    Error,
    anchors::RootCertStore,
    cert::ServerCertDetails,
    dns::ServerName,
    handshake::HandshakeData,
    ke::ServerKxDetails,
    key::Certificate,
    msgs::{
        enums::SignatureScheme,
        handshake::{DigitallySignedStruct, Random},
    },
    verify::{
        CertificateTransparencyPolicy, ClientCertVerifier, HandshakeSignatureValid, ServerCertVerified,
        ServerCertVerifier, WebPkiVerifier, construct_tls13_client_verify_message,
        construct_tls13_server_verify_message, verify_sig_determine_alg,
    },
};

impl Keys {
    fn log_id(&self, id: u64) -> [u8; 32] {
        [id as u8; 32]
    }
    fn sct(&self, x: &Value, cert: &[u8]) -> Vec<u8> {
        let g = |k: &str| x[k].as_u64().unwrap();
        let ts = ((BASE + x["ts"].as_i64().unwrap()) * 1000) as u64;
        let other = [1u8, 2, 3];
        let c: &[u8] = if x["cert"] == "this" { cert } else { &other };
        let mut d = vec![0, 0];
        d.extend(ts.to_be_bytes());
        d.extend([0, 0, 0, (c.len() >> 8) as u8, c.len() as u8]);
        d.extend_from_slice(c);
        d.extend([0, 0]);
        let sig = self.sign(1000 + g("by"), &d);
        let mut s = vec![g("ver") as u8];
        s.extend(self.log_id(g("log")));
        s.extend(ts.to_be_bytes());
        s.extend([0, 0, 4, 3]);
        s.extend((sig.len() as u16).to_be_bytes());
        s.extend(sig);
        if x["mal"].as_bool().unwrap() {
            s.pop();
        }
        s
    }
    fn verifier(&self, s: &Value) -> WebPkiVerifier {
        let mut store = RootCertStore::empty();
        for r in s["roots"].as_array().unwrap() {
            store.roots.push(rustls_pki_types::TrustAnchor {
                subject: rustls_pki_types::Der::from(name_body(r["subj"].as_u64().unwrap())),
                subject_public_key_info: rustls_pki_types::Der::from(self.spki_body(r["key"].as_u64().unwrap())),
                name_constraints: None,
            });
        }
        let ct = &s["ct"];
        let policy = ct["on"].as_bool().unwrap().then(|| {
            let logs: Vec<&'static sct::Log<'static>> = ct["logs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|l| {
                    let l = l.as_u64().unwrap();
                    let key: &'static [u8] =
                        Box::leak(self.get(1000 + l).public_key().as_ref().to_vec().into_boxed_slice());
                    &*Box::leak(Box::new(sct::Log {
                        description: "",
                        url: "",
                        operated_by: "",
                        key,
                        id: self.log_id(l),
                        max_merge_delay: 0,
                    }))
                })
                .collect();
            CertificateTransparencyPolicy::new(Box::leak(logs.into_boxed_slice()), at(&ct["dl"]))
        });
        WebPkiVerifier::new(store, policy)
    }
}
fn at(t: &Value) -> SystemTime {
    let x = BASE + t.as_i64().unwrap();
    if x >= 0 {
        SystemTime::UNIX_EPOCH + Duration::from_secs(x as u64)
    } else {
        SystemTime::UNIX_EPOCH - Duration::from_secs((-x) as u64)
    }
}
fn class(e: &Error) -> String {
    match e {
        Error::InvalidCertificateEncoding => "encoding".into(),
        Error::InvalidCertificateSignature => "sig".into(),
        Error::InvalidCertificateSignatureType => "sigtype".into(),
        Error::InvalidCertificateData(_) => "data".into(),
        Error::InvalidSct(e) => format!("sct:{e:?}"),
        Error::FailedToGetCurrentTime => "time".into(),
        Error::PeerMisbehavedError(_) => "misbehaved".into(),
        Error::NoCertificatesPresented => "nocerts".into(),
        Error::General(x) => x.clone(),
        e => format!("other:{e:?}"),
    }
}
fn res<T>(r: Option<Result<T, Error>>) -> String {
    match r {
        None => "panic".into(),
        Some(Ok(_)) => "ok".into(),
        Some(Err(e)) => class(&e),
    }
}

fn chain(k: &Keys, s: &Value) -> String {
    let ee = k.cert(&s["ee"]);
    let ints: Vec<Certificate> = s["ints"].as_array().unwrap().iter().map(|c| Certificate(k.cert(c))).collect();
    let scts: Vec<Vec<u8>> = s["scts"].as_array().unwrap().iter().map(|x| k.sct(x, &ee)).collect();
    let v = k.verifier(s);
    let nm = dotted(&s["name"]);
    let sn = ServerName::try_from(nm.as_str()).unwrap_or_else(|_| die("name"));
    if s["ev"] == "chain" {
        return res(guard(|| {
            v.verify_server_cert(
                &Certificate(ee.clone()),
                &ints,
                &sn,
                &mut scts.iter().map(|x| x.as_slice()),
                &[],
                at(&s["t"]),
            )
        }));
    }
    // whole handshake
    let kx = &s["kx"];
    let (cr, sr): ([u8; 32], [u8; 32]) = ([11; 32], [22; 32]);
    let params = vec![3u8, 0, 23, 4, 5, 6, 7];
    let msg = match kx["msg"].as_str().unwrap() {
        "right" => [&cr[..], &sr, &params].concat(),
        "swapped" => [&sr[..], &cr, &params].concat(),
        "noclient" => [&sr[..], &params].concat(),
        "noserver" => [&cr[..], &params].concat(),
        "params" => [&cr[..], &sr, &params[..6]].concat(),
        _ => vec![],
    };
    let mut sig = k.sign(kx["by"].as_u64().unwrap(), &msg);
    if !kx["intact"].as_bool().unwrap() {
        *sig.last_mut().unwrap() ^= 1;
    }
    let mut chain = vec![Certificate(ee)];
    chain.extend(ints);
    let hd = HandshakeData::new(
        ServerCertDetails::new(chain, vec![], sct_list(&scts)),
        ServerKxDetails::new(params, DigitallySignedStruct::new(SignatureScheme::ECDSA_NISTP256_SHA256, sig)),
        Random(cr),
        Random(sr),
    );
    res(guard(|| hd.verify(&v, at(&s["t"]), &sn)))
}
fn sct_list(s: &[Vec<u8>]) -> Option<tls_core::msgs::handshake::SCTList> {
    if s.is_empty() {
        return None;
    }
    Some(s.iter().map(|x| tls_core::msgs::base::PayloadU16(x.clone())).collect())
}

/// A verifier that records what it is asked and answers as told.
struct Mock {
    calls: Mutex<Vec<Value>>,
    vc: String,
    vs: String,
}
fn id_of(c: &Certificate) -> u64 {
    c.0.iter().fold(0, |a, b| a * 256 + *b as u64)
}
impl ServerCertVerifier for Mock {
    fn verify_server_cert(
        &self,
        ee: &Certificate,
        ints: &[Certificate],
        name: &ServerName,
        scts: &mut (dyn Iterator<Item = &[u8]> + Send),
        ocsp: &[u8],
        now: SystemTime,
    ) -> Result<ServerCertVerified, Error> {
        let t = now.duration_since(SystemTime::UNIX_EPOCH).map(|d| d.as_secs() as i64 - BASE).unwrap_or(-1);
        self.calls.lock().unwrap().push(json!({"c": "cert", "ee": id_of(ee),
            "ints": ints.iter().map(id_of).collect::<Vec<_>>(),
            "name": name.for_sni().map(|n| n.as_ref().to_string()).unwrap_or_default(),
            "scts": scts.map(|s| s.to_vec()).collect::<Vec<_>>(), "ocsp": ocsp, "t": t}));
        if self.vc == "ok" { Ok(ServerCertVerified::assertion()) } else { Err(Error::General(self.vc.clone())) }
    }
    fn verify_tls12_signature(&self, m: &[u8], c: &Certificate, d: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, Error> {
        self.calls.lock().unwrap().push(json!({"c": "sig", "msg": m, "cert": id_of(c),
            "scheme": d.scheme.get_u16(), "sig": d.sig.0}));
        if self.vs == "ok" { Ok(HandshakeSignatureValid::assertion()) } else { Err(Error::General(self.vs.clone())) }
    }
    fn verify_tls13_signature(&self, _: &[u8], _: &Certificate, _: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, Error> {
        self.calls.lock().unwrap().push(json!({"c": "sig13"}));
        Err(Error::General("tls13".into()))
    }
}
fn hs(r: &mut Rng) -> Value {
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 5, 12]);
    let chain: Vec<u64> = (0..n).map(|_| r.below(200) as u64 + 1).collect();
    let ns = if r.chance(1, 6) { r.range(4, 12) } else { r.below(4) };
    let scts: Vec<Vec<u8>> = (0..ns).map(|_| { let k = r.below(4); r.bytes(k) }).collect();
    let nocsp = r.below(4);
    let ocsp = r.bytes(nocsp);
    let (cr, sr) = (r.bytes(32), r.bytes(32));
    let nk = r.below(10);
    let kx = r.bytes(nk);
    let ng = r.below(6);
    let sig = r.bytes(ng);
    let scheme = *r.pick(&[0x0403u16, 0x0804, 0x0201, 0x1234]);
    let nm = *r.pick(&["a.test", "b.x.test"]);
    let t = r.below(1000) as i64;
    let vc = *r.pick(&["ok", "ok", "cert-bad"]);
    let vs = *r.pick(&["ok", "ok", "sig-bad"]);
    let mock = Mock { calls: Mutex::new(vec![]), vc: vc.into(), vs: vs.into() };
    let arr = |v: &[u8]| -> [u8; 32] { v.try_into().unwrap() };
    let none = scts.is_empty() && r.chance(1, 2);
    let hd = HandshakeData::new(
        ServerCertDetails::new(
            chain.iter().map(|x| Certificate(vec![*x as u8])).collect(),
            ocsp.clone(),
            if none { None } else { Some(scts.iter().map(|x| tls_core::msgs::base::PayloadU16(x.clone())).collect()) },
        ),
        ServerKxDetails::new(kx.clone(), DigitallySignedStruct::new(SignatureScheme::from(scheme), sig.clone())),
        Random(arr(&cr)),
        Random(arr(&sr)),
    );
    let sn = ServerName::try_from(nm).unwrap();
    let tm = at(&json!(t));
    let r1 = res(guard(|| hd.verify(&mock, tm, &sn)));
    let (c, x) = (hd.server_cert_details(), hd.server_kx_details());
    let acc = json!({"chain": c.cert_chain().iter().map(|c| c.0[0]).collect::<Vec<_>>(), "ocsp": c.ocsp_response(),
        "scts": c.scts().map(|l| l.iter().map(|s| s.0.clone()).collect::<Vec<_>>()).unwrap_or_default(), "has": c.scts().is_some(),
        "kx": x.kx_params(), "scheme": x.kx_sig().scheme.get_u16(), "sig": x.kx_sig().sig.0,
        "cr": hd.client_random().0, "sr": hd.server_random().0});
    let calls = mock.calls.lock().unwrap().clone();
    json!({"ev": "hs", "chain": chain, "scts": scts, "ocsp": ocsp, "cr": cr, "sr": sr, "kx": kx, "sig": sig,
        "scheme": scheme, "name": nm, "t": t, "vc": vc, "vs": vs, "has": !none, "acc": acc, "out": {"res": r1, "calls": calls}})
}

/// Verifiers that keep every default of their trait.
struct ServerDef;
impl ServerCertVerifier for ServerDef {
    fn verify_server_cert(
        &self, _: &Certificate, _: &[Certificate], _: &ServerName, _: &mut (dyn Iterator<Item = &[u8]> + Send), _: &[u8], _: SystemTime,
    ) -> Result<ServerCertVerified, Error> {
        Ok(ServerCertVerified::assertion())
    }
}
struct ClientDef;
impl ClientCertVerifier for ClientDef {
    fn client_auth_root_subjects(&self) -> Option<tls_core::msgs::handshake::DistinguishedNames> {
        None
    }
}
struct ClientOff;
impl ClientCertVerifier for ClientOff {
    fn offer_client_auth(&self) -> bool {
        false
    }
    fn client_auth_root_subjects(&self) -> Option<tls_core::msgs::handshake::DistinguishedNames> {
        None
    }
}

/// The handshake signature product: key x scheme x signature x tampering x function.
pub fn sigs(a: &[String]) {
    let fx: Value = serde_json::from_str(include_str!("../fixtures/sigs.json")).unwrap();
    let hex = |v: &Value| -> Vec<u8> {
        let s = v.as_str().unwrap();
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    let mut r = Rng::new(a[1].parse().unwrap());
    let full = a[2] != "0";
    let mut out = Out::new(&a[3]);
    let k = Keys::new();
    let v = k.verifier(&json!({"roots": [], "ct": {"on": false}}));
    let msgs: Vec<Vec<u8>> = fx["msgs"].as_array().unwrap().iter().map(|m| hex(m)).collect();
    let mut schemes: Vec<u16> = vec![0x0403, 0x0503, 0x0603, 0x0807, 0x0808, 0x0401, 0x0501, 0x0601, 0x0804, 0x0805, 0x0806,
        0x0201, 0x0203, 0x0809, 0x080a, 0, 0xffff];
    for _ in 0..5 {
        schemes.push(r.next() as u16);
    }
    let probe = |fnn: &str, c: &Certificate, m: &[u8], d: &DigitallySignedStruct| -> String {
        match fnn {
            "12" => res(guard(|| v.verify_tls12_signature(m, c, d))),
            "13" => res(guard(|| v.verify_tls13_signature(m, c, d))),
            "s12" => res(guard(|| ServerDef.verify_tls12_signature(m, c, d))),
            "s13" => res(guard(|| ServerDef.verify_tls13_signature(m, c, d))),
            "c12" => res(guard(|| ClientDef.verify_tls12_signature(m, c, d))),
            "c13" => res(guard(|| ClientDef.verify_tls13_signature(m, c, d))),
            _ => match guard(|| verify_sig_determine_alg(c, m, d)) {
                Some(Ok(a)) => format!("det:{a:?}"),
                x => res(x),
            },
        }
    };
    for (key, cert) in fx["certs"].as_object().unwrap() {
        let der = hex(cert);
        let mut evs = vec![];
        for s in fx["sigs"].as_array().unwrap() {
            let related = s["key"].as_str().unwrap()[..1] == key[..1];
            for &scheme in &schemes {
                for fnn in ["12", "13", "det", "s12", "s13", "c12", "c13"] {
                    // the trait defaults share the verifier's code: sample them
                    if fnn.len() == 3 && fnn != "det" && !full && !r.chance(1, 3) {
                        continue;
                    }
                    // keys of another kind cannot verify at all: sample them
                    if !related && !full && !r.chance(1, 6) {
                        continue;
                    }
                    for (same, intact, ok) in [(true, true, "ok"), (false, true, "ok"), (true, false, "ok"), (true, true, "trunc")] {
                        if !(same && intact && ok == "ok") && !full && !r.chance(1, 4) {
                            continue;
                        }
                        let mi = s["msg"].as_u64().unwrap() as usize;
                        let m = if same { &msgs[mi] } else { &msgs[1 - mi] };
                        let mut sg = hex(&s["sig"]);
                        if !intact {
                            let p = sg.len() - 1 - r.below(16);
                            sg[p] ^= 1 << r.below(8);
                        }
                        let mut c = der.clone();
                        if ok == "trunc" {
                            c.truncate(c.len() - 7);
                        }
                        let d = DigitallySignedStruct::new(SignatureScheme::from(scheme), sg);
                        let o = probe(fnn, &Certificate(c), m, &d);
                        evs.push(json!({"ev": "sig", "fn": fnn, "key": key, "scheme": scheme, "by": s["key"], "alg": s["alg"],
                            "same": same, "intact": intact, "cert": ok, "out": o}));
                    }
                }
            }
        }
        out.run(&evs);
    }
    let mut evs = vec![];
    for (alg, _) in [(&ring::digest::SHA256, 0), (&ring::digest::SHA384, 0), (&ring::digest::SHA512, 0)] {
        for _ in 0..5 {
            let d = ring::digest::digest(alg, &r.bytes(9));
            for (who, o) in [
                ("client", construct_tls13_client_verify_message(&d)),
                ("server", construct_tls13_server_verify_message(&d)),
            ] {
                evs.push(json!({"ev": "cv", "ctx": format!("TLS 1.3, {who} CertificateVerify").as_bytes(), "hash": d.as_ref(), "out": o}));
            }
        }
    }
    let sch = |v: Vec<SignatureScheme>| v.iter().map(|s| s.get_u16()).collect::<Vec<_>>();
    evs.push(json!({"ev": "schemes", "out": sch(WebPkiVerifier::verification_schemes())}));
    evs.push(json!({"ev": "schemes", "out": sch(v.supported_verify_schemes())}));
    evs.push(json!({"ev": "schemes", "out": sch(ServerDef.supported_verify_schemes())}));
    evs.push(json!({"ev": "schemes", "out": sch(ClientDef.supported_verify_schemes())}));
    evs.push(json!({"ev": "offer", "offer": true, "out": [json!(ClientDef.offer_client_auth()), json!(ClientDef.client_auth_mandatory()), json!(ServerDef.request_scts())]}));
    evs.push(json!({"ev": "offer", "offer": false, "out": [json!(ClientOff.offer_client_auth()), json!(ClientOff.client_auth_mandatory()), json!(v.request_scts())]}));
    out.run(&evs);
}

pub fn mocks(a: &[String]) {
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    for _ in 0..n {
        let evs: Vec<Value> = (0..10).map(|_| hs(&mut r)).collect();
        out.run(&evs);
    }
}

fn mutate(r: &mut Rng, s: &mut Value) {
    let t = [-1i64, 0, 1, 499, 500, 501, 999, 1000, 1001];
    match r.below(12) {
        0 => s["t"] = json!(r.pick(&t)),
        1 => s["name"] = json!(r.pick(&[vec!["a", "x", "test"], vec!["q", "y", "test"], vec!["a", "test"]])),
        2 => {
            let i = r.below(s["ints"].as_array().unwrap().len() + 1);
            let c = if i == 0 { s["ee"].clone() } else { s["ints"][i - 1].clone() };
            let a = s["ints"].as_array_mut().unwrap();
            let p = r.below(a.len() + 1);
            a.insert(p, c);
        }
        3 => {
            let a = s["roots"].as_array_mut().unwrap();
            let p = r.below(a.len() + 1);
            let x = json!({"subj": r.range(1, 9), "key": r.range(1, 9)});
            a.insert(p, x);
        }
        4 => {
            s["ct"] = json!({"on": true, "logs": r.pick(&[vec![], vec![1], vec![1, 2]]), "dl": r.pick(&t)});
            let n = if r.chance(1, 4) { r.range(4, 8) } else { r.below(4) };
            let x: Vec<Value> = (0..n)
                .map(|_| {
                    let log = r.range(1, 3);
                    json!({"log": log, "ver": if r.chance(1, 5) { 1 } else { 0 }, "mal": r.chance(1, 8),
                        "by": if r.chance(1, 6) { 3 } else { log }, "cert": if r.chance(1, 8) { "other" } else { "this" },
                        "ts": r.pick(&t)})
                })
                .collect();
            s["scts"] = json!(x);
        }
        _ => {
            let n = s["ints"].as_array().unwrap().len();
            let i = r.below(n + 1);
            let c = if i == 0 { &mut s["ee"] } else { &mut s["ints"][i - 1] };
            match r.below(11) {
                0 => c["nb"] = json!(r.pick(&t)),
                1 => c["na"] = json!(r.pick(&t)),
                2 => c["ca"] = json!(r.pick(&["none", "no", "yes", "yes"])),
                3 => c["eku"] = json!(r.pick(&["none", "server", "client", "both", "other"])),
                4 => c["good"] = json!(!c["good"].as_bool().unwrap()),
                5 => c["by"] = json!(r.range(1, 9)),
                6 => c["iss"] = json!(r.range(1, 9)),
                7 => c["key"] = json!(r.range(1, 9)),
                8 => c["subj"] = json!(r.range(1, 9)),
                9 => c["names"] = json!(r.pick(&[vec![], vec![vec!["a", "x", "test"]], vec![vec!["*", "y", "test"]]])),
                _ => c["pl"] = json!(r.range(0, 2)),
            }
        }
    }
}

pub fn main(a: &[String]) {
    let scn = read_scenarios(&a[0]);
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let k = Keys::new();
    let mut evs = vec![];
    let mut emit = |evs: &mut Vec<Value>, mut s: Value| {
        let o = chain(&k, &s);
        s["out"] = json!(o);
        evs.push(s);
        if evs.len() >= 20 {
            out.run(evs);
            evs.clear();
        }
    };
    for s in &scn {
        emit(&mut evs, s.clone());
    }
    for _ in 0..n {
        let mut s = scn[r.below(scn.len())].clone();
        for _ in 0..r.range(1, 4) {
            mutate(&mut r, &mut s);
        }
        emit(&mut evs, s);
    }
    if !evs.is_empty() {
        out.run(&evs);
    }
}
