//! TLS transcripts built from captured bytes and from supplied parts.
use crate::util::*;
use ring::digest::{SHA256, digest};
use serde_json::{Value, json};
use std::collections::HashMap;
use tlsn_core::connection::*;
use tlsn_core::transcript::{ContentType, Record, TlsTranscript};
use tlsn_core::webpki::CertificateDer;

fn hex(v: &Value) -> Vec<u8> {
    let s = v.as_str().unwrap();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
struct Certs(HashMap<String, Vec<u8>>);
impl Certs {
    fn new() -> Self {
        let fx: Value = serde_json::from_str(include_str!("../fixtures/algs.json")).unwrap();
        let mut m: HashMap<String, Vec<u8>> = fx["certs"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), hex(v))).collect();
        m.insert("garbage".into(), vec![0x30, 2, 5, 0]);
        m.insert("given".into(), vec![1, 2, 3]);
        Certs(m)
    }
    fn name(&self, der: &[u8]) -> String {
        self.0.iter().find(|(_, v)| v.as_slice() == der).map(|(k, _)| k.clone()).unwrap_or("?".into())
    }
}
fn p16(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u16).to_be_bytes()[..], b].concat()
}
fn p24(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u32).to_be_bytes()[1..], b].concat()
}
fn fill(n: usize, id: u64) -> Vec<u8> {
    (0..n).map(|i| (i as u64 * 3 + id * 5 + 1) as u8).collect()
}
fn message(m: &Value, c: &Certs) -> Vec<u8> {
    let id = m["id"].as_u64().unwrap();
    let num = |k: &str| (m[k].as_u64().unwrap() as u16).to_be_bytes();
    let (t, body): (u8, Vec<u8>) = match m["k"].as_str().unwrap() {
        "CH" => (1, [&[3, 3][..], &fill(32, id), &[0], &p16(&[0xc0, 0x2f]), &[1, 0, 0, 4, 0, 0x17, 0, 0]].concat()),
        "SH" => (2, [&num("v")[..], &fill(32, id), &[2, 7, 7, 0xc0, 0x2f, 0, 0, 0]].concat()),
        "CERT" => {
            let l: Vec<u8> = m["cs"].as_array().unwrap().iter().flat_map(|x| p24(&c.0[x.as_str().unwrap()])).collect();
            (11, p24(&l))
        }
        "CS" => (22, [&[1][..], &p24(&fill(9, id))].concat()),
        "SKE" => (12, [&[3][..], &num("g"), &[65], &fill(65, id), &num("sch"), &p16(&fill(70, id + 1))].concat()),
        "CR" => (13, [&[2, 1, 64][..], &p16(&[4, 3, 8, 4]), &p16(&[])].concat()),
        "SHD" => (14, vec![]),
        "CKE" => (16, [&[65][..], &fill(65, id)].concat()),
        "CV" => (15, [&[4, 3][..], &p16(&fill(60, id))].concat()),
        "NST" => (4, [&[0, 0, 14, 16][..], &p16(&fill(50, id))].concat()),
        _ => (2, vec![3, 3, id as u8]),
    };
    [&[t][..], &p24(&body)].concat()
}
fn record(t: u8, b: &[u8]) -> Vec<u8> {
    [&[t, 3, 3][..], &p16(b)].concat()
}
fn stream(c: &Value, certs: &Certs) -> Vec<u8> {
    let hs: Vec<u8> = c["ms"].as_array().unwrap().iter().flat_map(|m| message(m, certs)).collect();
    let mut out = vec![];
    let mut at = 0;
    for k in c["cuts"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).chain([usize::MAX]) {
        let to = k.min(hs.len());
        if to > at {
            out.extend(record(22, &hs[at..to]));
            if c["pre"] == true {
                out.extend(record(21, &[1, 90]));
                out.extend(record(23, &[9, 9, 9]));
            }
            at = to;
        }
    }
    if c["ccs"] == true {
        out.extend(record(20, &[1]));
    }
    for r in c["enc"].as_array().unwrap() {
        out.extend(record(r["typ"].as_u64().unwrap() as u8, &bytes_of(&r["data"])));
    }
    match c["bad"].as_str().unwrap() {
        "trunc" => {
            out.pop();
        }
        "header" => out.extend([23, 3, 3]),
        "ctype" => out.extend(record(99, &fill(30, 1))),
        _ => {}
    }
    out
}
fn ctype(t: u64) -> ContentType {
    match t {
        20 => ContentType::ChangeCipherSpec,
        21 => ContentType::Alert,
        22 => ContentType::Handshake,
        23 => ContentType::ApplicationData,
        24 => ContentType::Heartbeat,
        x => ContentType::Unknown(x as u8),
    }
}
fn opt<'a>(v: &'a Value) -> Option<&'a Value> {
    v.as_array().unwrap().first()
}
fn supplied(l: &Value) -> Vec<Record> {
    l.as_array()
        .unwrap()
        .iter()
        .map(|r| {
            let d = bytes_of(&r["data"]);
            Record {
                seq: r["seq"].as_u64().unwrap(),
                typ: ctype(r["typ"].as_u64().unwrap()),
                plaintext: opt(&r["plain"]).map(bytes_of),
                explicit_nonce: d[..8].to_vec(),
                ciphertext: d[8..d.len() - 16].to_vec(),
                tag: Some(d[d.len() - 16..].to_vec()),
            }
        })
        .collect()
}
fn rec(r: &Record) -> Value {
    let t = match r.typ {
        ContentType::ChangeCipherSpec => 20,
        ContentType::Alert => 21,
        ContentType::Handshake => 22,
        ContentType::ApplicationData => 23,
        ContentType::Heartbeat => 24,
        ContentType::Unknown(x) => x as u64,
    };
    json!({"seq": r.seq, "typ": t, "nonce": r.explicit_nonce, "ct": r.ciphertext, "tag": r.tag.clone().unwrap_or_default(),
        "plain": r.plaintext.iter().collect::<Vec<_>>()})
}
/// Which messages a digest covers: every prefix/slice combination of the two flights.
struct Table(HashMap<Vec<u8>, Vec<u64>>);
impl Table {
    fn new(e: &Value, certs: &Certs, vd: &[u8; 12]) -> Self {
        let mut t = HashMap::new();
        let (Some(s), Some(r)) = (opt(&e["sraw"]), opt(&e["rraw"])) else { return Table(t) };
        let side = |c: &Value| -> Vec<(u64, Vec<u8>)> {
            c["ms"].as_array().unwrap().iter().map(|m| (m["id"].as_u64().unwrap(), message(m, certs))).collect()
        };
        let (s, r) = (side(s), side(r));
        let fin = (0, [&[0x14, 0, 0, 12][..], vd].concat());
        for a in 0..=s.len() {
            for b in 0..=r.len() {
                for c in a..=s.len() {
                    for f in [false, true] {
                        for d in b..=r.len() {
                            let mut parts: Vec<&(u64, Vec<u8>)> = vec![];
                            parts.extend(&s[..a]);
                            parts.extend(&r[..b]);
                            parts.extend(&s[a..c]);
                            if f {
                                parts.push(&fin);
                            }
                            parts.extend(&r[b..d]);
                            let all: Vec<u8> = parts.iter().flat_map(|p| p.1.clone()).collect();
                            t.insert(digest(&SHA256, &all).as_ref().to_vec(), parts.iter().map(|p| p.0).collect());
                        }
                    }
                }
            }
        }
        Table(t)
    }
    fn get(&self, h: Option<[u8; 32]>) -> Value {
        match h {
            None => json!([]),
            Some(h) => json!([self.0.get(&h[..]).cloned().unwrap_or(vec![777])]),
        }
    }
}
fn id_of(b: &[u8], n: usize, e: &Value) -> u64 {
    if b.iter().all(|x| *x == 99) {
        return 99;
    }
    for side in ["sraw", "rraw"] {
        for m in opt(&e[side]).map(|c| c["ms"].as_array().unwrap().clone()).unwrap_or_default() {
            let id = m["id"].as_u64().unwrap();
            if b.len() == n && fill(n, id) == b {
                return id;
            }
        }
    }
    777
}
pub fn build(e: &Value, certs: &Certs) -> Value {
    let refused = || json!({"x": {"ok": false}, "t": {"ok": false}});
    let sraw = opt(&e["sraw"]).map(|c| stream(c, certs));
    let rraw = opt(&e["rraw"]).map(|c| stream(c, certs));
    let (sapp, rapp) = (opt(&e["sapp"]).map(bytes_of), opt(&e["rapp"]).map(bytes_of));
    let g = &e["giv"];
    let r = guard(|| {
        let mut b = TlsTranscript::builder();
        if let Some(t) = opt(&e["time"]) {
            b = b.time(t.as_u64().unwrap());
        }
        match g["ver"].as_str().unwrap() {
            "12" => b = b.version(TlsVersion::V1_2),
            "13" => b = b.version(TlsVersion::V1_3),
            _ => {}
        }
        if let Some(x) = &sraw {
            b = b.tls_sent(x);
        }
        if let Some(x) = &rraw {
            b = b.tls_recv(x);
        }
        if let Some(x) = &sapp {
            b = b.app_sent(x);
        }
        if let Some(x) = &rapp {
            b = b.app_recv(x);
        }
        if let Some(l) = opt(&e["srec"]) {
            b = b.records_sent(supplied(l));
        }
        if let Some(l) = opt(&e["rrec"]) {
            b = b.records_recv(supplied(l));
        }
        if g["sig"] == true {
            b = b.server_signature(ServerSignature { alg: SignatureAlgorithm::ED25519, sig: vec![99; 5] });
        }
        if g["certs"] == true {
            b = b.server_cert_chain(vec![CertificateDer(vec![1, 2, 3])]);
        }
        if g["bind"] == true {
            b = b.certificate_binding(CertBinding::V1_2(CertBindingV1_2 {
                client_random: [99; 32],
                server_random: [99; 32],
                server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: vec![99; 3] },
            }));
        }
        b.build()
    });
    let Some(Ok(t)) = r else { return refused() };
    let vd: [u8; 12] = *b"verify data!";
    let tab = Table::new(e, certs, &vd);
    let CertBinding::V1_2(b) = t.certificate_binding() else { die("binding") };
    let sig = match t.server_signature() {
        None => json!([]),
        Some(s) => {
            let what = if s.sig == [99; 5] {
                "given"
            } else if opt(&e["rraw"]).is_some_and(|c| c["ms"].as_array().unwrap().iter().any(|m| fill(70, m["id"].as_u64().unwrap() + 1) == s.sig)) {
                "sig"
            } else {
                "?"
            };
            json!([s.alg.to_string(), what])
        }
    };
    let x = json!({"ok": true, "time": t.time(), "ver": if t.version() == TlsVersion::V1_2 { "12" } else { "13" }, "sig": sig,
        "certs": t.server_cert_chain().iter().map(|c| c.iter().map(|c| certs.name(&c.0)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "bind": [id_of(&b.client_random, 32, e), id_of(&b.server_random, 32, e), id_of(&b.server_ephemeral_key.key, 65, e)],
        "cf": tab.get(t.cf_hash()), "session": tab.get(t.session_hash()), "sf": tab.get(t.sf_hash(&vd)),
        "s": t.sent().iter().map(rec).collect::<Vec<_>>(), "r": t.recv().iter().map(rec).collect::<Vec<_>>(),
        "cvd": t.cf_vd().iter().collect::<Vec<_>>(), "svd": t.sf_vd().iter().collect::<Vec<_>>()});
    let tt = match t.to_transcript() {
        Ok(p) => json!({"ok": true, "s": p.sent(), "r": p.received()}),
        Err(e) => {
            // incomplete transcript (DIR): seq N
            let m = e.to_string();
            let d = m.split(['(', ')']).nth(1).unwrap_or("?").to_string();
            let n: i64 = m.rsplit(' ').next().and_then(|x| x.parse().ok()).unwrap_or(-1);
            json!({"ok": false, "d": d.to_lowercase(), "seq": n})
        }
    };
    json!({"x": x, "t": tt})
}
fn mutate(r: &mut Rng, e: &mut Value) {
    let side = if r.chance(1, 2) { 0 } else { 1 };
    let (raw, rcs, app) = [("sraw", "srec", "sapp"), ("rraw", "rrec", "rapp")][side];
    let bytes = |r: &mut Rng, n: usize| json!(r.bytes(n));
    match r.below(9) {
        0..=2 if !e[raw].as_array().unwrap().is_empty() => {
            let c = &mut e[raw][0];
            let n = r.below(8) + 1;
            let mut enc = vec![json!({"typ": 22, "data": bytes(r, 40)})];
            for _ in 1..n {
                let t = *r.pick(&[23, 23, 23, 21, 22]);
                let k = 24 + r.below(20);
                enc.push(json!({"typ": t, "data": bytes(r, k)}));
            }
            let total: usize = enc.iter().skip(1).filter(|x| x["typ"] == 23).map(|x| x["data"].as_array().unwrap().len() - 24).sum();
            c["enc"] = json!(enc);
            let n = if r.chance(1, 6) { total.saturating_sub(1 + r.below(3)) } else { total };
            e[app] = if r.chance(1, 5) { json!([]) } else { json!([r.bytes(n)]) };
        }
        3 if !e[raw].as_array().unwrap().is_empty() => {
            let mut cuts: Vec<usize> = (0..r.below(9)).map(|_| 1 + r.below(400)).collect();
            cuts.sort();
            cuts.dedup();
            e[raw][0]["cuts"] = json!(cuts);
            e[raw][0]["pre"] = json!(r.chance(1, 3));
        }
        4 => {
            let n = r.below(5) + 1;
            let mut seq = 0;
            let mut l = vec![];
            for i in 0..n {
                let k = 24 + r.below(12);
                let plain = if i == 0 && r.chance(1, 2) {
                    let f = [&[20u8, 0, 0, 12][..], &r.bytes(12)].concat();
                    json!([f])
                } else if i > 0 && r.chance(4, 5) {
                    json!([r.bytes(k - 24)])
                } else {
                    json!([])
                };
                l.push(json!({"seq": seq, "typ": if i == 0 { 22 } else { *r.pick(&[23, 23, 21]) }, "data": bytes(r, k), "plain": plain}));
                seq += if r.chance(1, 20) { 0 } else { 1 + r.below(3) };
            }
            e[rcs] = json!([l]);
        }
        5 => e["giv"] = json!({"ver": r.pick(&["", "12", "13"]), "sig": r.chance(1, 2), "certs": r.chance(1, 2), "bind": r.chance(1, 2)}),
        6 if !e[raw].as_array().unwrap().is_empty() => {
            let ms = e[raw][0]["ms"].as_array_mut().unwrap();
            if side == 1 && ms.len() > 2 && ms[2]["k"] == "SKE" {
                ms[2]["sch"] = json!(r.pick(&[1027, 1283, 1025, 1281, 1537, 2052, 2053, 2054, 2055, 515]));
                let n = r.below(3);
                ms[1]["cs"] = json!((0..n).map(|_| *r.pick(&["p256", "p384", "rsa", "ed25519", "p256b"])).collect::<Vec<_>>());
            }
        }
        _ => {}
    }
}
/// Application data must not exceed what the records hold.
fn sane(e: &Value) -> bool {
    [("sraw", "sapp"), ("rraw", "rapp")].iter().all(|(raw, app)| match (opt(&e[*raw]), opt(&e[*app])) {
        (Some(c), Some(a)) => {
            let total: usize = c["enc"].as_array().unwrap().iter().skip(1).filter(|x| x["typ"] == 23)
                .map(|x| x["data"].as_array().unwrap().len().saturating_sub(24)).sum();
            a.as_array().unwrap().len() <= total
        }
        _ => true,
    })
}
pub fn main(a: &[String]) {
    let scn = read_scenarios(&a[0]);
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let certs = Certs::new();
    let mut evs = vec![];
    let mut emit = |evs: &mut Vec<Value>, mut s: Value| {
        s["out"] = build(&s, &certs);
        evs.push(s);
        if evs.len() >= 5 {
            out.run(evs);
            evs.clear();
        }
    };
    for s in &scn {
        emit(&mut evs, s.clone());
    }
    let mut k = 0;
    while k < n {
        let mut s = scn[r.below(scn.len())].clone();
        for _ in 0..r.range(1, 5) {
            mutate(&mut r, &mut s);
        }
        if sane(&s) {
            k += 1;
            emit(&mut evs, s);
        }
    }
    if !evs.is_empty() {
        out.run(&evs);
    }
}
