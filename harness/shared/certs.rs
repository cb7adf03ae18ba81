//! Keys and certificates made from abstract descriptions.
use ring::{
    rand::SystemRandom,
    signature::{ECDSA_P256_SHA256_ASN1_SIGNING, EcdsaKeyPair, KeyPair},
};
use serde_json::Value;
use std::{cell::RefCell, collections::HashMap, rc::Rc};

pub const BASE: i64 = 1_000_000_000;

pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = body.len();
    if n < 128 {
        v.push(n as u8);
    } else if n < 256 {
        v.extend([0x81, n as u8]);
    } else {
        v.extend([0x82, (n >> 8) as u8, n as u8]);
    }
    v.extend_from_slice(body);
    v
}
pub fn cat(xs: &[Vec<u8>]) -> Vec<u8> {
    xs.concat()
}
pub fn seq(xs: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &cat(xs))
}
pub fn oid(b: &[u8]) -> Vec<u8> {
    tlv(6, b)
}
pub fn time(t: i64) -> Vec<u8> {
    // civil from days
    let (days, secs) = (t.div_euclid(86400), t.rem_euclid(86400));
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    let s = format!(
        "{:02}{:02}{:02}{:02}{:02}{:02}Z",
        y % 100,
        m,
        d,
        secs / 3600,
        secs / 60 % 60,
        secs % 60
    );
    tlv(0x17, s.as_bytes())
}
pub fn name_body(id: u64) -> Vec<u8> {
    tlv(
        0x31,
        &seq(&[oid(&[0x55, 4, 3]), tlv(0x0c, format!("n{id}").as_bytes())]),
    )
}
pub fn name(id: u64) -> Vec<u8> {
    tlv(0x30, &name_body(id))
}

pub struct Keys {
    rng: SystemRandom,
    m: RefCell<HashMap<u64, Rc<EcdsaKeyPair>>>,
    p: RefCell<HashMap<u64, Vec<u8>>>,
    /// certificates are cached by their abstract description
    c: RefCell<HashMap<String, Vec<u8>>>,
}
impl Keys {
    pub fn new() -> Self {
        Keys { rng: SystemRandom::new(), m: Default::default(), p: Default::default(), c: Default::default() }
    }
    pub fn get(&self, id: u64) -> Rc<EcdsaKeyPair> {
        self.m
            .borrow_mut()
            .entry(id)
            .or_insert_with(|| {
                let p = EcdsaKeyPair::generate_pkcs8(&ECDSA_P256_SHA256_ASN1_SIGNING, &self.rng).unwrap();
                self.p.borrow_mut().insert(id, p.as_ref().to_vec());
                Rc::new(EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_ASN1_SIGNING, p.as_ref(), &self.rng).unwrap())
            })
            .clone()
    }
    pub fn pkcs8(&self, id: u64) -> Vec<u8> {
        self.get(id);
        self.p.borrow()[&id].clone()
    }
    pub fn spki_body(&self, id: u64) -> Vec<u8> {
        let mut bits = vec![0u8];
        bits.extend_from_slice(self.get(id).public_key().as_ref());
        cat(&[
            seq(&[
                oid(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]),
                oid(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7]),
            ]),
            tlv(3, &bits),
        ])
    }
    pub fn sign(&self, id: u64, m: &[u8]) -> Vec<u8> {
        self.get(id).sign(&self.rng, m).unwrap().as_ref().to_vec()
    }
    pub fn cert(&self, c: &Value) -> Vec<u8> {
        let k = c.to_string();
        if let Some(v) = self.c.borrow().get(&k) {
            return v.clone();
        }
        let v = self.make(c);
        self.c.borrow_mut().insert(k, v.clone());
        v
    }
    pub fn make(&self, c: &Value) -> Vec<u8> {
        let alg = seq(&[oid(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2])]);
        let ext = |o: &[u8], body: Vec<u8>| seq(&[oid(o), tlv(4, &body)]);
        let mut exts = vec![];
        match c["ca"].as_str().unwrap() {
            "yes" => {
                let mut b = vec![tlv(1, &[0xff])];
                let pl = c["pl"].as_i64().unwrap();
                if pl >= 0 {
                    b.push(tlv(2, &[pl as u8]));
                }
                exts.push(ext(&[0x55, 0x1d, 0x13], seq(&b)));
            }
            "no" => exts.push(ext(&[0x55, 0x1d, 0x13], seq(&[]))),
            _ => {}
        }
        let kp = |x: u8| oid(&[0x2b, 6, 1, 5, 5, 7, 3, x]);
        let eku = match c["eku"].as_str().unwrap() {
            "server" => vec![kp(1)],
            "client" => vec![kp(2)],
            "both" => vec![kp(2), kp(1)],
            "other" => vec![kp(4)],
            _ => vec![],
        };
        if !eku.is_empty() {
            exts.push(ext(&[0x55, 0x1d, 0x25], seq(&eku)));
        }
        let names: Vec<Vec<u8>> = c["names"]
            .as_array()
            .unwrap()
            .iter()
            .map(|n| tlv(0x82, dotted(n).as_bytes()))
            .collect();
        if !names.is_empty() {
            exts.push(ext(&[0x55, 0x1d, 0x11], seq(&names)));
        }
        let g = |k: &str| c[k].as_u64().unwrap();
        let mut parts = vec![
            tlv(0xa0, &tlv(2, &[2])),
            tlv(2, &[1 + (g("subj") % 100) as u8]),
            alg.clone(),
            name(g("iss")),
            seq(&[time(BASE + c["nb"].as_i64().unwrap()), time(BASE + c["na"].as_i64().unwrap())]),
            name(g("subj")),
            tlv(0x30, &self.spki_body(g("key"))),
        ];
        if !exts.is_empty() {
            parts.push(tlv(0xa3, &seq(&exts)));
        }
        let tbs = seq(&parts);
        let mut sig = self.sign(g("by"), &tbs);
        if !c["good"].as_bool().unwrap() {
            *sig.last_mut().unwrap() ^= 1;
        }
        let mut bits = vec![0u8];
        bits.extend(sig);
        let mut out = seq(&[tbs, alg, tlv(3, &bits)]);
        if c["der"] == "trunc" {
            out.truncate(out.len() - 5);
        }
        out
    }
}
pub fn dotted(n: &Value) -> String {
    n.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join(".")
}
