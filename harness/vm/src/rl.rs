//! The record layer: a leader's and a follower's, driven operation by operation.
use super::{duo::both, util::*};
use crate::{
    Role, Vm,
    record_layer::{RecordLayer, aead::MpcAesGcm},
};
use mpz_common::Context;
use mpz_core::Block;
use mpz_ideal_vm::IdealVm;
use mpz_vm_core::Log;
use mpz_memory_core::{
    Array,
    binary::{Binary, U8},
};
use mpz_share_conversion::ideal::ideal_share_convert;
use mpz_vm_core::{Vm as VmTrait, prelude::*};
use ring::aead::{AES_128_GCM, Aad, LessSafeKey, Nonce, UnboundKey};
use serde_json::{Value, json};
use std::sync::Arc;
use tls_core::{
    cipher::make_tls12_aad,
    msgs::enums::{ContentType, ProtocolVersion},
};
use tokio::sync::Mutex;

pub fn ctype(s: &str) -> ContentType {
    match s {
        "app" => ContentType::ApplicationData,
        "hs" => ContentType::Handshake,
        "alert" => ContentType::Alert,
        "ccs" => ContentType::ChangeCipherSpec,
        "hb" => ContentType::Heartbeat,
        _ => ContentType::Unknown(99),
    }
}
pub fn tname(t: ContentType) -> &'static str {
    match t {
        ContentType::ApplicationData => "app",
        ContentType::Handshake => "hs",
        ContentType::Alert => "alert",
        ContentType::ChangeCipherSpec => "ccs",
        ContentType::Heartbeat => "hb",
        _ => "junk",
    }
}
pub fn rname(t: tlsn_core::transcript::ContentType) -> &'static str {
    use tlsn_core::transcript::ContentType as C;
    match t {
        C::ApplicationData => "app",
        C::Handshake => "hs",
        C::Alert => "alert",
        C::ChangeCipherSpec => "ccs",
        C::Heartbeat => "hb",
        _ => "junk",
    }
}
pub struct Gcm {
    pub key: [u8; 16],
    pub iv: [u8; 4],
}
impl Gcm {
    fn nonce(&self, explicit: &[u8]) -> Option<Nonce> {
        Nonce::try_assume_unique_for_key(&[&self.iv[..], explicit].concat()).ok()
    }
    fn key(&self) -> LessSafeKey {
        LessSafeKey::new(UnboundKey::new(&AES_128_GCM, &self.key).unwrap())
    }
    /// One block of AES: of zeroes the hash key, of a counter block keystream. GCM's tag over nothing is the mask of the tag.
    fn mask(&self, explicit: &[u8]) -> Vec<u8> {
        let t = self.key().seal_in_place_separate_tag(self.nonce(explicit).unwrap(), Aad::empty(), &mut []).unwrap();
        t.as_ref().to_vec()
    }
    /// Keystream: as many blocks, from counter 1.
    pub fn stream(&self, explicit: &[u8], blocks: usize) -> Vec<u8> {
        let mut z = vec![0; 16 * (blocks - 1)];
        let _ = self.key().seal_in_place_separate_tag(self.nonce(explicit).unwrap(), Aad::empty(), &mut z).unwrap();
        [self.mask(explicit), z].concat()
    }
    pub fn hash_key(&self) -> Vec<u8> {
        let x: Vec<bool> = self.key.iter().chain(&[0; 16]).flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect();
        mpz_circuits::AES128.eval(&x).chunks(8).map(|c| c.iter().rev().fold(0, |a, b| a << 1 | *b as u8)).collect()
    }
    /// Ciphertext and tag.
    pub fn seal(&self, explicit: &[u8], seq: u64, typ: ContentType, ver: ProtocolVersion, pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let mut b = pt.to_vec();
        let aad = make_aad(seq, typ, ver, pt.len());
        let t = self
            .key()
            .seal_in_place_separate_tag(self.nonce(explicit).unwrap(), Aad::from(aad), &mut b)
            .unwrap();
        (b, t.as_ref().to_vec())
    }
}
/// RFC 5246, 6.2.3.3
fn make_aad(seq: u64, typ: ContentType, ver: ProtocolVersion, len: usize) -> [u8; 13] {
    let mut a = [0; 13];
    a[..8].copy_from_slice(&seq.to_be_bytes());
    a[8] = typ.get_u8();
    a[9..11].copy_from_slice(&ver.get_u16().to_be_bytes());
    a[11..].copy_from_slice(&(len as u16).to_be_bytes());
    a
}
#[allow(unused)]
fn same(seq: u64) -> [u8; 13] {
    make_tls12_aad(seq, ContentType::Alert, ProtocolVersion::TLSv1_2, 3)
}

struct Side {
    rl: RecordLayer,
    log: Arc<std::sync::Mutex<Log>>,
    vm: Vm,
    ctx: Option<Context>,
}
struct Keys(Array<U8, 16>, Array<U8, 4>, Array<U8, 16>, Array<U8, 4>);
fn public<const N: usize>(vm: &mut IdealVm, v: [u8; N]) -> Array<U8, N> {
    let r: Array<U8, N> = vm.alloc().unwrap();
    vm.mark_public(r).unwrap();
    vm.assign(r, v).unwrap();
    vm.commit(r).unwrap();
    r
}
fn side(
    e: &Value,
    role: Role,
    cw: &Gcm,
    sw: &Gcm,
    conv: (
        impl mpz_share_conversion::ShareConvert<mpz_fields::gf2_128::Gf2_128> + mpz_common::Flush + Send + Sync + 'static,
        impl mpz_share_conversion::ShareConvert<mpz_fields::gf2_128::Gf2_128> + mpz_common::Flush + Send + Sync + 'static,
    ),
    ctx: Context,
) -> Side {
    let mut vm = IdealVm::new();
    let k = Keys(public(&mut vm, cw.key), public(&mut vm, cw.iv), public(&mut vm, sw.key), public(&mut vm, sw.iv));
    let mut rl = RecordLayer::new(role, MpcAesGcm::new(conv.0, role), MpcAesGcm::new(conv.1, role));
    rl.set_keys(k.0, k.1, k.2, k.3).unwrap();
    let vmr: &mut dyn VmTrait<Binary> = &mut vm;
    rl.alloc(vmr, u(e, "ns"), u(e, "nr"), u(e, "ms"), u(e, "mo"), u(e, "mr")).unwrap();
    let log = vm.log();
    Side {
        log,
        rl,
        vm: Arc::new(Mutex::new(vm)),
        ctx: Some(ctx),
    }
}
pub fn pt(id: usize, n: usize) -> Vec<u8> {
    (0..n).map(|i| (id * 37 + i * 11 + 5) as u8 ^ (i >> 8) as u8).collect()
}
fn res<T, E>(r: Option<Result<T, E>>) -> &'static str {
    match r {
        None => "stall",
        Some(Ok(_)) => "ok",
        Some(Err(_)) => "err",
    }
}
/// Which secrets were among what has been revealed in the course of the computation: contents and
/// keystream of application data, keys, and masks used twice.
fn leaks(s: &Side, cw: &Gcm, sw: &Gcm, w: &[Pushed], r: &[Pushed]) -> Value {
    let log = s.log.lock().unwrap();
    let mut secret: Vec<(&str, Vec<u8>)> = vec![];
    for (dir, g, ps) in [("sent", cw, w), ("recv", sw, r)] {
        // the mask of the tag
        let block = |nonce: &[u8], n: usize| g.seal(nonce, 0, ContentType::ApplicationData, VER, &vec![0; n]).0;
        secret.push(("key", g.key.to_vec()));
        secret.push(("iv", g.iv.to_vec()));
        secret.push(("hash key", g.hash_key()));
        for (i, p) in ps.iter().enumerate() {
            let nonce = if dir == "sent" { (i as u64).to_be_bytes().to_vec() } else { p.nonce.clone() };
            secret.push(("tag mask", g.mask(&nonce)));
            if p.typ == ContentType::ApplicationData && p.data.len() >= 8 {
                secret.push(("contents", p.data.clone()));
                secret.push(("keystream", block(&nonce, p.data.len())));
            }
        }
    }
    let windows = |x: &[u8]| -> Vec<Vec<u8>> { if x.len() < 8 { vec![x.to_vec()] } else { x.windows(8).map(<[u8]>::to_vec).collect() } };
    let table: std::collections::HashMap<Vec<u8>, &str> = secret.iter().flat_map(|(n, x)| windows(x).into_iter().map(move |w| (w, *n))).collect();
    let mut found = std::collections::BTreeSet::new();
    for (_, v) in &log.decoded {
        for k in [4, 8] {
            for x in v.windows(k) {
                if let Some(n) = table.get(x) {
                    found.insert(n.to_string());
                }
            }
        }
    }
    let plain: std::collections::HashSet<Vec<u8>> = w.iter().flat_map(|p| windows(&p.data)).collect();
    let mut seen = std::collections::HashSet::new();
    for (_, v) in &log.private {
        if v.len() < 16 || plain.contains(&v[..8]) {
            continue;
        }
        for x in v.chunks_exact(8) {
            if !seen.insert(x.to_vec()) {
                found.insert("mask used twice".into());
            }
        }
    }
    json!({"r": "leaks", "what": found})
}
/// What was pushed, by sequence number.
pub struct Pushed {
    pub typ: ContentType,
    pub data: Vec<u8>,
    pub nonce: Vec<u8>,
    pub ct: Vec<u8>,
    pub tag: Vec<u8>,
}
const VER: ProtocolVersion = ProtocolVersion::TLSv1_2;

pub fn enc_out(cw: &Gcm, w: &[Pushed], seq: u64, typ: ContentType, ct: &[u8], tag: Option<&Vec<u8>>) -> Value {
    let (good, tg) = match w.get(seq as usize) {
        None => (false, "bad"),
        Some(p) => {
            let (c, t) = cw.seal(&seq.to_be_bytes(), seq, p.typ, VER, &p.data);
            (
                c == ct,
                match tag {
                    None => "none",
                    Some(x) if *x == t => "ok",
                    _ => "bad",
                },
            )
        }
    };
    json!({"r": "rec", "seq": seq, "typ": tname(typ), "n": ct.len(), "ct": good, "tag": tg})
}
pub fn pt_out(p: Option<&Pushed>, x: &Option<Vec<u8>>) -> &'static str {
    match (p, x) {
        (_, None) => "none",
        (Some(p), Some(x)) if p.data == *x => "ok",
        _ => "bad",
    }
}

/// A record of the transcript.
pub fn sent_out(cw: &Gcm, w: &[Pushed], x: &tlsn_core::transcript::Record) -> Value {
    let mut v = enc_out(cw, w, x.seq, ContentType::Alert, &x.ciphertext, x.tag.as_ref());
    v["typ"] = json!(rname(x.typ));
    v["nonce"] = json!(x.explicit_nonce == x.seq.to_be_bytes());
    v["pt"] = json!(pt_out(w.get(x.seq as usize), &x.plaintext));
    v
}
pub fn recv_out(r: &[Pushed], x: &tlsn_core::transcript::Record) -> Value {
    let p = r.get(x.seq as usize);
    json!({"r": "rec", "seq": x.seq, "typ": rname(x.typ), "n": x.ciphertext.len(), "pt": pt_out(p, &x.plaintext),
        "raw": p.is_some_and(|p| p.nonce == x.explicit_nonce && p.ct == x.ciphertext && Some(&p.tag) == x.tag.as_ref())})
}

fn push_enc(s: &mut [Side; 2], w: &mut [Vec<Pushed>; 2], op: &Value, id0: usize) -> Value {
    let typ = op.get("typ").and_then(Value::as_str).map(ctype);
    let n = u(op, "n");
    let mut o = vec![];
    for k in 0..2 {
        let t = typ.unwrap();
        let data = pt(id0 + 100 + w[k].len() * 3, n);
        let (len, arg) = match op[["pl", "pf"][k]].as_str().unwrap() {
            "ok" => (n, Some(data.clone())),
            "len" => (n, Some(pt(1, n + 1))),
            "huge" => (usize::MAX, None),
            _ => (n, None),
        };
        let x = guard(|| s[k].rl.push_encrypt(t, VER, len, arg));
        if let Some(Ok(())) = x {
            w[k].push(Pushed {
                typ: t,
                data,
                nonce: vec![],
                ct: vec![],
                tag: vec![],
            });
        }
        o.push(if x.is_none() { "panic" } else { res(x) });
    }
    json!(o)
}
fn push_dec(s: &mut [Side; 2], r: &mut [Vec<Pushed>; 2], op: &Value, id0: usize, sw: &Gcm) -> Value {
    let typ = op.get("typ").and_then(Value::as_str).map(ctype);
    let n = u(op, "n");
    let mut o = vec![];
    for k in 0..2 {
        let t = typ.unwrap();
        let i = r[k].len();
        let data = pt(id0 + 200 + i * 5, n);
        let mut nonce = pt(id0 + i * 7 + 3, 8);
        let how = op["how"].as_str().unwrap();
        let (mut ct, mut tag) = sw.seal(
            &nonce,
            if how == "seq" { i as u64 + 1 } else { i as u64 },
            if how == "typ" {
                if t == ContentType::Alert {
                    ContentType::Handshake
                } else {
                    ContentType::Alert
                }
            } else {
                t
            },
            if how == "ver" { ProtocolVersion::TLSv1_1 } else { VER },
            &data,
        );
        match how {
            "tag" => tag[15] ^= 1,
            "ct" => {
                if let Some(x) = ct.last_mut() {
                    *x ^= 0x80
                }
            }
            "nonce" => nonce[0] ^= 1,
            "len" => {
                ct.pop();
            }
            _ => {}
        }
        let x = guard(|| s[k].rl.push_decrypt(t, VER, nonce.clone(), ct.clone(), tag.clone()));
        if let Some(Ok(())) = x {
            r[k].push(Pushed { typ: t, data, nonce, ct, tag });
        }
        o.push(if x.is_none() { "panic" } else { res(x) });
    }
    json!(o)
}

pub fn run(ops: &[Value]) -> Vec<Value> {
    let new = &ops[0];
    let id0 = u(new, "id");
    let key = |k: usize| -> Gcm {
        let b = pt(id0 + k, 20);
        Gcm {
            key: b[..16].try_into().unwrap(),
            iv: b[16..].try_into().unwrap(),
        }
    };
    let (cw, sw) = (key(1), key(2));
    let (cl, cf) = Context::pair();
    let (a, b) = ideal_share_convert(Block::default());
    let (c, d) = ideal_share_convert(Block::default());
    let mut s = [side(new, Role::Leader, &cw, &sw, (a, c), cl), side(new, Role::Follower, &cw, &sw, (b, d), cf)];
    {
        let [l, f] = &mut s;
        async fn prep(s: &mut Side) {
            let mut ctx = s.ctx.take().unwrap();
            s.rl.preprocess(&mut ctx).await.unwrap();
            let mut vm = s.vm.clone().try_lock_owned().unwrap();
            vm.execute_all(&mut ctx).await.unwrap();
            s.rl.setup(&mut ctx).await.unwrap();
            s.ctx = Some(ctx);
        }
        both(prep(l), prep(f));
    }
    let mut evs = vec![new.clone()];
    evs[0]["out"] = json!([{"r": "ok"}, {"r": "ok"}]);
    // sequence number -> what was pushed, of each party
    let mut w: [Vec<Pushed>; 2] = [vec![], vec![]];
    let mut r: [Vec<Pushed>; 2] = [vec![], vec![]];
    let mut popped = [0usize; 2];
    for op in &ops[1..] {
        let mut e = op.clone();
        let out = match op["op"].as_str().unwrap() {
            "penc" => push_enc(&mut s, &mut w, op, id0),
            "pdec" => push_dec(&mut s, &mut r, op, id0, &sw),
            "flush" => {
                let dec = op["dec"].as_bool().unwrap();
                let [l, f] = &mut s;
                async fn fl(s: &mut Side, dec: bool) -> Result<(), ()> {
                    let mut ctx = s.ctx.take().ok_or(())?;
                    s.rl.flush(&mut ctx, s.vm.clone(), dec).await.map_err(|_| ())?;
                    s.ctx = Some(ctx);
                    Ok(())
                }
                match guard(|| both(fl(l, dec), fl(f, dec))) {
                    None => json!(["panic", "panic"]),
                    Some((a, b)) => json!([res(a), res(b)]),
                }
            }
            "many" => {
                let mut ok = [0, 0];
                for _ in 0..u(op, "k") {
                    let x = if op["dir"] == "enc" {
                        push_enc(&mut s, &mut w, op, id0)
                    } else {
                        push_dec(&mut s, &mut r, op, id0, &sw)
                    };
                    for k in 0..2 {
                        ok[k] += (x[k] == "ok") as usize;
                    }
                }
                json!([{"r": "n", "ok": ok[0]}, {"r": "n", "ok": ok[1]}])
            }
            "start" => {
                s[0].rl.start_traffic();
                s[1].rl.start_traffic();
                json!(["ok", "ok"])
            }
            "wants" => json!(
                s.iter()
                    .map(|s| json!({"r": "w", "flush": s.rl.wants_flush(), "empty": s.rl.is_empty()}))
                    .collect::<Vec<_>>()
            ),
            "nenc" => {
                let mut o = vec![];
                for k in 0..2 {
                    o.push(match s[k].rl.next_encrypted() {
                        None => json!("none"),
                        Some(x) => {
                            let seq = x.explicit_nonce.as_slice().try_into().map(u64::from_be_bytes).unwrap_or(u64::MAX >> 40);
                            enc_out(&cw, &w[k], seq, x.typ, &x.ciphertext, x.tag.as_ref())
                        }
                    });
                }
                json!(o)
            }
            "ndec" => {
                let mut o = vec![];
                for k in 0..2 {
                    o.push(match s[k].rl.next_decrypted() {
                        None => json!("none"),
                        Some(x) => {
                            let p = r[k].get(popped[k]);
                            popped[k] += 1;
                            json!({"r": "rec", "typ": tname(x.typ), "ver": x.version == VER, "pt": pt_out(p, &x.plaintext)})
                        }
                    });
                }
                json!(o)
            }
            "leaks" => json!([leaks(&s[0], &cw, &sw, &w[0], &r[0]), leaks(&s[1], &cw, &sw, &w[0], &r[0])]),
            "commit" => {
                let [l, f] = &mut s;
                type Recs = Vec<tlsn_core::transcript::Record>;
                async fn cm(s: &mut Side) -> Result<(Recs, Recs), ()> {
                    let mut ctx = s.ctx.take().ok_or(())?;
                    let x = s.rl.commit(&mut ctx, s.vm.clone()).await.map_err(|_| ())?;
                    s.ctx = Some(ctx);
                    Ok(x)
                }
                match guard(|| both(cm(l), cm(f))) {
                    None => json!(["panic", "panic"]),
                    Some((a, b)) => {
                        let mut o = vec![];
                        for (k, x) in [a, b].into_iter().enumerate() {
                            o.push(match x {
                                Some(Ok((sent, recv))) => {
                                    let sent: Vec<_> = sent.iter().map(|x| sent_out(&cw, &w[k], x)).collect();
                                    let recv: Vec<_> = recv.iter().map(|x| recv_out(&r[k], x)).collect();
                                    json!({"r": "done", "sent": sent, "recv": recv})
                                }
                                x => json!(res(x)),
                            });
                        }
                        json!(o)
                    }
                }
            }
            x => die(&format!("unknown op {x}")),
        };
        e["out"] = out
            .as_array()
            .unwrap()
            .iter()
            .map(|x| if x.is_string() { json!({"r": x}) } else { x.clone() })
            .collect();
        evs.push(e);
    }
    evs
}

fn random(r: &mut Rng) -> Vec<Value> {
    let big = r.chance(1, 12);
    let sz = |r: &mut Rng| {
        if big && r.chance(1, 3) {
            *r.pick(&[16384, 16383, 4096, 1000])
        } else {
            *r.pick(&[1, 2, 5, 12, 15, 16, 17, 31, 32, 33, 48, 64])
        }
    };
    let lim = |r: &mut Rng| if big { r.range(0, 40000) } else { r.range(0, 120) };
    let (a, b, c) = (lim(r), lim(r), lim(r));
    let mut ops = vec![json!({"op": "new", "id": r.below(200), "ns": r.below(6), "nr": r.below(6), "ms": a, "mo": b.min(c), "mr": b.max(c)})];
    let ty = |r: &mut Rng| *r.pick(&["app", "app", "app", "hs", "alert", "ccs", "hb", "junk"]);
    for _ in 0..r.range(3, 25) {
        ops.push(match r.below(14) {
            0..=2 => {
                let t = ty(r);
                let pf = if t == "app" { "none" } else { "ok" };
                if r.chance(1, 30) {
                    json!({"op": "penc", "typ": t, "n": sz(r), "pl": *r.pick(&["ok", "none", "len", "huge"]), "pf": *r.pick(&["ok", "none", "len", "huge"])})
                } else {
                    json!({"op": "penc", "typ": t, "n": if r.chance(1, 40) { 0 } else { sz(r) }, "pl": "ok", "pf": pf})
                }
            }
            3..=5 => json!({"op": "pdec", "typ": ty(r), "n": if r.chance(1, 40) { 0 } else { sz(r) }, "how": if r.chance(1, 8) { *r.pick(&["tag", "ct", "seq", "typ", "ver", "nonce", "len"]) } else { "ok" }}),
            6 | 7 => json!({"op": "flush", "dec": r.chance(1, 2)}),
            8 if r.chance(1, 4) => json!({"op": "leaks"}),
            8 => json!({"op": "start"}),
            9 => json!({"op": "wants"}),
            10 | 11 => json!({"op": "nenc"}),
            12 => json!({"op": "ndec"}),
            _ => if r.chance(1, 6) { json!({"op": "commit"}) } else { json!({"op": "ndec"}) },
        });
    }
    ops.push(json!({"op": "commit"}));
    for _ in 0..4 {
        ops.push(json!({"op": "ndec"}));
        ops.push(json!({"op": "nenc"}));
    }
    ops.push(json!({"op": "leaks"}));
    ops
}

/// rl SCENARIOS SEED NRANDOM OUT
pub fn main(a: &[String]) {
    super::duo::all(a, random, run)
}
