//! The components MPC-TLS is made of: the PRF, the key exchange, the cipher, and its configuration.
use super::{
    duo::both,
    rl::Gcm,
    sess::prf,
    util::*,
};
use crate::{Config, Role};
use async_trait::async_trait;
use cipher::{Cipher, Keystream, aes::Aes128};
use hmac_sha256::{MSMode, NetworkMode, Prf, PrfConfig, PrfOutput};
use key_exchange::{KeyExchange, MpcKeyExchange};
use mpz_common::{Context, Flush};
use mpz_core::Block;
use mpz_fields::{Field, p256::P256};
use mpz_ideal_vm::IdealVm;
use mpz_memory_core::{
    Array, Vector,
    binary::U8,
};
use mpz_share_conversion::{AdditiveToMultiplicative, MultiplicativeToAdditive, ideal::{IdealShareConvertSender, ideal_share_convert}};
use mpz_vm_core::prelude::*;
use p256::{EncodedPoint, PublicKey, SecretKey};
use serde_json::{Value, json};
use std::collections::HashMap;

fn text(what: u64, v: usize, n: usize) -> Vec<u8> {
    Rng::new(what * 1000 + v as u64).bytes(n)
}
fn b32(what: u64, v: usize) -> [u8; 32] {
    text(what, v, 32).try_into().unwrap()
}
fn res<T, E: std::fmt::Display>(x: Option<Result<T, E>>) -> &'static str {
    match x {
        None => "panic",
        Some(Ok(_)) => "ok",
        Some(Err(_e)) => {
            if std::env::var("SHOW").is_ok() {
                eprintln!("{_e}")
            }
            "err"
        }
    }
}
fn exec(vms: &mut [IdealVm; 2], ctx: &mut [Context; 2]) -> bool {
    let [a, b] = vms;
    let [c, d] = ctx;
    let x = guard(|| both(a.execute_all(c), b.execute_all(d)));
    matches!(x, Some((Some(Ok(())), Some(Ok(())))))
}

// --- PRF ---------------------------------------------------------------------------------------
/// What the outputs can be: value -> client random, server random, session hash, handshake hash.
fn candidates(ms: &str) -> HashMap<Vec<u8>, Value> {
    let mut m = HashMap::new();
    for (c, s, h) in (0..8).map(|i| (i & 1, i >> 1 & 1, i >> 2)).map(|(a, b, c)| (a + 1, b + 1, c + 1)) {
        let (cr, sr) = (b32(1, c), b32(2, s));
        let (master, id) = match ms {
            "std" => (prf(&b32(0, 0), b"master secret", &[cr, sr].concat(), 48), (c, s, 0)),
            "ext" => (prf(&b32(0, 0), b"extended master secret", &b32(3, h), 48), (0, 0, h)),
            _ => (text(0, 1, 48), (0, 0, 0)),
        };
        m.insert(prf(&master, b"key expansion", &[sr, cr].concat(), 40), json!([c, s, id.2, 0]));
        for v in 1..3 {
            m.insert(prf(&master, b"client finished", &b32(4, v), 12), json!([id.0, id.1, id.2, v]));
            m.insert(prf(&master, b"server finished", &b32(5, v), 12), json!([id.0, id.1, id.2, 2 + v]));
        }
    }
    m
}
fn prf_run(ops: &[Value]) -> Vec<Value> {
    let new = &ops[0];
    let ms = new["ms"].as_str().unwrap();
    let cfg = PrfConfig::new(
        if new["net"] == "red" { NetworkMode::Reduced } else { NetworkMode::Normal },
        match ms {
            "std" => MSMode::Standard,
            "ext" => MSMode::Extended,
            _ => MSMode::Direct,
        },
    );
    let cand = candidates(ms);
    let mut vms = [IdealVm::new(), IdealVm::new()];
    let (a, b) = Context::pair();
    let mut ctx = [a, b];
    let mut prfs = [Prf::new(cfg), Prf::new(cfg)];
    let secret = |vm: &mut IdealVm, i: usize| -> (Array<U8, 32>, Array<U8, 48>) {
        let (p, m) = (vm.alloc().unwrap(), vm.alloc().unwrap());
        if i == 0 {
            vm.mark_private(p).unwrap();
            vm.mark_private(m).unwrap();
        } else {
            vm.mark_blind(p).unwrap();
            vm.mark_blind(m).unwrap();
        }
        (p, m)
    };
    let secrets = [secret(&mut vms[0], 0), secret(&mut vms[1], 1)];
    let mut outs: [Option<PrfOutput>; 2] = [None, None];
    type Seen = [Option<Vec<u8>>; 6];
    let mut futs: [Vec<Box<dyn FnMut() -> Option<Vec<u8>>>>; 2] = [vec![], vec![]];
    let mut seen: [Seen; 2] = Default::default();
    let mut evs = vec![];
    for op in ops {
        let mut e = op.clone();
        let v = op["v"].as_u64().unwrap_or(0) as usize;
        let mut r = vec![];
        let kind = op["op"].as_str().unwrap();
        match kind {
            "new" => r = vec!["ok", "ok"],
            "pms" => {
                vms[0].assign(secrets[0].0, b32(0, 0)).unwrap();
                vms[0].assign(secrets[0].1, text(0, 1, 48).try_into().unwrap()).unwrap();
                for i in 0..2 {
                    vms[i].commit(secrets[i].0).unwrap();
                    vms[i].commit(secrets[i].1).unwrap();
                }
                r = vec!["ok", "ok"];
            }
            "round" | "drive" => {
                let mut n = 0;
                loop {
                    r = (0..2).map(|i| res(guard(|| prfs[i].flush(&mut vms[i])))).collect();
                    if !exec(&mut vms, &mut ctx) {
                        r = vec!["err", "err"];
                    }
                    n += 1;
                    if kind == "round" || n >= 30 || !prfs.iter().any(|p| p.wants_flush()) {
                        break;
                    }
                }
            }
            _ => {
                for i in 0..2 {
                    let (p, vm) = (&mut prfs[i], &mut vms[i]);
                    let direct = (ms == "dir") == (kind == "alloc");
                    r.push(match kind {
                        "alloc" | "allocx" => {
                            let x = guard(|| if direct { p.alloc_ms(vm, secrets[i].1) } else { p.alloc_pms(vm, secrets[i].0) });
                            if let Some(Ok(o)) = &x {
                                if outs[i].is_none() {
                                    macro_rules! dec {
                                        ($x:expr) => {{
                                            let mut f = vm.decode($x).unwrap();
                                            Box::new(move || f.try_recv().ok().flatten().map(|x| x.to_vec())) as _
                                        }};
                                    }
                                    let k = &o.keys;
                                    futs[i] = vec![
                                        dec!(k.client_write_key),
                                        dec!(k.server_write_key),
                                        dec!(k.client_iv),
                                        dec!(k.server_iv),
                                        dec!(o.cf_vd),
                                        dec!(o.sf_vd),
                                    ];
                                    outs[i] = Some(*o);
                                }
                            }
                            res(x)
                        }
                        "cr" => res(guard(|| Ok::<_, String>(p.set_client_random(b32(1, v))))),
                        "sr" => res(guard(|| p.set_server_random(b32(2, v)))),
                        "sh" => res(guard(|| p.set_session_hash(b32(3, v).to_vec()))),
                        "cf" => res(guard(|| p.set_cf_hash(b32(4, v)))),
                        "sf" => res(guard(|| p.set_sf_hash(b32(5, v)))),
                        k => die(&format!("op {k}")),
                    });
                }
            }
        }
        let mut o = vec![];
        for i in 0..2 {
            for (j, f) in futs[i].iter_mut().enumerate() {
                if seen[i][j].is_none() {
                    seen[i][j] = f();
                }
            }
            let s = &seen[i];
            let keys: Option<Vec<Vec<u8>>> = s[..4].iter().cloned().collect();
            let look = |x: Option<Vec<u8>>| match x {
                None => json!([]),
                Some(b) => cand.get(&b).cloned().unwrap_or(json!([9])),
            };
            let some = s[..4].iter().any(|x| x.is_some()) && keys.is_none();
            o.push(json!([if some { json!([8]) } else { look(keys.map(|k| k.concat())) }, look(s[4].clone()), look(s[5].clone())]));
        }
        e["out"] = json!({"r": r, "w": prfs.iter().map(|p| p.wants_flush()).collect::<Vec<_>>(), "o": o});
        evs.push(e);
    }
    evs
}
fn prf_random(r: &mut Rng) -> Vec<Value> {
    let ms = *r.pick(&["std", "ext", "dir"]);
    let mut ops = vec![json!({"op": "new", "net": *r.pick(&["red", "norm"]), "ms": ms})];
    let mut todo = vec!["cf", "sf", "pms", "cr", "sr"];
    if ms == "ext" || r.chance(1, 4) {
        todo.push("sh");
    }
    if r.chance(1, 5) {
        todo.push("allocx");
    }
    if !r.chance(1, 6) {
        ops.push(json!({"op": "alloc"}));
    } else {
        todo.push("alloc");
    }
    let mut have: Vec<&str> = vec![];
    while !todo.is_empty() {
        if r.chance(1, 3) {
            ops.push(json!({"op": "round"}));
            continue;
        }
        let k = todo.remove(r.below(todo.len()));
        if k == "sr" && !have.contains(&"cr") {
            todo.push("sr");
            continue;
        }
        have.push(k);
        ops.push(json!({"op": k, "v": r.range(1, 2)}));
        if r.chance(1, 12) {
            ops.push(json!({"op": "drive"}));
        }
        if r.chance(1, 25) {
            break;
        }
    }
    ops.push(json!({"op": "drive"}));
    for k in ["cf", "alloc", "sh"] {
        if r.chance(1, 3) {
            ops.push(json!({"op": k, "v": 1}));
        }
    }
    ops.push(json!({"op": "drive"}));
    // an operation without its value
    for o in &mut ops[1..] {
        if o.get("v").is_none() {
            o["v"] = json!(0);
        }
    }
    ops
}

// --- key exchange ------------------------------------------------------------------------------
/// Share conversions of which the multiplicative-to-additive one is given a wrong share.
struct Bent(IdealShareConvertSender<P256>, bool);
impl AdditiveToMultiplicative<P256> for Bent {
    type Error = <IdealShareConvertSender<P256> as AdditiveToMultiplicative<P256>>::Error;
    type Future = <IdealShareConvertSender<P256> as AdditiveToMultiplicative<P256>>::Future;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error> {
        AdditiveToMultiplicative::alloc(&mut self.0, n)
    }
    fn queue_to_multiplicative(&mut self, x: &[P256]) -> Result<Self::Future, Self::Error> {
        self.0.queue_to_multiplicative(x)
    }
}
impl MultiplicativeToAdditive<P256> for Bent {
    type Error = <IdealShareConvertSender<P256> as MultiplicativeToAdditive<P256>>::Error;
    type Future = <IdealShareConvertSender<P256> as MultiplicativeToAdditive<P256>>::Future;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error> {
        MultiplicativeToAdditive::alloc(&mut self.0, n)
    }
    fn queue_to_additive(&mut self, x: &[P256]) -> Result<Self::Future, Self::Error> {
        let x: Vec<P256> = x.iter().map(|x| if self.1 { *x + P256::one() } else { *x }).collect();
        self.0.queue_to_additive(&x)
    }
}
#[async_trait]
impl Flush for Bent {
    type Error = <IdealShareConvertSender<P256> as Flush>::Error;
    fn wants_flush(&self) -> bool {
        self.0.wants_flush()
    }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), Self::Error> {
        self.0.flush(ctx).await
    }
}
fn secret_key(v: usize) -> SecretKey {
    SecretKey::from_slice(&b32(7, v)).unwrap()
}
fn dh(k: &PublicKey, v: usize) -> Vec<u8> {
    let p = k.to_projective() * secret_key(v).to_nonzero_scalar().as_ref();
    EncodedPoint::from(PublicKey::from_affine(p.to_affine()).unwrap()).x().unwrap().to_vec()
}
fn got<T, E: std::fmt::Display>(x: Option<Result<T, E>>) -> &'static str {
    x.map_or("hang", |x| res(Some(x)))
}
fn kx_run(ops: &[Value]) -> Vec<Value> {
    let new = &ops[0];
    let bad = new["bad"].as_str().unwrap();
    let (a, b) = ideal_share_convert(Block::default());
    let (c, d) = ideal_share_convert(Block::default());
    let role = |r: Role| if let Role::Leader = r { key_exchange::Role::Leader } else { key_exchange::Role::Follower };
    let mut kx = [
        MpcKeyExchange::new(role(Role::Leader), Bent(a, bad == "L0"), Bent(c, bad == "L1")),
        MpcKeyExchange::new(role(Role::Follower), Bent(b, bad == "F0"), Bent(d, bad == "F1")),
    ];
    let mut vms = [IdealVm::new(), IdealVm::new()];
    let (a, b) = Context::pair();
    let mut ctx = [a, b];
    let mut pms: [Option<Array<U8, 32>>; 2] = [None, None];
    let mut key: Option<PublicKey> = None;
    let mut evs = vec![];
    for op in ops {
        let mut e = op.clone();
        let v = op["v"].as_u64().unwrap_or(0) as usize;
        let i = (op["p"] == "F") as usize;
        let one = |r: &str| json!({"r": r, "k": "none"});
        e["out"] = match op["op"].as_str().unwrap() {
            "new" => one("ok"),
            "alloc" => {
                let x = guard(|| kx[i].alloc(&mut vms[i]));
                if let Some(Ok(p)) = &x {
                    pms[i] = Some(*p);
                }
                one(res(x))
            }
            "server" => one(res(guard(|| kx[i].set_server_key(secret_key(v).public_key())))),
            "get" => {
                let k = kx[i].server_key();
                let n = (1..3).find(|v| k == Some(secret_key(*v).public_key()));
                json!({"r": "ok", "k": match (k, n) { (None, _) => "none".into(), (_, Some(n)) => n.to_string(), _ => "other".into() }})
            }
            "key" => {
                let x = guard(|| kx[i].client_key());
                let same = match &x {
                    Some(Ok(k)) => *key.get_or_insert(*k) == *k,
                    _ => true,
                };
                one(if same { res(x) } else { "differs" })
            }
            "setup" | "shares" => {
                let [l, f] = &mut kx;
                let [c, d] = &mut ctx;
                let x = if op["op"] == "setup" { guard(|| both(l.setup(c), f.setup(d))) } else { guard(|| both(l.compute_shares(c), f.compute_shares(d))) };
                match x {
                    None => json!({"l": "panic", "f": "panic"}),
                    Some((l, f)) => json!({"l": got(l), "f": got(f)}),
                }
            }
            "assign" => one(res(guard(|| kx[i].assign(&mut vms[i])))),
            "exec" => {
                let ok = exec(&mut vms, &mut ctx);
                let s = |i: usize| {
                    let Some(b) = pms[i].and_then(|p| vms[i].peek(p.to_raw())) else { return "none".to_string() };
                    (1..3).find(|v| key.is_some_and(|k| dh(&k, *v) == b)).map_or("other".into(), |n| n.to_string())
                };
                json!({"r": if ok { "ok" } else { "err" }, "l": s(0), "f": s(1)})
            }
            "fin" => {
                let x = guard(|| both(kx[i].finalize(), async {}));
                one(match x {
                    None => "panic",
                    Some((x, _)) => got(x),
                })
            }
            k => die(&format!("op {k}")),
        };
        evs.push(e);
    }
    evs
}
fn kx_random(r: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"op": "new", "bad": *r.pick(&["", "", "L0", "L1", "F0", "F1"]), "v": 0, "p": ""})];
    let o = |op: &str, p: &str, v: usize| json!({"op": op, "p": p, "v": v});
    let v = r.range(1, 2);
    let plan = ["alloc", "setup", "key", "server", "shares", "assign", "exec", "fin"];
    for k in plan {
        if r.chance(1, 20) {
            let x = *r.pick(&["alloc", "key", "assign", "fin", "get", "server"]);
            ops.push(o(x, *r.pick(&["L", "F"]), r.range(1, 2)));
        }
        if r.chance(1, 40) {
            continue;
        }
        match k {
            "setup" | "shares" | "exec" => ops.push(o(k, "", 0)),
            "key" => {
                for _ in 0..r.range(1, 2) {
                    ops.push(o(k, "L", 0))
                }
                if r.chance(1, 8) {
                    ops.push(o(k, "F", 0))
                }
            }
            _ => {
                for p in if r.chance(1, 2) { ["L", "F"] } else { ["F", "L"] } {
                    if !r.chance(1, 40) {
                        ops.push(o(k, p, if r.chance(1, 30) { 3 - v } else { v }))
                    }
                }
            }
        }
    }
    ops
}

// --- cipher ------------------------------------------------------------------------------------
fn ctr_run(ops: &[Value]) -> Vec<Value> {
    let mut vm = IdealVm::new();
    let (mut ctx, _other) = Context::pair();
    let mut aes = Aes128::default();
    type Ks = Keystream<Array<U8, 8>, Array<U8, 4>, Array<U8, 16>>;
    let mut streams: Vec<Ks> = vec![];
    // reference, what it was combined with, whether it is a block by itself
    let mut outs: Vec<(mpz_memory_core::Slice, Vec<u8>)> = vec![];
    let (key, iv) = (|v: usize| -> [u8; 16] { b32(10, v)[..16].try_into().unwrap() }, |v: usize| -> [u8; 4] { b32(11, v)[..4].try_into().unwrap() });
    let nonce = |v: usize| -> [u8; 8] { b32(12, v)[..8].try_into().unwrap() };
    let plain = |v: usize| -> [u8; 16] { b32(13, v)[..16].try_into().unwrap() };
    fn public<R: Repr<mpz_memory_core::binary::Binary> + Copy>(vm: &mut IdealVm, x: R, v: R::Clear) {
        vm.mark_public(x).unwrap();
        vm.assign(x, v).unwrap();
        vm.commit(x).unwrap();
    }
    // AES blocks by what they encrypt
    let mut blocks: HashMap<Vec<u8>, Value> = HashMap::new();
    for k in 1..3 {
        for i in 1..3 {
            let g = Gcm { key: key(k), iv: iv(i) };
            for n in 1..4 {
                for (c, b) in g.stream(&nonce(n), 12).chunks(16).enumerate() {
                    blocks.insert(b.to_vec(), json!([k, i, n, c + 1]));
                }
            }
        }
        for v in 1..3 {
            blocks.insert(aes_block(&key(k), &plain(v)), json!([k, 0, 0, v]));
        }
    }
    let find = |b: &[u8]| -> Value {
        if b.len() == 16 {
            return blocks.get(b).cloned().unwrap_or(json!([9]));
        }
        blocks.iter().find(|x| x.0.starts_with(b)).map_or(json!([9]), |x| x.1.clone())
    };
    let mut evs = vec![];
    for op in ops {
        let mut e = op.clone();
        let n = |k: &str| op[k].as_u64().unwrap() as usize;
        let r = match op["op"].as_str().unwrap() {
            "new" => "ok",
            "key" => {
                let x: Array<U8, 16> = vm.alloc().unwrap();
                public(&mut vm, x, key(n("v")));
                aes.set_key(x);
                "ok"
            }
            "iv" => {
                let x: Array<U8, 4> = vm.alloc().unwrap();
                public(&mut vm, x, iv(n("v")));
                aes.set_iv(x);
                "ok"
            }
            "stream" => match guard(|| aes.alloc_keystream(&mut vm, n("n"))) {
                Some(Ok(k)) => {
                    streams.push(k);
                    "ok"
                }
                x => res(x),
            },
            "take" => match guard(|| streams[n("s") - 1].consume(n("n"))) {
                Some(Ok(k)) => {
                    streams.push(k);
                    "ok"
                }
                x => res(x),
            },
            "assign" => {
                let mut c = n("c") as u32;
                res(guard(|| {
                    streams[n("s") - 1].assign(&mut vm, nonce(n("v")), || {
                        c += 1;
                        (c - 1).to_be_bytes()
                    })
                }))
            }
            "apply" => {
                let len = n("n");
                let x: Vector<U8> = vm.alloc_vec(len).unwrap();
                let data = text(14, len, len);
                public(&mut vm, x, data.clone());
                let y = guard(|| streams[n("s") - 1].apply(&mut vm, x));
                if let Some(Ok(y)) = &y {
                    outs.push((y.to_raw(), data));
                }
                res(y)
            }
            "vec" => {
                let y = guard(|| streams[n("s") - 1].to_vector(&mut vm, n("n")));
                if let Some(Ok(y)) = &y {
                    outs.push((y.to_raw(), vec![0; y.len()]));
                }
                res(y)
            }
            "block" => {
                let x: Array<U8, 16> = vm.alloc().unwrap();
                public(&mut vm, x, plain(n("v")));
                let y = guard(|| aes.alloc_block(&mut vm, x));
                if let Some(Ok(y)) = &y {
                    outs.push((y.to_raw(), vec![0; 16]));
                }
                res(y)
            }
            "ctr" => {
                let y = guard(|| aes.alloc_ctr_block(&mut vm));
                if let Some(Ok(y)) = &y {
                    vm.assign(y.explicit_nonce, nonce(n("v"))).unwrap();
                    vm.commit(y.explicit_nonce).unwrap();
                    vm.assign(y.counter, (n("c") as u32).to_be_bytes()).unwrap();
                    vm.commit(y.counter).unwrap();
                    outs.push((y.output.to_raw(), vec![0; 16]));
                }
                res(y)
            }
            k => die(&format!("op {k}")),
        };
        let _ = both(vm.execute(&mut ctx), async {});
        let o: Vec<Value> = outs
            .iter()
            .map(|(r, x)| match vm.peek(*r) {
                None => json!([]),
                Some(b) if b.len() != x.len() => json!([[9]]),
                Some(b) => {
                    let b: Vec<u8> = b.iter().zip(x).map(|(a, b)| a ^ b).collect();
                    json!(b.chunks(16).map(&find).collect::<Vec<_>>())
                }
            })
            .collect();
        e["out"] = json!({"r": r, "o": o, "k": aes.key().is_some(), "i": aes.iv().is_some()});
        evs.push(e);
    }
    evs
}
/// One block of AES.
fn aes_block(key: &[u8; 16], b: &[u8; 16]) -> Vec<u8> {
    // the GCM mask is the encryption of nonce and counter one; anything else goes through the circuit
    let x: Vec<bool> = key.iter().chain(b).flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect();
    mpz_circuits::AES128.eval(&x).chunks(8).map(|c| c.iter().rev().fold(0, |a, b| a << 1 | *b as u8)).collect()
}
fn ctr_random(r: &mut Rng) -> Vec<Value> {
    let o = |op: &str, s: usize, n: usize, v: usize, c: usize| json!({"op": op, "s": s, "n": n, "v": v, "c": c});
    let lens = [0, 5, 12, 16, 21, 32, 40, 48, 64];
    let mut ops = vec![o("new", 0, 0, 0, 0)];
    if !r.chance(1, 10) {
        ops.push(o("key", 0, 0, r.range(1, 2), 0));
    }
    if !r.chance(1, 10) {
        ops.push(o("iv", 0, 0, r.range(1, 2), 0));
    }
    // streams: blocks, assigned; only as the code should have them
    let (mut k, mut i) = (ops.iter().any(|o| o["op"] == "key"), ops.iter().any(|o| o["op"] == "iv"));
    let mut st: Vec<(usize, bool)> = vec![];
    for _ in 0..r.range(2, 12) {
        let s = r.range(1, st.len().max(1));
        let len = *r.pick(&lens);
        match r.below(12) {
            0 => {
                ops.push(o("key", 0, 0, r.range(1, 2), 0));
                k = true
            }
            1 => {
                ops.push(o("iv", 0, 0, r.range(1, 2), 0));
                i = true
            }
            2 | 3 => {
                ops.push(o("stream", 0, len, 0, 0));
                if k && i {
                    st.push((len.div_ceil(16), false));
                }
            }
            4 => ops.push(o("block", 0, 0, r.range(1, 2), 0)),
            5 => ops.push(o("ctr", 0, 0, r.range(1, 3), r.range(1, 8))),
            _ if st.is_empty() => {}
            6 | 7 => {
                if !st[s - 1].1 {
                    ops.push(o("take", s, len, 0, 0));
                    let b = len.div_ceil(16);
                    if b <= st[s - 1].0 {
                        st[s - 1].0 -= b;
                        st.push((b, false));
                    }
                }
            }
            8 | 9 => {
                if !st[s - 1].1 && st[s - 1].0 > 0 {
                    ops.push(o("assign", s, 0, r.range(1, 3), r.range(1, 6)));
                    st[s - 1].1 = true;
                }
            }
            _ => {
                let exact = st[s - 1].0 * 16;
                let len = if r.chance(2, 3) { exact } else { len };
                if r.chance(1, 2) {
                    ops.push(o("apply", s, len, 0, 0));
                } else {
                    let len = if len >= 16 && r.chance(1, 2) { len - 11 } else { len };
                    ops.push(o("vec", s, len, 0, 0));
                }
            }
        }
    }
    ops
}

// --- configuration -----------------------------------------------------------------------------
fn conf_run(ops: &[Value]) -> Vec<Value> {
    ops.iter()
        .map(|op| {
            let n = |k: &str| usize::try_from(op[k].as_i64().unwrap()).ok();
            let mut b = Config::builder();
            // in the order given
            for k in op["ord"].as_array().unwrap() {
                match k.as_str().unwrap() {
                    "sent" => n("sent").map(|v| { b.max_sent(v); }),
                    "on" => n("on").map(|v| { b.max_recv_online(v); }),
                    "recv" => n("recv").map(|v| { b.max_recv(v); }),
                    "sr" => n("sr").map(|v| { b.max_sent_records(v); }),
                    "rr" => n("rr").map(|v| { b.max_recv_records_online(v); }),
                    "defer" => n("defer").map(|v| { b.defer_decryption(v == 1); }),
                    _ => n("low").map(|_| { b.low_bandwidth(); }),
                };
            }
            let mut e = op.clone();
            e["out"] = match guard(|| b.build()) {
                None => json!({"r": "panic"}),
                Some(Err(_)) => json!({"r": "err"}),
                Some(Ok(c)) => json!({"r": "ok", "sent": c.max_sent, "on": c.max_recv_online, "recv": c.max_recv, "sr": c.max_sent_records,
                    "rr": c.max_recv_records_online, "defer": c.defer_decryption, "low": matches!(c.prf, NetworkMode::Reduced)}),
            };
            e
        })
        .collect()
}
fn conf_random(r: &mut Rng) -> Vec<Value> {
    (0..20)
        .map(|_| {
            let mut ord = vec!["sent", "on", "recv", "sr", "rr", "defer", "low"];
            for i in (1..ord.len()).rev() {
                ord.swap(i, r.below(i + 1));
            }
            let size = |r: &mut Rng| match r.below(8) {
                0 => -1,
                1 => r.below(5) as i64,
                2 => 4096 * r.below(6) as i64 + r.below(5) as i64 - 34 + 34 * r.below(2) as i64,
                3 => r.below(1 << 30) as i64,
                _ => r.below(40000) as i64,
            }
            .max(-1);
            let (s, a, b) = (size(r), size(r), size(r));
            let (on, recv) = if r.chance(1, 2) && a.min(b) >= 0 { (a.min(b), a.max(b)) } else { (a, b) };
            let few = |r: &mut Rng| if r.chance(1, 2) { -1 } else { r.below(50) as i64 };
            json!({"op": "cfg", "sent": s, "on": on, "recv": recv, "sr": few(r), "rr": few(r), "defer": r.below(3) as i64 - 1, "low": r.below(2) as i64 - 1, "ord": ord})
        })
        .collect()
}

pub fn main(cmd: &str, a: &[String]) {
    match cmd {
        "prf" => super::duo::all(a, prf_random, prf_run),
        "kx" => super::duo::all(a, kx_random, kx_run),
        "ctr" => super::duo::all(a, ctr_random, ctr_run),
        _ => super::duo::all(a, conf_random, conf_run),
    }
}
