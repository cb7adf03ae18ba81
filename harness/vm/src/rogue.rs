//! The follower alone: the harness speaks the leader's protocol, in whatever order and with whatever
//! contents, and takes the leader's part in the joint computations.
use super::{duo::both, rl::*, sess::*, util::*};
use crate::{
    Config, MpcTlsError, MpcTlsFollower, Role, Vm,
    msg::{Decrypt, Encrypt, Message, ServerHello},
    record_layer::{RecordLayer, aead::MpcAesGcm},
    utils::{alloc_session, flush_prf},
};
use hmac_sha256::{MSMode, Prf, PrfConfig};
use key_exchange::{KeyExchange, MpcKeyExchange};
use mpz_common::Context;
use mpz_core::Block;
use mpz_ideal_vm::IdealVm;
use mpz_ole::{Receiver as OLEReceiver, Sender as OLESender};
use mpz_ot::{
    ideal::IdealRcot,
    rot::{
        any::{AnyReceiver, AnySender},
        randomize::{RandomizeRCOTReceiver, RandomizeRCOTSender},
    },
};
use mpz_share_conversion::{ShareConversionReceiver, ShareConversionSender};
use serde_json::{Value, json};
use serio::SinkExt;
use std::sync::Arc;
use tls_core::{key::PublicKey, msgs::enums::NamedGroup};
use tokio::sync::Mutex;

struct Rogue {
    ctx: Context,
    vm: Vm,
    ke: Box<dyn KeyExchange + Send + Sync>,
    prf: Prf,
    rl: RecordLayer,
    cr: bool,
    sh: bool,
    vd: [bool; 2],
}
fn sender() -> ShareConversionSender<OLESender<AnySender<RandomizeRCOTSender<IdealRcot>>>> {
    ShareConversionSender::new(OLESender::new(Block::default(), AnySender::new(RandomizeRCOTSender::new(IdealRcot))))
}
impl Rogue {
    fn new(cfg: &Config, ctx: Context) -> Self {
        let vm = Arc::new(Mutex::new(IdealVm::new()));
        let recv = ShareConversionReceiver::new(OLEReceiver::new(AnyReceiver::new(RandomizeRCOTReceiver::new(IdealRcot))));
        let mut ke: Box<dyn KeyExchange + Send + Sync> = Box::new(MpcKeyExchange::new(key_exchange::Role::Leader, sender(), recv));
        let mut prf = Prf::new(PrfConfig::new(cfg.prf, MSMode::Standard));
        let mut rl = RecordLayer::new(Role::Leader, MpcAesGcm::new(sender(), Role::Leader), MpcAesGcm::new(sender(), Role::Leader));
        alloc_session(&mut *vm.try_lock().unwrap(), cfg, &mut *ke, &mut prf, &mut rl).unwrap();
        Rogue { ctx, vm, ke, prf, rl, cr: false, sh: false, vd: [false; 2] }
    }
    async fn preprocess(self) -> Self {
        let Rogue { mut ctx, vm, mut ke, prf, mut rl, cr, sh, vd } = self;
        let mut lock = vm.clone().try_lock_owned().unwrap();
        let (ke, rl, _) = ctx
            .try_join3(
                move |ctx| Box::pin(async move { ke.setup(ctx).await.map(|_| ke).map_err(MpcTlsError::preprocess) }),
                move |ctx| Box::pin(async move { rl.preprocess(ctx).await.map(|_| rl) }),
                move |ctx| {
                    Box::pin(async move {
                        lock.preprocess(ctx).await.map_err(MpcTlsError::preprocess)?;
                        lock.flush(ctx).await.map_err(MpcTlsError::preprocess)
                    })
                },
            )
            .await
            .unwrap()
            .unwrap();
        Rogue { ctx, vm, ke, prf, rl, cr, sh, vd }
    }
    async fn send(&mut self, m: Message) -> Result<(), MpcTlsError> {
        self.ctx.io_mut().send(m).await?;
        Ok(())
    }
    async fn hello(&mut self, time: u64, group: NamedGroup, key: Vec<u8>, random: [u8; 32], good: bool) -> Result<(), MpcTlsError> {
        let pk = p256::PublicKey::from_sec1_bytes(&key);
        self.send(Message::ServerHello(ServerHello { time, random, key: PublicKey::new(group, &key) })).await?;
        if !good || !self.cr || self.sh {
            return Ok(());
        }
        self.sh = true;
        self.prf.set_server_random(random)?;
        self.ke.set_server_key(pk.unwrap())?;
        self.ke.compute_shares(&mut self.ctx).await?;
        let mut vm = self.vm.clone().try_lock_owned().unwrap();
        self.ke.assign(&mut *vm)?;
        flush_prf(&mut self.prf, &mut *vm, &mut self.ctx).await?;
        self.ke.finalize().await?;
        self.rl.setup(&mut self.ctx).await
    }
    async fn finished(&mut self, client: bool, h: [u8; 32]) -> Result<(), MpcTlsError> {
        self.send(if client { Message::ClientFinishedVd(h) } else { Message::ServerFinishedVd(h) }).await?;
        if !self.sh || self.vd[client as usize] {
            return Ok(());
        }
        self.vd[client as usize] = true;
        let mut vm = self.vm.clone().try_lock_owned().unwrap();
        if client {
            self.prf.set_cf_hash(h)?;
        } else {
            self.prf.set_sf_hash(h)?;
        }
        flush_prf(&mut self.prf, &mut *vm, &mut self.ctx).await
    }
}

pub fn run(ops: &[Value]) -> Vec<Value> {
    let new = &ops[0];
    let id = u(new, "id");
    let cfg = config(new);
    let (cl, cf) = Context::pair();
    let c = || IdealRcot;
    let vm = Arc::new(Mutex::new(IdealVm::new()));
    let mut follower = MpcTlsFollower::new(cfg.clone(), cf, vm as Vm, c(), (c(), c(), c()));
    follower.alloc().unwrap();
    let rogue = Rogue::new(&cfg, cl);
    let (Some(mut rogue), Some(Ok(()))) = both(rogue.preprocess(), follower.preprocess()) else {
        die("preprocessing")
    };
    let mut run = Runner::new();
    run.start(follower);
    let mut srv = Server::new(id);
    let cr: [u8; 32] = std::array::from_fn(|i| (id + i * 3) as u8);
    let (mut w, mut r): (Vec<Pushed>, Vec<Pushed>) = (vec![], vec![]);
    let mut sent_time = 0;
    let mut evs = vec![new.clone()];
    evs[0]["out"] = json!({"l": {"r": "ok"}, "f": "run"});
    for op in &ops[1..] {
        let mut e = op.clone();
        let mut out = json!({"r": "ok"});
        match op["op"].as_str().unwrap() {
            "cr" => {
                run.with(async {
                    rogue.send(Message::SetClientRandom(cr)).await.ok();
                    if !rogue.cr {
                        rogue.cr = true;
                        rogue.prf.set_client_random(cr);
                    }
                });
            }
            "sh" => {
                let how = op["how"].as_str().unwrap();
                let t = now();
                let time = match how {
                    "p5" => t + 5,
                    "m4" => t - 4,
                    "m6" => t - 6,
                    "p7" => t + 7,
                    "zero" => 0,
                    "max" => u64::MAX,
                    _ => t,
                };
                sent_time = time;
                let mut key = srv.pk.clone();
                let mut group = NamedGroup::secp256r1;
                match how {
                    "group" => group = NamedGroup::secp384r1,
                    "x25519" => group = NamedGroup::X25519,
                    "point" => key = vec![4; 65],
                    "trunc" => key.truncate(64),
                    "empty" => key.clear(),
                    "infinity" => key = vec![0],
                    _ => {}
                }
                let good = ["ok", "p5", "m4"].contains(&how);
                if good && !rogue.sh {
                    let ck = p256::EncodedPoint::from(rogue.ke.client_key().unwrap()).to_bytes();
                    srv.agree(&ck, &cr);
                }
                let random = srv.random;
                run.with(rogue.hello(time, group, key, random, good));
            }
            "cf" | "sf" => {
                run.with(rogue.finished(op["op"] == "cf", hash(u(op, "h"))));
            }
            "out" => {
                let (typ, data) = srv.content(op, true, id + w.len() * 3);
                let n = data.len();
                let told = match op["pf"].as_str().unwrap() {
                    "ok" => Some(data.clone()),
                    "len" => Some(pt(1, n + 1)),
                    _ => None,
                };
                let len = if op["pf"] == "huge" { usize::MAX - 7 } else { n };
                run.with(async {
                    rogue.send(Message::Encrypt(Encrypt { typ, version: VER, len, plaintext: told })).await.ok();
                });
                if rogue.rl.push_encrypt(typ, VER, n, Some(data.clone())).is_ok() {
                    w.push(Pushed { typ, data, nonce: vec![], ct: vec![], tag: vec![] });
                }
            }
            "in" => {
                let i = r.len();
                let (typ, data) = srv.content(op, false, id + 100 + i * 5);
                let mut nonce = pt(id + i * 7 + 3, 8);
                let how = op["how"].as_str().unwrap();
                let (mut ct, mut tag) = srv.sw.seal(&nonce, i as u64 + (how == "seq") as u64, typ, VER, &data);
                match how {
                    "tag" => tag[0] ^= 4,
                    "ct" => ct[0] ^= 1,
                    "nonce" => nonce[7] ^= 1,
                    "nonce3" => nonce.truncate(3),
                    "tag3" => tag.truncate(3),
                    "tag0" => tag.clear(),
                    _ => {}
                }
                run.with(async {
                    let m = Decrypt { typ, version: VER, explicit_nonce: nonce.clone(), ciphertext: ct.clone(), tag: tag.clone() };
                    rogue.send(Message::Decrypt(m)).await.ok();
                });
                if rogue.rl.push_decrypt(typ, VER, nonce.clone(), ct.clone(), tag.clone()).is_ok() {
                    r.push(Pushed { typ, data, nonce, ct, tag });
                }
            }
            "start" => {
                run.with(async { rogue.send(Message::StartTraffic).await.ok() });
                rogue.rl.start_traffic();
            }
            "flush" => {
                let dec = op["dec"] == true;
                run.with(async {
                    rogue.send(Message::Flush { is_decrypting: dec }).await.ok();
                    rogue.rl.flush(&mut rogue.ctx, rogue.vm.clone(), dec).await.ok();
                });
            }
            "close" => {
                run.with(async {
                    rogue.send(Message::CloseConnection).await.ok();
                    let x = rogue.rl.commit(&mut rogue.ctx, rogue.vm.clone()).await;
                    if let (Err(e), true) = (x, std::env::var("SHOW").is_ok()) { eprintln!("rogue: {e}") }
                });
            }
            "ftr" => match &run.done {
                None => out = json!({"r": "none"}),
                Some(t) => {
                    let (sent, recv) = recs(&srv, t, &w, &r);
                    let meta = t.time() == sent_time && common(t, &cr, &srv) && t.server_signature().is_none() && t.server_cert_chain().is_none();
                    out = json!({"r": "done", "meta": meta, "sent": sent, "recv": recv});
                }
            },
            x => die(&format!("unknown op {x}")),
        }
        e["out"] = json!({"l": out, "f": run.status});
        evs.push(e);
    }
    evs
}

fn random(r: &mut Rng) -> Vec<Value> {
    let a = *r.pick(&[16, 40, 64]);
    let b = *r.pick(&[16, 40, 64]);
    let mut ops = vec![json!({"op": "new", "id": r.below(150), "ns": r.range(3, 8), "nr": r.range(3, 8), "ms": a, "mo": 16, "mr": b, "defer": true, "low": r.chance(1, 2)})];
    let typical = json!([{"op": "cr"}, {"op": "sh", "how": "ok"}, {"op": "cf", "h": 1}, {"op": "out", "c": "fin", "h": 1, "n": 0, "pf": "ok"}, {"op": "flush", "dec": false},
        {"op": "in", "c": "fin", "h": 2, "n": 0, "how": "ok"}, {"op": "sf", "h": 2}, {"op": "flush", "dec": false}, {"op": "start"}]);
    let any = |r: &mut Rng| match r.below(12) {
        0..=2 => {
            let c = *r.pick(&["data", "data", "close", "warn", "fatal", "mal", "hid", "ccs", "other", "fin"]);
            let private = c == "data" || c == "hid";
            let pf = if r.chance(1, 10) { *r.pick(&["ok", "none", "len", "huge"]) } else if private { "none" } else { "ok" };
            json!({"op": "out", "c": c, "h": 1, "n": r.range(1, 30), "pf": pf})
        }
        3..=5 => {
            let c = *r.pick(&["data", "data", "close", "warn", "fatal", "mal", "hid", "ccs", "other", "fin"]);
            let how = if r.chance(1, 10) { *r.pick(&["tag", "ct", "seq", "nonce", "nonce3", "tag3", "tag0"]) } else { "ok" };
            json!({"op": "in", "c": c, "h": 2, "n": r.range(1, 30), "how": how})
        }
        6 => json!({"op": "cf", "h": r.range(1, 2)}),
        7 => json!({"op": "sf", "h": r.range(1, 2)}),
        8 => json!({"op": "cr"}),
        9 => json!({"op": "sh", "how": *r.pick(&["ok", "p5", "m4", "m6", "p7", "zero", "max", "group", "x25519", "point", "trunc", "empty", "infinity"])}),
        10 => json!({"op": "start"}),
        _ => json!({"op": "flush", "dec": r.chance(1, 2)}),
    };
    for t in typical.as_array().unwrap() {
        if r.chance(1, 12) {
            continue;
        }
        ops.push(t.clone());
        if r.chance(1, 12) {
            ops.push(any(r));
        }
    }
    for _ in 0..r.below(8) {
        if r.chance(1, 2) {
            ops.push(any(r));
        } else if r.chance(1, 2) {
            ops.push(json!({"op": "out", "c": "data", "h": 1, "n": r.range(1, 20), "pf": "none"}));
        } else {
            ops.push(json!({"op": "in", "c": "data", "h": 2, "n": r.range(1, 20), "how": "ok"}));
        }
    }
    if r.chance(3, 4) {
        ops.push(json!({"op": "out", "c": "close", "h": 1, "n": 0, "pf": "ok"}));
        ops.push(json!({"op": "flush", "dec": false}));
    }
    ops.push(json!({"op": "close"}));
    ops.push(json!({"op": "ftr"}));
    ops
}

/// rogue SCENARIOS SEED NRANDOM OUT
pub fn main(a: &[String]) {
    super::duo::all(a, random, run)
}
