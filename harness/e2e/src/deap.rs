//! Two parties of the dual-execution VM over ideal VMs.
use super::{duo, util::*};
use mpz_circuits::circuits::xor;
use mpz_common::Context;
use mpz_core::bitvec::BitVec;
use mpz_ideal_vm::{IdealVm, Log};
use mpz_memory_core::{DecodeFuture, FromRaw, Memory, Slice, ToRaw, Vector, View, binary::U8};
use mpz_vm_core::{Call, Callable, Execute};
use serde_json::{Value, json};
use std::sync::{Arc, Mutex};
use tlsn_deap::{Deap, Role};

fn bits(b: &[u8]) -> BitVec {
    BitVec(b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect())
}
fn bytes(b: Option<BitVec>) -> Value {
    let Some(b) = b else { return json!([]) };
    let b = b.0;
    json!(b.chunks(8).map(|c| c.iter().enumerate().map(|(i, x)| (*x as u8) << i).sum::<u8>()).collect::<Vec<_>>())
}
fn vector(s: Slice) -> Vector<U8> {
    Vector::from_raw(s)
}
struct Party {
    leader: bool,
    vm: Deap<IdealVm, IdealVm>,
    ctx: Context,
    vars: Vec<Slice>,
    dec: Vec<(Slice, DecodeFuture<BitVec>, Value)>,
}
fn part(v: &[Slice], x: &Value) -> Slice {
    let s = v[x[0].as_u64().unwrap() as usize - 1];
    let (off, n) = (x[1].as_u64().unwrap() as usize * 8, x[2].as_u64().unwrap() as usize * 8);
    Slice::from_range_unchecked(s.ptr + off..s.ptr + off + n)
}
impl Party {
    fn op(&mut self, e: &Value) -> Result<(), String> {
        let vm = &mut self.vm;
        match e["ev"].as_str().unwrap() {
            "in" => {
                let v = bytes_of(&e["v"]);
                let s = vm.alloc_raw(v.len() * 8).map_err(|e| e.to_string())?;
                self.vars.push(s);
                let who = e["who"].as_str().unwrap();
                let mine = who == "P" || (who == "L") == self.leader;
                match (who, mine) {
                    ("P", _) => vm.mark_public_raw(s),
                    (_, true) => vm.mark_private_raw(s),
                    _ => vm.mark_blind_raw(s),
                }
                .map_err(|e| e.to_string())?;
                if mine {
                    vm.assign_raw(s, bits(&v)).map_err(|e| e.to_string())?;
                }
                let z = bytes_of(&e["z"]);
                if self.leader && who == "L" && z != v {
                    let t = vm.translate(vector(s)).map_err(|e| e.to_string())?;
                    vm.zk().assign_raw(t.to_raw(), bits(&z)).map_err(|e| e.to_string())?;
                }
                if e["commit"] == true {
                    vm.commit_raw(s).map_err(|e| e.to_string())?;
                }
            }
            "xor" => {
                let (a, b) = (part(&self.vars, &e["a"]), part(&self.vars, &e["b"]));
                let call = Call::builder(Arc::new(xor(a.size))).arg(a).arg(b).build().map_err(|e| e.to_string())?;
                let s = vm.call_raw(call).map_err(|e| e.to_string())?;
                self.vars.push(s);
            }
            "decode" => {
                let s = part(&self.vars, &e["x"]);
                let f = vm.decode_raw(s).map_err(|e| e.to_string())?;
                self.dec.push((s, f, json!([])));
            }
            _ => die("operation"),
        }
        Ok(())
    }
    fn see(&mut self, inputs: &[usize]) -> Value {
        for (_, f, v) in &mut self.dec {
            if let Ok(Some(x)) = f.try_recv() {
                *v = bytes(Some(x));
            }
        }
        let zk = |s: Slice| -> Value {
            match self.vm.translate(vector(s)) {
                Ok(t) => bytes(self.vm.zk().get_raw(t.to_raw()).unwrap()),
                Err(_) => json!([-1]),
            }
        };
        json!({
            "d": self.dec.iter().map(|d| d.2.clone()).collect::<Vec<_>>(),
            "zd": self.dec.iter().map(|d| zk(d.0)).collect::<Vec<_>>(),
            "zi": inputs.iter().map(|i| zk(self.vars[*i])).collect::<Vec<_>>(),
            "mi": inputs.iter().map(|i| bytes(self.vm.get_raw(self.vars[*i]).unwrap())).collect::<Vec<_>>(),
        })
    }
}
fn run(s: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    let (ca, cb) = Context::pair();
    let s0 = &s[0];
    let mut logs: Vec<Arc<Mutex<Log>>> = vec![];
    let mut mk = |leader: bool, ctx: Context| {
        let (mut m, mut z) = (IdealVm::new(), IdealVm::new());
        m.alloc_raw(u(s0, "m")).unwrap();
        z.alloc_raw(u(s0, "z")).unwrap();
        if u(s0, "call") > 0 {
            m.set_wrong(u(s0, "call") - 1, u(s0, "bit"));
        }
        logs.push(z.log());
        Party { leader, vm: Deap::new(if leader { Role::Leader } else { Role::Follower }, m, z), ctx, vars: vec![], dec: vec![] }
    };
    let (mut l, mut f) = (mk(true, ca), mk(false, cb));
    let mut e = s0.clone();
    e["out"] = json!({});
    out.push(e);
    let mut inputs = vec![];
    for e in &s[1..] {
        let mut e = e.clone();
        let word = |r: Result<(), String>| {
            if let (Err(e), true) = (&r, std::env::var("SHOW").is_ok()) {
                eprintln!("{e}");
            }
            if r.is_ok() { "ok" } else { "err" }
        };
        let done = guard(|| match e["ev"].as_str().unwrap() {
            k @ ("run" | "finish") => {
                let fin = k == "finish";
                let (a, b) = duo::both(
                    async {
                        let r = if fin { l.vm.finalize(&mut l.ctx).await } else { l.vm.execute_all(&mut l.ctx).await };
                        r.map_err(|e| e.to_string())
                    },
                    async {
                        let r = if fin { f.vm.finalize(&mut f.ctx).await } else { f.vm.execute_all(&mut f.ctx).await };
                        r.map_err(|e| e.to_string())
                    },
                );
                (a.map(word).unwrap_or("stuck"), b.map(word).unwrap_or("stuck"))
            }
            _ => (word(l.op(&e)), word(f.op(&e))),
        });
        if e["ev"] == "in" {
            inputs.push(l.vars.len() - 1);
        }
        let (a, b) = done.unwrap_or(("panic", "panic"));
        let sees = e["ev"] == "run" || e["ev"] == "finish";
        let saw = if sees { guard(|| (l.see(&inputs), f.see(&inputs))) } else { None };
        let (x, y) = saw.unwrap_or((json!({}), json!({})));
        // calls proven in zero knowledge so far
        let z = logs.iter().map(|l| l.lock().unwrap().calls).max();
        e["out"] = json!({"l": a, "f": b, "sl": x, "sf": y, "zc": z});
        out.push(e);
        if a != "ok" || b != "ok" {
            if sees {
                break;
            }
        }
    }
    out
}
fn random(r: &mut Rng) -> Vec<Value> {
    let mut s = vec![json!({"ev": "new", "m": r.below(20), "z": r.below(20), "call": 0, "bit": 0})];
    let mut n: Vec<usize> = vec![];
    let mut calls = 0;
    let part = |r: &mut Rng, n: &[usize], len: Option<usize>| -> Option<Value> {
        let c: Vec<usize> = (0..n.len()).filter(|i| len.is_none_or(|l| n[*i] >= l)).collect();
        if c.is_empty() {
            return None;
        }
        let k = *r.pick(&c);
        let len = len.unwrap_or_else(|| if r.chance(1, 2) { n[k] } else { r.range(1, n[k]) });
        Some(json!([k + 1, r.range(0, n[k] - len), len]))
    };
    let mut late = false;
    for _ in 0..r.range(2, 14) {
        match r.below(9) {
            0..3 => {
                let k = r.range(1, 4);
                let v = r.bytes(k);
                let mut z = v.clone();
                let who = *r.pick(&["L", "L", "F", "P"]);
                if who == "L" && r.chance(1, 6) {
                    let i = r.below(k);
                    z[i] ^= 1 << r.below(8);
                }
                let commit = who != "L" || late || r.chance(9, 10);
                s.push(json!({"ev": "in", "who": who, "v": v, "z": z, "commit": commit}));
                n.push(k);
            }
            3..6 if !n.is_empty() => {
                let a = part(r, &n, None).unwrap();
                let len = a[2].as_u64().unwrap() as usize;
                let Some(b) = part(r, &n, Some(len)) else { continue };
                s.push(json!({"ev": "xor", "a": a, "b": b}));
                n.push(len);
                calls += 1;
            }
            6 | 7 if !n.is_empty() => {
                let mut x = part(r, &n, None).unwrap();
                if r.chance(1, 12) {
                    x[2] = json!(n[x[0].as_u64().unwrap() as usize - 1] + 1);
                }
                s.push(json!({"ev": "decode", "x": x}));
            }
            8 if r.chance(1, 2) => {
                s.push(json!({"ev": "run"}));
                late = true;
            }
            _ => {}
        }
    }
    if calls > 0 && r.chance(1, 3) {
        s[0]["call"] = json!(r.range(1, calls));
        s[0]["bit"] = json!(r.below(32));
    }
    s.push(json!({"ev": "run"}));
    s.push(json!({"ev": "finish"}));
    s
}
pub fn main(a: &[String]) {
    duo::all(a, random, run)
}
