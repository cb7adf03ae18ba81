use crate::util::*;
use serde_json::{Value, json};
use tls_core::msgs::{
    base::Payload,
    codec::Codec,
    enums::{ContentType, ProtocolVersion},
    fragmenter::MessageFragmenter,
    hsjoiner::HandshakeJoiner,
    message::{MessagePayload, PlainMessage},
};
use std::collections::VecDeque;

fn execute(ms: &[Value], takes: &[(usize, u16)], rng: &mut Rng) -> Vec<Value> {
    let mut data = Vec::new();
    let mut msgs = Vec::new();
    for m in ms {
        let (t, len, body) = (u(m, "t"), u(m, "len"), u(m, "body"));
        let start = data.len();
        data.extend([t as u8, (len >> 16) as u8, (len >> 8) as u8, len as u8]);
        data.extend(rng.bytes(body));
        msgs.push(json!({"t":t,"len":len,"body":body,"dig":dig(&data[start..])}));
    }
    let mut ev = vec![json!({"ev":"new","ms":msgs,"out":{"res":"ok","count":0,"fr":[],"empty":true}})];
    let mut j = HandshakeJoiner::new();
    let mut off = 0;
    let mut reported = 0;
    for (k, (n, v)) in takes.iter().enumerate() {
        let n = (*n).min(data.len() - off);
        if k % 3 == 0 {
            let ct = *rng.pick(&[20u8, 21, 22, 22, 23, 24, 0, 255]);
            let pm = PlainMessage { typ: ContentType::from(ct), version: ProtocolVersion::TLSv1_2, payload: Payload::new(vec![]) };
            let o = guard(|| json!({"res": if j.want_message(&pm) {"yes"} else {"no"},"count":0,"fr":[],"empty":j.is_empty()}));
            ev.push(json!({"ev":"want","ct":ct,"out":o.unwrap_or(json!({"res":"panic","count":0,"fr":[],"empty":false}))}));
        }
        let pm = PlainMessage { typ: ContentType::Handshake, version: ProtocolVersion::from(*v), payload: Payload::new(data[off..off + n].to_vec()) };
        let o = guard(|| {
            let r = j.take_message(pm);
            let fr: Vec<Value> = j.frames.iter().skip(reported).map(|m| match &m.payload {
                MessagePayload::Handshake(h) => {
                    let e = h.get_encoding();
                    json!({"t":h.typ.get_u8(),"len":e.len()-4,"dig":dig(&e),"v":m.version.get_u16()})
                }
                _ => json!({"t":999,"len":0,"dig":0,"v":0}),
            }).collect();
            reported += fr.len();
            if rng.chance(1, 3) {
                j.frames.clear();
                reported = 0;
            }
            json!({"res": if r.is_some() {"ok"} else {"corrupt"}, "count": r.unwrap_or(0), "fr": fr, "empty": j.is_empty()})
        });
        let stop = o.is_none();
        ev.push(json!({"ev":"take","n":n,"v":v,"out":o.unwrap_or(json!({"res":"panic","count":0,"fr":[],"empty":false}))}));
        if stop {
            break;
        }
        off += n;
    }
    ev
}

pub fn main(a: &[String]) {
    let (seed, nrand) = (a[1].parse::<u64>().unwrap(), a[2].parse::<usize>().unwrap());
    let mut o = Out::new(&a[3]);
    let mut rng = Rng::new(seed ^ 0x4a);
    for s in read_scenarios(&a[0]) {
        let ops: Vec<(usize, u16)> = s["ops"].as_array().unwrap().iter().map(|x| (x.as_u64().unwrap() as usize, 0x303)).collect();
        o.run(&execute(s["ms"].as_array().unwrap(), &ops, &mut rng));
    }
    for _ in 0..nrand {
        // now and then hundreds of tiny messages, some records holding most of them
        let many = rng.chance(1, 12);
        let nm = if many { rng.range(40, 420) } else { rng.range(1, 8) };
        let mut ms = vec![];
        let bad = if rng.chance(1, 2) { rng.below(nm) } else { 99 };
        for k in 0..nm {
            let t = *rng.pick(&[20usize, 20, 16, 12, 14, 0, 99, 24, 5, 77, 10]);
            let len = match t {
                14 | 5 => 0,
                24 => 1,
                _ if many => rng.below(3),
                _ => match rng.below(8) {
                    0 => 0,
                    1..=4 => rng.range(1, 60),
                    5 => rng.range(200, 700),
                    6 => *rng.pick(&[255usize, 256, 257, 65535, 65534, 16384]),
                    _ => rng.range(1, 8),
                },
            };
            let (mut t, mut len) = (t, len);
            if k == bad {
                match rng.below(3) {
                    0 => t = *rng.pick(&[6usize, 254]),
                    1 => {
                        t = *rng.pick(&[14usize, 5, 24]);
                        len = rng.range(2, 9)
                    }
                    _ => len = *rng.pick(&[65536usize, 65537, 70000, 131072, 0x800000, 0xffffff]),
                }
            }
            if (t == 14 || t == 5 || t == 24) && k != bad && len > 1 {
                len = 1;
            }
            let body = if len > 65535 { rng.range(0, 300) } else if k + 1 == nm && rng.chance(1, 3) { rng.below(len + 1) } else { len };
            ms.push(json!({"t":t,"len":len,"body":body}));
            if len > 65535 {
                break;
            }
        }
        let total: usize = ms.iter().map(|m| 4 + u(m, "body")).sum();
        let style = if many { rng.range(1, 3) } else { rng.below(4) };
        let mut takes = vec![];
        let mut off = 0;
        while takes.len() < 60 && off < total {
            let n = match style {
                0 => rng.range(0, 7),
                1 => rng.range(1, 16384),
                2 => 16384,
                _ if many => rng.range(100, 3000),
                _ => *rng.pick(&[1usize, 2, 3, 4, 5, 16, 64, 1000]),
            }
            .min(total - off);
            takes.push((n, *rng.pick(&[0x301u16, 0x303, 0x303, 0x304])));
            off += n;
        }
        if rng.chance(1, 3) {
            takes.push((0, 0x303));
        }
        o.run(&execute(&ms, &takes, &mut rng));
    }
}

fn frag_exec(ops: &[(String, i64)], rng: &mut Rng) -> Vec<Value> {
    let mut ev = vec![];
    let mut f: Option<MessageFragmenter> = None;
    for (op, n) in ops {
        let n = *n;
        let sz = if n < 0 { None } else { Some(n as usize) };
        let mut d = 0;
        let o = guard(|| match op.as_str() {
            "new" => match MessageFragmenter::new(sz) {
                Ok(x) => {
                    f = Some(x);
                    json!({"res":"ok","lens":[],"dig":0,"meta":true})
                }
                Err(_) => json!({"res":"bad_size","lens":[],"dig":0,"meta":true}),
            },
            "set" => match f.as_mut().unwrap().set_max_fragment_size(sz) {
                Ok(_) => json!({"res":"ok","lens":[],"dig":0,"meta":true}),
                Err(_) => json!({"res":"bad_size","lens":[],"dig":0,"meta":true}),
            },
            _ => {
                let b = rng.bytes(n as usize);
                d = dig(&b);
                let t = ContentType::from(*rng.pick(&[20u8, 21, 22, 23, 77]));
                let v = ProtocolVersion::from(*rng.pick(&[0x301u16, 0x303, 0x304]));
                let pre = rng.below(3); // fragments already queued must stay
                let (lens, all, meta);
                if op == "frag" {
                    let mut q = VecDeque::new();
                    for _ in 0..pre {
                        q.push_back(PlainMessage { typ: ContentType::Alert, version: ProtocolVersion::SSLv3, payload: Payload::new(vec![1, 2]) });
                    }
                    f.as_ref().unwrap().fragment(PlainMessage { typ: t, version: v, payload: Payload::new(b.clone()) }, &mut q);
                    let prefix_ok = q.iter().take(pre).all(|m| m.typ == ContentType::Alert && m.payload.0 == [1, 2]);
                    let r: Vec<_> = q.into_iter().skip(pre).collect();
                    lens = r.iter().map(|m| m.payload.0.len()).collect::<Vec<_>>();
                    all = r.iter().flat_map(|m| m.payload.0.clone()).collect::<Vec<u8>>();
                    meta = prefix_ok && r.iter().all(|m| m.typ == t && m.version == v);
                } else {
                    let mut q = VecDeque::new();
                    f.as_ref().unwrap().fragment_borrow(t, v, &b, &mut q);
                    lens = q.iter().map(|m| m.payload.len()).collect();
                    all = q.iter().flat_map(|m| m.payload.to_vec()).collect();
                    meta = q.iter().all(|m| m.typ == t && m.version == v);
                }
                json!({"res":"ok","lens":lens[..lens.len().min(2000)],"dig":dig(&all),"meta":meta})
            }
        });
        let done = o.is_none();
        let o = o.unwrap_or(json!({"res":"panic","lens":[],"dig":0,"meta":false}));
        let bad = o["res"] != "ok" && op == "new";
        ev.push(json!({"ev":op,"n":n,"dig":d,"out":o}));
        if done || bad {
            break;
        }
    }
    ev
}

pub fn frag_main(a: &[String]) {
    let (seed, nrand) = (a[1].parse::<u64>().unwrap(), a[2].parse::<usize>().unwrap());
    let mut o = Out::new(&a[3]);
    let mut rng = Rng::new(seed ^ 0xf4a6);
    for s in read_scenarios(&a[0]) {
        let ops: Vec<(String, i64)> = s["ops"].as_array().unwrap().iter()
            .map(|x| (x["op"].as_str().unwrap().into(), x["n"].as_i64().unwrap())).collect();
        o.run(&frag_exec(&ops, &mut rng));
    }
    // every size around the limits
    for sz in (0..80).chain(16380..16400).chain([65535usize, 1 << 20].into_iter()) {
        o.run(&frag_exec(&[("new".into(), sz as i64), ("frag".into(), 100), ("borrow".into(), 17000)], &mut rng));
    }
    for _ in 0..nrand {
        let mut ops: Vec<(String, i64)> = vec![("new".into(), if rng.chance(1, 3) { -1 } else { rng.range(32, 16389) as i64 })];
        for _ in 0..rng.range(1, 6) {
            match rng.below(4) {
                0 => ops.push(("set".into(), *rng.pick(&[-1i64, 31, 32, 100, 16389, 16390, 500]))),
                1 => ops.push(("borrow".into(), rng.range(0, 3000) as i64)),
                2 => ops.push(("frag".into(), rng.range(0, 40000) as i64)),
                _ => ops.push(("frag".into(), rng.range(0, 200) as i64)),
            }
        }
        o.run(&frag_exec(&ops, &mut rng));
    }
}
