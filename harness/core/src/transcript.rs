//! Transcripts and partial transcripts: one operation per event.
use crate::util::*;
use rangeset::set::RangeSet;
use serde_json::{Value, json};
use tlsn_core::transcript::{Direction, PartialTranscript, Subsequence, Transcript};

pub fn set(v: &Value) -> RangeSet<usize> {
    let r: Vec<_> = v.as_array().unwrap().iter().map(|p| p[0].as_u64().unwrap() as usize..p[1].as_u64().unwrap() as usize).collect();
    RangeSet::from(r)
}
pub fn asc(s: &RangeSet<usize>) -> Vec<usize> {
    s.iter().flatten().collect()
}
pub fn dir(v: &Value) -> Direction {
    if v == "s" { Direction::Sent } else { Direction::Received }
}
pub fn wire_set(v: &Value) -> Value {
    serde_json::to_value(set(v)).unwrap()
}
pub fn obs(p: &PartialTranscript) -> Value {
    assert_eq!((p.len_sent(), p.len_received()), (p.sent_unsafe().len(), p.received_unsafe().len()));
    json!({"s": p.sent_unsafe(), "r": p.received_unsafe(), "sa": asc(p.sent_authed()), "ra": asc(p.received_authed()),
           "su": asc(&p.sent_unauthed()), "ru": asc(&p.received_unauthed()),
           "si": p.iter(Direction::Sent).collect::<Vec<_>>(), "ri": p.iter(Direction::Received).collect::<Vec<_>>(),
           "full": p.is_complete()})
}
fn ranges(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().flat_map(|r| r["start"].as_u64().unwrap() as usize..r["end"].as_u64().unwrap() as usize).collect()
}
fn packed(v: &Value) -> Value {
    json!({"s": v["sent_authed"], "r": v["received_authed"], "sa": ranges(&v["sent_idx"]), "ra": ranges(&v["recv_idx"]),
           "sn": v["sent_total"], "rn": v["recv_total"]})
}
fn seq(s: &Subsequence) -> Value {
    json!({"x": asc(s.index()), "data": s.data(), "n": s.len()})
}
struct St {
    t: Transcript,
    p: PartialTranscript,
}
fn step(st: &mut St, e: &Value) -> Value {
    let bad = json!({"bad": true});
    let panic = json!({"panic": true});
    let op = e["op"].as_str().unwrap();
    match op {
        "start" => {
            *st = St { t: Transcript::new(bytes_of(&e["s"]), bytes_of(&e["r"])), p: PartialTranscript::new(0, 0) };
            let l = st.t.length();
            assert_eq!((l.sent as usize, l.received as usize), st.t.len());
            let (a, b) = st.t.len();
            json!({"s": st.t.sent(), "r": st.t.received(), "n": [a, b]})
        }
        "get" => match st.t.get(dir(&e["d"]), &set(&e["x"])) {
            None => bad,
            Some(s) => seq(&s),
        },
        "new" => {
            st.p = PartialTranscript::new(u(e, "sn"), u(e, "rn"));
            obs(&st.p)
        }
        "contains" => json!({"yes": st.p.contains(dir(&e["d"]), &set(&e["x"]))}),
        "partial" => match guard(|| st.t.to_partial(set(&e["sx"]), set(&e["rx"]))) {
            None => panic,
            Some(p) => {
                st.p = p;
                obs(&st.p)
            }
        },
        "union" => {
            let o = Transcript::new(bytes_of(&e["s"]), bytes_of(&e["r"])).to_partial(set(&e["sx"]), set(&e["rx"]));
            let mut p = st.p.clone();
            match guard(|| {
                p.union_transcript(&o);
                p
            }) {
                None => panic,
                Some(p) => {
                    st.p = p;
                    obs(&st.p)
                }
            }
        }
        "put" => match Subsequence::new(set(&e["x"]), bytes_of(&e["data"])) {
            Err(_) => bad,
            Ok(s) => {
                let mut p = st.p.clone();
                match guard(|| {
                    p.union_subsequence(dir(&e["d"]), &s);
                    p
                }) {
                    None => panic,
                    Some(p) => {
                        st.p = p;
                        obs(&st.p)
                    }
                }
            }
        },
        "fill" => {
            st.p.set_unauthed(u(e, "v") as u8);
            obs(&st.p)
        }
        "fillr" => {
            let (a, b) = (e["x"][0].as_u64().unwrap() as usize, e["x"][1].as_u64().unwrap() as usize);
            st.p.set_unauthed_range(u(e, "v") as u8, dir(&e["d"]), a..b);
            obs(&st.p)
        }
        "wire" => {
            let w = serde_json::to_value(&st.p).unwrap();
            let b = bincode::serialize(&st.p).unwrap();
            let back: PartialTranscript = bincode::deserialize(&b).unwrap_or_else(|_| PartialTranscript::new(7, 7));
            let back2: PartialTranscript = serde_json::from_value(w.clone()).unwrap_or_else(|_| PartialTranscript::new(7, 7));
            if obs(&back) != obs(&back2) {
                return json!({"differ": true});
            }
            st.p = back;
            json!({"wire": packed(&w), "back": obs(&st.p)})
        }
        "unwire" => {
            let w = json!({"sent_authed": e["s"], "received_authed": e["r"], "sent_idx": wire_set(&e["sx"]), "recv_idx": wire_set(&e["rx"]),
                           "sent_total": e["sn"], "recv_total": e["rn"]});
            match guard(|| serde_json::from_value::<PartialTranscript>(w)) {
                None => panic,
                Some(Err(_)) => bad,
                Some(Ok(p)) => {
                    st.p = p;
                    obs(&st.p)
                }
            }
        }
        "seq" => {
            let a = Subsequence::new(set(&e["x"]), bytes_of(&e["data"])).map(|s| seq(&s)).unwrap_or(bad.clone());
            let b = serde_json::from_value::<Subsequence>(json!({"idx": wire_set(&e["x"]), "data": e["data"]}));
            let b = b.map(|s| {
                let (x, d) = s.clone().into_parts();
                assert_eq!(asc(&x), asc(s.index()));
                json!({"x": asc(&x), "data": d, "n": s.len()})
            });
            if b.unwrap_or(bad) == a { a } else { json!({"differ": true}) }
        }
        _ => die("bad op"),
    }
}
/// up to k ranges over positions up to n
pub fn rnd(r: &mut Rng, n: usize, k: usize) -> Value {
    let c = r.below(k + 1);
    let mut v = vec![];
    for _ in 0..c {
        let (a, b) = (r.below(n + 1), r.below(n + 1));
        // many ranges are short, so that they stay apart
        let (a, b) = (a.min(b), a.max(b));
        v.push(json!([a, if k > 4 { b.min(a + 1 + b % 2) } else { b }]));
    }
    json!(v)
}
pub fn within(r: &mut Rng, n: usize, k: usize) -> Value {
    // one in eight reaches past the end
    let n = if r.chance(1, 8) { n + 1 + r.below(3) } else { n };
    rnd(r, n, k)
}
fn size(v: &Value) -> usize {
    set(v).len()
}
fn random(r: &mut Rng) -> Vec<Value> {
    // now and then many pieces
    let big = r.chance(1, 4);
    let top = if big { 64 } else { 24 };
    let (sn, rn) = (r.below(top), r.below(top));
    let mut ev = vec![json!({"op": "start", "s": r.bytes(sn), "r": r.bytes(rn)})];
    let k = if big { 24 } else { 4 };
    for _ in 0..r.range(2, 12) {
        let d = *r.pick(&["s", "r"]);
        let n = if d == "s" { sn } else { rn };
        ev.push(match r.below(13) {
            0 => json!({"op": "get", "d": d, "x": within(r, n, k)}),
            1 | 2 | 3 => json!({"op": "partial", "sx": within(r, sn, k), "rx": within(r, rn, k)}),
            4 => json!({"op": "new", "sn": sn, "rn": rn}),
            5 => json!({"op": "contains", "d": d, "x": within(r, n, k)}),
            6 | 7 => {
                let (a, b) = if r.chance(1, 8) { (sn + r.below(2), rn + r.below(2)) } else { (sn, rn) };
                json!({"op": "union", "s": r.bytes(a), "r": r.bytes(b), "sx": rnd(r, a, k), "rx": rnd(r, b, k)})
            }
            8 => {
                let x = within(r, n, k);
                let m = size(&x) + if r.chance(1, 8) { 1 } else { 0 };
                json!({"op": "put", "d": d, "x": x, "data": r.bytes(m)})
            }
            9 => json!({"op": "fill", "v": r.below(256)}),
            10 => json!({"op": "wire"}),
            11 => {
                let (x, y) = (within(r, sn, k), within(r, rn, k));
                let (a, b) = (size(&x) + r.chance(1, 8) as usize, size(&y) + r.chance(1, 8) as usize);
                json!({"op": "unwire", "s": r.bytes(a), "r": r.bytes(b), "sx": x, "rx": y, "sn": sn, "rn": rn})
            }
            _ => {
                let x = rnd(r, 30, k);
                let m = (size(&x) + r.below(3)).saturating_sub(r.below(2));
                json!({"op": "seq", "x": x, "data": r.bytes(m)})
            }
        });
    }
    ev
}
pub fn main(a: &[String]) {
    let mut out = Out::new(&a[3]);
    let mut r = Rng::new(a[1].parse().unwrap());
    let mut go = |evs: Vec<Value>| {
        let mut st = St { t: Transcript::new(vec![], vec![]), p: PartialTranscript::new(0, 0) };
        let mut log = vec![];
        for mut e in evs {
            if e["op"] == "fillr" {
                // the range has to lie inside
                let n = if e["d"] == "s" { st.p.len_sent() } else { st.p.len_received() };
                if e["x"][1].as_u64().unwrap() as usize > n {
                    continue;
                }
            }
            let o = step(&mut st, &e);
            e["out"] = o;
            log.push(e);
        }
        out.run(&log);
    };
    for s in read_scenarios(&a[0]) {
        go(s.as_array().unwrap().clone());
    }
    for _ in 0..a[2].parse::<usize>().unwrap() {
        let mut evs = random(&mut r);
        if r.chance(1, 2) {
            let d = *r.pick(&["s", "r"]);
            let (x, y) = (r.below(6), r.below(20));
            let k = r.range(1, evs.len());
            evs.insert(k, json!({"op": "fillr", "v": r.below(256), "d": d, "x": [x, x + y]}));
        }
        go(evs);
    }
}
