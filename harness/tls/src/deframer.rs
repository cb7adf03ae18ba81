use crate::util::*;
use futures::io::AsyncRead;
use serde_json::{Value, json};
use std::{
    io,
    pin::Pin,
    task::{Context, Poll},
};
use tls_core::msgs::{codec::Codec, deframer::MessageDeframer};

struct Src<'a> {
    data: &'a [u8],
    avail: usize,
    err: bool,
    pend: bool,
}
impl Src<'_> {
    fn take(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.err {
            return Err(io::Error::new(io::ErrorKind::ConnectionReset, "x"));
        }
        let n = self.avail.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
impl io::Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.take(buf)
    }
}
impl AsyncRead for Src<'_> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let s = self.get_mut();
        if s.pend {
            s.pend = false;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(s.take(buf))
    }
}

fn v16(d: &impl Codec) -> (u64, u64) {
    let e = d.get_encoding();
    (e[0] as u64, e[1] as u64)
}

/// mode 0: sync, 1: async, 2: alternate
fn execute(str_: &[Value], ops: &[(String, usize)], mode: usize, rng: &mut Rng) -> Vec<Value> {
    let mut data = Vec::new();
    let mut segs = Vec::new();
    for s in str_ {
        let (t, vh, vl, len, body) = (u(s, "t"), u(s, "vh"), u(s, "vl"), u(s, "len"), u(s, "body"));
        data.extend([t as u8, vh as u8, vl as u8, (len >> 8) as u8, len as u8]);
        let b = rng.bytes(body);
        segs.push(json!({"t":t,"vh":vh,"vl":vl,"len":len,"body":body,"dig":dig(&b)}));
        data.extend(b);
    }
    let mut ev = vec![json!({"ev":"new","str":segs,"mode":mode,
        "out":{"res":"ok","got":0,"fr":[],"desync":false,"pend":false}})];
    let mut d = MessageDeframer::new();
    let mut seen = 0usize; // frames already reported and still queued
    let mut off = 0usize;
    for (k, (op, n)) in ops.iter().enumerate() {
        let n = *n;
        let r = guard(|| {
            let (mut res, mut got) = ("ok", 0usize);
            if op == "pop" {
                for _ in 0..n {
                    if d.frames.pop_front().is_some() {
                        seen -= 1;
                    }
                }
            } else {
                let mut s = Src { data: &data[off..], avail: n, err: op == "err", pend: k % 2 == 0 };
                let use_async = mode == 1 || (mode == 2 && k % 2 == 1);
                let x = if use_async {
                    futures::executor::block_on(d.read_async(&mut s))
                } else {
                    d.read(&mut s)
                };
                match x {
                    Ok(g) => got = g,
                    Err(_) => res = "io",
                }
                off += got;
            }
            let fr: Vec<Value> = d.frames.iter().skip(seen).map(|m| {
                let (vh, vl) = v16(&m.version);
                json!({"t":m.typ.get_u8(),"vh":vh,"vl":vl,"len":m.payload.0.len(),"dig":dig(&m.payload.0)})
            }).collect();
            seen = d.frames.len();
            json!({"res":res,"got":got,"fr":fr,"desync":d.desynced,"pend":d.has_pending()})
        });
        let (out, stop) = match r {
            Some(o) => (o, false),
            None => (json!({"res":"panic","got":0,"fr":[],"desync":false,"pend":false}), true),
        };
        ev.push(json!({"ev":op,"n":n,"out":out}));
        if stop {
            break;
        }
    }
    ev
}

fn rand_len(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 0,
        1..=4 => r.range(1, 40),
        5 => r.range(200, 600),
        6 => *r.pick(&[16383usize, 16384, 16385, 18430, 18431]),
        7 => r.range(0, 4),
        8 => r.range(1000, 18431),
        _ => *r.pick(&[255usize, 256, 257, 511, 512]),
    }
}

pub fn main(a: &[String]) {
    let (scn, seed, nrand, out) = (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse::<usize>().unwrap(), &a[3]);
    let mut o = Out::new(out);
    let mut rng = Rng::new(seed);
    for (i, s) in read_scenarios(scn).iter().enumerate() {
        let ops: Vec<(String, usize)> = s["ops"].as_array().unwrap().iter()
            .map(|x| (x["op"].as_str().unwrap().to_string(), u(x, "n"))).collect();
        o.run(&execute(s["str"].as_array().unwrap(), &ops, i % 3, &mut rng));
    }
    for i in 0..nrand {
        // Now and then a long stream of tiny records: many frames per read.
        let many = i % 12 == 5;
        let nseg = if many { rng.range(20, 900) } else { rng.range(1, 7) };
        let mut segs = Vec::new();
        let bad_at = if rng.chance(if many { 1 } else { 2 }, 3) { rng.below(nseg + 1) } else { usize::MAX };
        for k in 0..nseg {
            let mut t = *rng.pick(&[20usize, 21, 22, 22, 23, 23, 24]);
            let (mut vh, vl) = (3usize, *rng.pick(&[0usize, 1, 3, 3, 3, 4, 253, 255]));
            let mut len = if many { rng.range(0, 12) } else { rand_len(&mut rng) };
            if t != 23 && len == 0 {
                len = 1;
            }
            if k == bad_at {
                match rng.below(4) {
                    0 => t = *rng.pick(&[0usize, 19, 25, 128, 255, 16]),
                    1 => vh = *rng.pick(&[0usize, 1, 2, 2, 4, 5, 0x13, 0x83, 0xfe, 0xfe, 0xff]),
                    2 => len = *rng.pick(&[18432usize, 18433, 20000, 32768, 65535, 18944]),
                    _ => {
                        t = *rng.pick(&[20usize, 21, 22, 24]);
                        len = 0;
                    }
                }
            }
            let body = if k + 1 == nseg && rng.chance(1, 2) { rng.below(len + 1) } else { len };
            segs.push(json!({"t":t,"vh":vh,"vl":vl,"len":len,"body":body}));
        }
        let total: usize = segs.iter().map(|s| 5 + u(s, "body")).sum();
        let (mut ops, mut sup) = (vec![], 0usize);
        let style = if many { rng.range(1, 3) } else { rng.below(4) };
        while ops.len() < 40 {
            if rng.chance(1, 12) {
                ops.push(("err".to_string(), 0));
            }
            if rng.chance(1, 4) {
                ops.push(("pop".to_string(), rng.range(1, 3)));
            }
            let n = match style {
                0 => rng.range(1, 9),
                1 => rng.range(1, 20000),
                2 => total,
                _ => *rng.pick(&[0usize, 1, 2, 4, 5, 6, 300, 4096, 18437]),
            }
            .min(total - sup.min(total));
            ops.push(("read".to_string(), n));
            sup += n;
            if sup >= total && rng.chance(1, 2) {
                break;
            }
        }
        // An over-long read is limited by the deframer's free space, so the
        // amount really taken is tracked while executing.
        o.run(&execute(&segs, &ops, i % 3, &mut rng));
    }
}
