//! Records, payload classification, registries and the byte reader.
use crate::codec::{gen_msg, tokens};
use crate::util::*;
use serde_json::{Value, json};
use tls_core::msgs::{
    base::{Payload, PayloadU16, PayloadU8, PayloadU24},
    codec::{self, Codec, Reader},
    enums::*,
    handshake::HandshakeMessagePayload,
    message::*,
};

fn rec(b: &[u8]) -> Value {
    let o = guard(|| {
        let mut r = Reader::init(b);
        match OpaqueMessage::read(&mut r) {
            Err(MessageError::TooShortForHeader) => json!({"res":"short-header","used":0,"enc":false}),
            Err(MessageError::TooShortForLength) => json!({"res":"short-body","used":0,"enc":false}),
            Err(MessageError::IllegalLength) => json!({"res":"length","used":0,"enc":false}),
            Err(MessageError::IllegalContentType) => json!({"res":"type","used":0,"enc":false}),
            Err(MessageError::IllegalProtocolVersion) => json!({"res":"version","used":0,"enc":false}),
            Ok(m) => {
                let used = r.used();
                let p = m.clone().into_plain_message();
                let same = p.typ == m.typ && p.version == m.version && p.payload == m.payload
                    && p.typ.get_u8() == b[0] && p.version.get_u16() == u16::from_be_bytes([b[1], b[2]])
                    && p.payload.0 == b[5..used];
                json!({"res":"ok","used":used,"enc": same && m.encode() == b[..used]})
            }
        }
    });
    o.unwrap_or(json!({"res":"panic","used":0,"enc":false}))
}

const HS: [u8; 21] = [0, 1, 2, 3, 4, 5, 6, 8, 11, 12, 13, 14, 15, 16, 20, 21, 22, 24, 254, 9, 200];
fn pay(t: u8, v: u16, p: &[u8]) -> Value {
    let bad = |kind: i64| json!({"ok":false,"kind":kind,"hs":-1,"back":false});
    let o = guard(|| {
        let plain = PlainMessage { typ: ContentType::from(t), version: ProtocolVersion::from(v), payload: Payload::new(p.to_vec()) };
        let direct = MessagePayload::new(ContentType::from(t), ProtocolVersion::from(v), Payload::new(p.to_vec())).is_ok();
        match Message::try_from(plain) {
            Err(tls_core::Error::CorruptMessagePayload(ct)) => {
                if direct { bad(-3) } else { bad(ct.get_u8() as i64) }
            }
            Err(_) => bad(-2),
            Ok(m) => {
                let kind = m.payload.content_type().get_u8();
                let hs = match &m.payload {
                    MessagePayload::Handshake(h) => tokens(h).0,
                    _ => -1,
                };
                // is_handshake_type answers exactly for that type
                for x in HS {
                    if m.is_handshake_type(HandshakeType::from(x)) != (hs == x as i64) {
                        return bad(-4);
                    }
                }
                let back = PlainMessage::from(m);
                let bo = back.borrow();
                let ok = direct && bo.payload == p && bo.typ.get_u8() == t && bo.version.get_u16() == v
                    && back.typ.get_u8() == t && back.version.get_u16() == v && back.payload.0 == p;
                json!({"ok":true,"kind":kind,"hs":hs,"back":ok})
            }
        }
    });
    o.unwrap_or_else(|| bad(-9))
}

fn build(what: &str, x: usize, y: usize, p: &[u8]) -> Value {
    let b = match what {
        "alert" => PlainMessage::from(Message::build_alert(AlertLevel::from(x as u8), AlertDescription::from(y as u8))).into_unencrypted_opaque().encode(),
        "keyupdate" => PlainMessage::from(Message::build_key_update_notify()).into_unencrypted_opaque().encode(),
        "hash" => HandshakeMessagePayload::build_handshake_hash(p).get_encoding(),
        "maxwire" => return json!({"ev":"build","what":what,"x":x,"y":y,"p":p,"out":{"b":[OpaqueMessage::MAX_WIRE_SIZE]}}),
        _ => PlainMessage { typ: ContentType::from(x as u8), version: ProtocolVersion::from(y as u16), payload: Payload::new(p.to_vec()) }
            .into_unencrypted_opaque().encode(),
    };
    json!({"ev":"build","what":what,"x":x,"y":y,"p":p,"out":{"b":b}})
}

pub fn main(a: &[String]) {
    let mut out = Out::new(&a[3]);
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut run: Vec<Value> = vec![];
    let mut push = |e: Value, out: &mut Out| {
        run.push(e);
        if run.len() >= 50 {
            out.run(&run);
            run.clear();
        }
    };
    let ev = |s: &Value| -> Value {
        if s["ev"] == "rec" {
            let b = bytes_of(&s["b"]);
            json!({"ev":"rec","b":b,"out":rec(&b)})
        } else {
            let p = bytes_of(&s["p"]);
            json!({"ev":"pay","t":s["t"],"v":s["v"],"p":p,"out":pay(u(s, "t") as u8, u(s, "v") as u16, &p)})
        }
    };
    for s in read_scenarios(&a[0]) {
        push(ev(&s), &mut out);
    }
    for x in 0..=255u8 {
        for (t, vh) in [(x, 3), (*r.pick(&[20u8, 21, 22, 23, 24]), x)] {
            let b = [t, vh, r.next() as u8, 0, 2, 1, 2];
            push(json!({"ev":"rec","b":b,"out":rec(&b)}), &mut out);
        }
    }
    for _ in 0..n {
        match r.below(4) {
            0 => {
                let (t, vh, vl) = (*r.pick(&[20u8, 21, 22, 23, 24, 19, 25]), *r.pick(&[3u8, 3, 3, 3, 2, 4, 254, 19, 131]), r.next() as u8);
                let len = *r.pick(&[0usize, 1, 2, 3, 5, 9, 17, 18432, 300]);
                let mut b = vec![t, vh, vl, (len >> 8) as u8, len as u8];
                let k = if r.chance(1, 2) { len.min(400) } else { r.below(12) };
                b.extend(r.bytes(k));
                push(json!({"ev":"rec","b":b,"out":rec(&b)}), &mut out);
            }
            1 => {
                let p = {
                    let k = r.below(5);
                    r.bytes(k)
                };
                let t = *r.pick(&[20u8, 21, 22, 23, 24, 0, 99]);
                push(json!({"ev":"pay","t":t,"v":771,"p":p,"out":pay(t, 771, &p)}), &mut out);
            }
            2 => {
                let v = *r.pick(&[771u16, 772]);
                let p = gen_msg(&mut r, v);
                if p.len() > 3000 {
                    continue;
                }
                push(json!({"ev":"pay","t":22,"v":v,"p":p,"out":pay(22, v, &p)}), &mut out);
            }
            _ => {
                let (x, y) = (r.below(256), r.below(256));
                let k = *r.pick(&[0usize, 1, 32, 48, 300]);
                let p = r.bytes(k);
                let v = *r.pick(&[0x0301usize, 0x0303, 0x0304, 0xfefd, 0x1234]);
                let e = match r.below(5) {
                    0 | 1 => build("alert", x, y, &[]),
                    2 => build("hash", 0, 0, &p),
                    3 => build("plain", x, v, &p),
                    _ => if r.chance(1, 2) { build("keyupdate", 0, 0, &[]) } else { build("maxwire", 0, 0, &[]) },
                };
                push(e, &mut out);
            }
        }
    }
    run.is_empty().then(|| run.push(build("maxwire", 0, 0, &[])));
    out.run(&run);
}

macro_rules! en8 {
    ($run:ident, $($t:ident)*) => {$({
        let (mut named, mut unknown, mut back) = (vec![], 0, 0);
        for x in 0..=255u8 {
            let v = $t::read_bytes(&[x]);
            let Some(v) = v else { continue };
            let d = format!("{v:?}");
            match v {
                $t::Unknown(y) => if y == x { unknown += 1 },
                _ => named.push(json!([x, d])),
            }
            if v.get_u8() == x && v.get_encoding() == [x] && $t::from(x) == v { back += 1 }
        }
        let short = $t::read_bytes(&[]).is_none();
        $run.push(json!({"enum": stringify!($t), "out": {"named": named, "strs": [], "unknown": unknown, "back": back, "short": short}}));
    })*}
}
macro_rules! en16 {
    ($run:ident, $($t:ident)*) => {$({
        let (mut named, mut strs, mut unknown, mut back) = (vec![], vec![], 0, 0);
        for x in 0..=65535u16 {
            let v = $t::read_bytes(&x.to_be_bytes());
            let Some(v) = v else { continue };
            match v {
                $t::Unknown(y) => if y == x && v.as_str().is_none() { unknown += 1 },
                _ => {
                    named.push(json!([x, format!("{v:?}")]));
                    strs.push(json!(v.as_str().unwrap_or("-")));
                }
            }
            if v.get_u16() == x && v.get_encoding() == x.to_be_bytes() && $t::from(x) == v { back += 1 }
        }
        let short = $t::read_bytes(&[1]).is_none() && $t::read_bytes(&[]).is_none();
        $run.push(json!({"enum": stringify!($t), "out": {"named": named, "strs": strs, "unknown": unknown, "back": back, "short": short}}));
    })*}
}
pub fn enums(a: &[String]) {
    let mut out = Out::new(&a[3]);
    let mut run: Vec<Value> = vec![];
    en8!(run, HashAlgorithm SignatureAlgorithm ClientCertificateType Compression ContentType HandshakeType AlertLevel
        AlertDescription HeartbeatMessageType ServerNameType ECPointFormat HeartbeatMode ECCurveType PSKKeyExchangeMode
        KeyUpdateRequest CertificateStatusType);
    en16!(run, ProtocolVersion ExtensionType NamedCurve NamedGroup CipherSuite SignatureScheme);
    for e in run {
        out.run(&[e]);
    }
}

const HUGE: usize = 2_000_000_000;
fn val(r: &mut Reader, op: &str, n: usize) -> Option<Vec<u8>> {
    fn cat<T: Codec>(v: Vec<T>) -> Vec<u8> {
        v.iter().flat_map(|x| x.get_encoding()).collect()
    }
    // lengths from HUGE on stand for the last lengths there are
    let n = if n >= HUGE { usize::MAX - (n - HUGE) } else { n };
    match (op, n) {
        ("take", n) => r.take(n).map(|x| x.to_vec()),
        ("sub", n) => r.sub(n).map(|mut s| {
            let k = s.left();
            let v = s.rest().to_vec();
            if k != v.len() || s.any_left() || s.left() != 0 || s.used() != k { vec![0xde, 0xad] } else { v }
        }),
        ("rest", _) => Some(r.rest().to_vec()),
        ("int", 1) => u8::read(r).map(|x| x.get_encoding()),
        ("int", 2) => u16::read(r).map(|x| { assert_eq!(x.get_encoding(), x.to_be_bytes()); x.to_be_bytes().to_vec() }),
        ("int", 3) => codec::u24::read(r).map(|x| { let e = x.get_encoding(); assert_eq!(usize::from(x), x.0 as usize); assert_eq!(e, x.0.to_be_bytes()[1..]); e }),
        ("int", 4) => u32::read(r).map(|x| { assert_eq!(x.get_encoding(), x.to_be_bytes()); x.to_be_bytes().to_vec() }),
        ("int", 8) => u64::read(r).map(|x| { assert_eq!(x.get_encoding(), x.to_be_bytes()); x.to_be_bytes().to_vec() }),
        ("vec8", 1) => codec::read_vec_u8::<u8>(r).map(cat),
        ("vec8", _) => codec::read_vec_u8::<u16>(r).map(cat),
        ("vec16", 1) => codec::read_vec_u16::<u8>(r).map(cat),
        ("vec16", _) => codec::read_vec_u16::<u16>(r).map(cat),
        ("vec24", 1) => codec::read_vec_u24_limited::<u8>(r, 4).map(cat),
        ("vec24", _) => codec::read_vec_u24_limited::<u16>(r, 4).map(cat),
        _ => die("op"),
    }
}
fn rd(buf: &[u8], ops: &[(String, usize)]) -> Vec<Value> {
    let mut r = Reader::init(buf);
    let shape = |some: bool, v: &[u8], r: &Reader| json!({"some":some,"v":v,"left":r.left(),"used":r.used(),"any":r.any_left()});
    let mut ev = vec![json!({"op":"new","n":0,"buf":buf,"out":shape(true, &[], &r)})];
    for (op, n) in ops {
        let comp = op.starts_with("vec");
        let u0 = r.used();
        let x = guard(|| val(&mut r, op, *n));
        match x {
            None => {
                ev.push(json!({"op":op,"n":n,"out":{"some":true,"v":[-1],"left":0,"used":0,"any":false}}));
                return ev;
            }
            Some(None) if comp => {
                // where a failed list read leaves the cursor is not observable to users
                ev.push(json!({"op":op,"n":n,"out":{"some":false,"v":[],"left":buf.len()-u0,"used":u0,"any":u0<buf.len()}}));
                return ev;
            }
            Some(None) => ev.push(json!({"op":op,"n":n,"out":shape(false, &[], &r)})),
            Some(Some(v)) => {
                // re-encoding a list gives back the bytes it came from
                if comp && !reencodes(op, &v, &buf[u0..r.used()]) {
                    ev.push(json!({"op":op,"n":n,"out":shape(true, &[77], &r)}));
                    return ev;
                }
                ev.push(json!({"op":op,"n":n,"out":shape(true, &v, &r)}))
            }
        }
    }
    ev
}
fn reencodes(op: &str, v: &[u8], orig: &[u8]) -> bool {
    let mut b = vec![9];
    match op {
        "vec8" => codec::encode_vec_u8(&mut b, v),
        "vec16" => codec::encode_vec_u16(&mut b, v),
        _ => codec::encode_vec_u24(&mut b, v),
    }
    let mut c = vec![];
    match op {
        "vec8" => PayloadU8::new(v.to_vec()).encode(&mut c),
        "vec16" => PayloadU16::new(v.to_vec()).encode(&mut c),
        _ => PayloadU24::new(v.to_vec()).encode(&mut c),
    }
    let p = match op {
        "vec8" => PayloadU8::read_bytes(orig).map(|x| x.0),
        "vec16" => PayloadU16::read_bytes(orig).map(|x| x.0),
        _ => PayloadU24::read_bytes(orig).map(|x| x.0),
    };
    b[0] == 9 && &b[1..] == orig && c == orig && p.as_deref() == Some(v)
}
pub fn reader(a: &[String]) {
    let mut out = Out::new(&a[3]);
    let mut r = Rng::new(a[1].parse().unwrap());
    for s in read_scenarios(&a[0]) {
        let ops: Vec<(String, usize)> = s["ops"].as_array().unwrap().iter().map(|x| (x["op"].as_str().unwrap().into(), u(x, "n"))).collect();
        out.run(&rd(&bytes_of(&s["buf"]), &ops));
    }
    // windows and lists of real sizes
    for w in [255usize, 256, 4096, 16383, 16384, 16385, 32768, 65535] {
        let mut buf = vec![9u8, (w >> 8) as u8, w as u8];
        let k = w + r.range(2, 40);
        buf.extend(r.bytes(k));
        let ops = match r.below(3) {
            0 => vec![("take", 3), ("sub", w), ("int", 1), ("rest", 0)],
            1 => vec![("int", 1), ("vec16", 1), ("int", 2)],
            _ => vec![("int", 3), ("take", w), ("take", 1), ("sub", w)],
        };
        for ops in [ops, vec![("int", 1), ("sub", w), ("sub", 3), ("int", 1)]] {
            out.run(&rd(&buf, &ops.iter().map(|(o, n)| (o.to_string(), *n)).collect::<Vec<_>>()));
        }
    }
    for _ in 0..a[2].parse::<usize>().unwrap() {
        let n = r.below(24);
        let mut buf: Vec<u8> = (0..n).map(|_| if r.chance(2, 3) { r.below(5) as u8 } else { r.next() as u8 }).collect();
        if r.chance(1, 10) {
            let k = r.below(300);
            buf.extend(r.bytes(k));
        }
        let k = r.range(1, 8);
        let ops: Vec<(String, usize)> = (0..k).map(|_| {
            let o = *r.pick(&["take", "sub", "int", "int", "vec8", "vec16", "vec24", "rest"]);
            let n = match o {
                "int" => *r.pick(&[1usize, 2, 3, 4, 8]),
                "vec8" | "vec16" | "vec24" => r.range(1, 2),
                "rest" => 0,
                _ => if r.chance(1, 8) { HUGE + r.below(30) } else { r.below(7) },
            };
            (o.to_string(), n)
        }).collect();
        out.run(&rd(&buf, &ops));
    }
}
