use crate::util::*;
use futures::{AsyncReadExt, AsyncWriteExt};
use futures_rustls::{
    TlsConnector,
    pki_types::{CertificateDer, PrivateKeyDer, ServerName},
    rustls::{self, ClientConfig, RootCertStore},
};
use serde_json::{Value, json};
use std::sync::Arc;
use std::time::Duration;
use tokio_util::compat::TokioAsyncReadCompatExt;
use tlsn_server_fixture_certs as fc;

pub const DATA: &str = "/repo/crates/server-fixture/server/src/data/";

pub fn client(ca: &'static [u8], tls: usize, auth: &str) -> Arc<ClientConfig> {
    let mut roots = RootCertStore::empty();
    roots.add(CertificateDer::from(ca)).unwrap();
    let v: &[&rustls::SupportedProtocolVersion] = match tls {
        12 => &[&rustls::version::TLS12],
        13 => &[&rustls::version::TLS13],
        _ => &[&rustls::version::TLS13, &rustls::version::TLS12],
    };
    let b = ClientConfig::builder_with_protocol_versions(v).with_root_certificates(roots);
    let cert = |c: &'static [u8], k: &'static [u8]| (vec![CertificateDer::from(c)], PrivateKeyDer::Pkcs8(k.into()));
    let mut c = match auth {
        "good" => {
            let (c, k) = cert(fc::CLIENT_CERT_DER, fc::CLIENT_KEY_DER);
            b.with_client_auth_cert(c, k).unwrap()
        }
        // certificates of other authorities: unrelated, and of the same name
        "stranger" => {
            let (c, k) = cert(include_bytes!("../certs/stranger.der"), include_bytes!("../certs/key.der"));
            b.with_client_auth_cert(c, k).unwrap()
        }
        "impostor" => {
            let (c, k) = cert(include_bytes!("../certs/impostor.der"), include_bytes!("../certs/key.der"));
            b.with_client_auth_cert(c, k).unwrap()
        }
        // another certificate of the authority (that of the record server)
        "sibling" => {
            let (c, k) = cert(tls_server_fixture::SERVER_CERT_DER, tls_server_fixture::SERVER_KEY_DER);
            b.with_client_auth_cert(c, k).unwrap()
        }
        // the right certificate without its key
        "thief" => {
            let (c, k) = cert(fc::CLIENT_CERT_DER, fc::SERVER_KEY_DER);
            b.with_client_auth_cert(c, k).unwrap()
        }
        _ => b.with_no_client_auth(),
    };
    c.resumption = rustls::client::Resumption::disabled();
    Arc::new(c)
}

pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub used: usize,
}
impl Resp {
    pub fn header(&self, n: &str) -> &str {
        self.headers.iter().find(|h| h.0 == n).map(|h| h.1.as_str()).unwrap_or("")
    }
}

/// One response at the front of `b`; `end`: nothing will follow.
pub fn parse(b: &[u8], end: bool, head: bool) -> Option<Resp> {
    let h = b.windows(4).position(|w| w == b"\r\n\r\n")?;
    let text = std::str::from_utf8(&b[..h]).ok()?;
    let mut lines = text.split("\r\n");
    let status = lines.next()?.strip_prefix("HTTP/1.1 ")?.get(..3)?.parse().ok()?;
    let headers: Vec<(String, String)> = lines.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_ascii_lowercase(), v.trim().to_string())).collect();
    let mut r = Resp { status, headers, body: vec![], used: 0 };
    let mut p = h + 4;
    if head {
    } else if r.header("transfer-encoding") == "chunked" {
        loop {
            let e = p + b[p..].windows(2).position(|w| w == b"\r\n")?;
            let n = usize::from_str_radix(std::str::from_utf8(&b[p..e]).ok()?, 16).ok()?;
            let d = b.get(e + 2..e + 2 + n)?;
            r.body.extend_from_slice(d);
            if b.get(e + 2 + n..e + 4 + n)? != b"\r\n" {
                return None;
            }
            p = e + 4 + n;
            if n == 0 {
                break;
            }
        }
    } else if r.header("content-length") != "" {
        let n: usize = r.header("content-length").parse().ok()?;
        r.body = b.get(p..p + n)?.to_vec();
        p += n;
    } else if end {
        r.body = b[p..].to_vec();
        p = b.len();
    } else {
        return None;
    }
    r.used = p;
    Some(r)
}

fn what(r: &Resp) -> (String, usize) {
    let b = &r.body;
    if b.is_empty() {
        return ("empty".into(), 0);
    }
    if b == b"Hello, World!" {
        return ("hello".into(), 0);
    }
    if b.iter().all(|x| *x == 0x42) {
        return ("fill".into(), b.len());
    }
    if let Ok(v) = serde_json::from_slice::<Value>(b) {
        for f in ["1kb.json", "4kb.json", "8kb.json", "elster.json", "protected_data.json"] {
            let d: Value = serde_json::from_slice(&std::fs::read(format!("{DATA}{f}")).unwrap_or_default()).unwrap_or(json!("no file"));
            if d == v {
                return (f.into(), 0);
            }
        }
    }
    if *b == std::fs::read(format!("{DATA}4kb.html")).unwrap_or_default() {
        return ("4kb.html".into(), 0);
    }
    ("other".into(), b.len())
}

fn query(q: &Value) -> String {
    let v: Vec<String> = q.as_array().unwrap().iter().map(|p| {
        let k = p["k"].as_str().unwrap();
        match p["form"].as_str().unwrap() {
            "num" => format!("{k}={}", u(p, "n")),
            "zeros" => format!("{k}=00{}", u(p, "n")),
            "neg" => format!("{k}=-{}", u(p, "n")),
            "word" => format!("{k}=abc"),
            "spaced" => format!("{k}=+{}", u(p, "n")),
            "huge" => format!("{k}=99999999999999999999999"),
            "bare" => k.to_string(),
            "pct" => format!("%{:02X}{}={}", k.as_bytes()[0], &k[1..], u(p, "n")),
            _ => format!("{k}="),
        }
    }).collect();
    if v.is_empty() { String::new() } else { format!("?{}", v.join("&")) }
}

fn auth(a: &Value) -> Vec<u8> {
    let mut h = vec![];
    for x in a.as_array().unwrap() {
        let t: &[u8] = match x.as_str().unwrap() {
            "token" => b"random_auth_token",
            "bearer" => b"Bearer random_auth_token",
            "prefix" => b"random_auth_tok",
            "suffix" => b"random_auth_token1",
            "case" => b"Random_auth_token",
            "bearerbad" => b"Bearer nope",
            "basic" => b"Basic random_auth_token",
            "nospace" => b"Bearerrandom_auth_token",
            "listed" => b"Basic x, random_auth_token",
            "listing" => b"random_auth_token, Basic x",
            "lower" => b"bearer random_auth_token",
            "bytes" => b"random_auth_token\xff",
            _ => b"",
        };
        h.extend_from_slice(b"Authorization: ");
        h.extend_from_slice(t);
        h.extend_from_slice(b"\r\n");
    }
    h
}

async fn get(e: &Value) -> Value {
    let none = |r: &str| json!({"res": r, "status": 0, "type": "", "body": "", "n": 0, "more": false, "served": false});
    let (c, s) = tokio::io::duplex(1 << 15);
    let srv = tokio::spawn(tlsn_server_fixture::bind(s.compat()));
    let cfg = client(fc::CA_CERT_DER, u(e, "tls"), e["ca"].as_str().unwrap());
    let host = match e["host"].as_str().unwrap() {
        "good" => fc::SERVER_DOMAIN.to_string(),
        x => x.to_string(),
    };
    let mut req = format!("{} {}{} HTTP/1.1\r\nHost: {}\r\n", e["method"].as_str().unwrap(), e["path"].as_str().unwrap(), query(&e["q"]), fc::SERVER_DOMAIN).into_bytes();
    req.extend(auth(&e["auth"]));
    req.extend_from_slice(b"\r\n");
    let twice = e["twice"].as_bool().unwrap();
    if twice {
        let r = req.clone();
        req.extend(r);
    }
    let head = e["method"] == "HEAD";
    let cli = async move {
        let Ok(mut t) = TlsConnector::from(cfg).connect(ServerName::try_from(host).unwrap(), c.compat()).await else { return None };
        if t.write_all(&req).await.is_err() || t.flush().await.is_err() {
            return Some(vec![]);
        }
        let mut b = vec![];
        let mut buf = [0u8; 4096];
        loop {
            match t.read(&mut buf).await {
                Ok(0) | Err(_) => break,
                Ok(n) => b.extend_from_slice(&buf[..n]),
            }
        }
        Some(b)
    };
    let r = tokio::time::timeout(Duration::from_secs(30), cli).await;
    let b = match r {
        Err(_) => return none("hang"),
        Ok(None) => {
            return none("refused");
        }
        Ok(Some(b)) => b,
    };
    let served = match tokio::time::timeout(Duration::from_secs(30), srv).await {
        Ok(Ok(r)) => r.is_ok(),
        Ok(Err(_)) => return none("panic"),
        Err(_) => return none("hang"),
    };
    if !served {
        return none("refused");
    }
    match parse(&b, true, head) {
        None => none("none"),
        Some(r) => {
            let (k, n) = what(&r);
            json!({"res": "ok", "status": r.status, "type": r.header("content-type"), "body": k, "n": n, "more": r.used != b.len(), "served": true})
        }
    }
}

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap()
}

pub fn main(a: &[String]) {
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let mut evs = read_scenarios(&a[0]);
    for _ in 0..n {
        let q: Vec<Value> = (0..r.below(4)).map(|_| json!({"k": r.pick(&["size", "size", "x", "siz"]),
            "form": r.pick(&["num", "num", "num", "word", "neg", "bare", "huge", "pct", "zeros", "spaced", "none"]), "n": *r.pick(&[0usize, 1, 2, 4, 5, 8, 16, 1000, 16384, 70000])})).collect();
        let auth: Vec<&str> = (0..r.below(3)).map(|_| *r.pick(&["token", "bearer", "prefix", "suffix", "case", "bearerbad", "basic", "nospace", "empty", "bytes", "listed", "listing", "lower"])).collect();
        evs.push(json!({"ev": "get", "path": r.pick(&["/", "/bytes", "/bytes", "/formats/json", "/formats/html", "/protected", "/elster", "/formats", "/bytes/", "/Bytes"]),
            "q": q, "auth": auth, "method": r.pick(&["GET", "GET", "GET", "POST", "HEAD", "PUT"]), "tls": *r.pick(&[12usize, 13, 0]),
            "ca": r.pick(&["none", "none", "good", "stranger", "impostor", "sibling", "thief"]), "host": r.pick(&["good", "good", "good", "good", "other.io"]), "twice": r.chance(1, 6)}));
    }
    let rt = rt();
    let outs = rt.block_on(async {
        use futures::StreamExt;
        futures::stream::iter(evs.iter().map(get)).buffered(8).collect::<Vec<_>>().await
    });
    for (e, o) in evs.iter_mut().zip(outs) {
        e["out"] = o;
    }
    for c in evs.chunks(50) {
        out.run(c);
    }
}

/// A connection to the echo server: requests one after the other.
async fn echo_run(reqs: &[Value]) -> Vec<Value> {
    let (c, s) = tokio::io::duplex(1 << 15);
    let srv = tokio::spawn(tls_server_fixture::bind_test_server_hyper(s.compat()));
    let cfg = client(tls_server_fixture::CA_CERT_DER, u(&reqs[0], "tls"), "none");
    let mut evs = vec![];
    let dead = |r: &str| json!({"res": r, "status": 0, "body": []});
    let Ok(mut t) = TlsConnector::from(cfg).connect(ServerName::try_from(tls_server_fixture::SERVER_DOMAIN).unwrap(), c.compat()).await else {
        let mut e = reqs[0].clone();
        e["out"] = dead("refused");
        return vec![e];
    };
    for e in reqs {
        let body = bytes_of(&e["body"]);
        let mut req = format!("{} {} HTTP/1.1\r\nHost: {}\r\n", e["method"].as_str().unwrap(), e["path"].as_str().unwrap(), tls_server_fixture::SERVER_DOMAIN).into_bytes();
        let cs: Vec<usize> = e["chunks"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let mut pieces = vec![];
        if cs.is_empty() {
            req.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
            req.extend_from_slice(&body);
            pieces.push(req);
        } else {
            req.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            pieces.push(req);
            let mut o = 0;
            for c in cs.iter().chain([&body.len()]) {
                let n = (*c).min(body.len() - o);
                if n > 0 {
                    let mut p = format!("{n:x}\r\n").into_bytes();
                    p.extend_from_slice(&body[o..o + n]);
                    p.extend_from_slice(b"\r\n");
                    pieces.push(p);
                    o += n;
                }
            }
            pieces.push(b"0\r\n\r\n".to_vec());
        }
        let w = async {
            for p in &pieces {
                t.write_all(p).await?;
                t.flush().await?;
                tokio::task::yield_now().await;
            }
            let mut b = vec![];
            let mut buf = [0u8; 4096];
            loop {
                let n = t.read(&mut buf).await?;
                b.extend_from_slice(&buf[..n]);
                if let Some(r) = parse(&b, n == 0, false) {
                    return Ok::<_, std::io::Error>(Some((r, b.len())));
                }
                if n == 0 {
                    return Ok(None);
                }
            }
        };
        let o = match tokio::time::timeout(Duration::from_secs(30), w).await {
            Err(_) => dead("hang"),
            Ok(Err(_)) | Ok(Ok(None)) => dead("closed"),
            Ok(Ok(Some((r, n)))) if r.used == n => json!({"res": "ok", "status": r.status, "body": if r.body.starts_with(b"Try POSTing data to /echo such as: ") { vec![0] } else { r.body }}),
            Ok(Ok(Some(_))) => dead("excess"),
        };
        let mut e = e.clone();
        // nothing is asked after a body the server had no reason to read
        let stop = o["res"] != "ok" || o["status"] == 404 && (!body.is_empty() || !cs.is_empty());
        e["out"] = o;
        evs.push(e);
        if stop {
            break;
        }
    }
    drop(t);
    _ = tokio::time::timeout(Duration::from_secs(30), srv).await;
    evs
}

pub fn echo(a: &[String]) {
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let mut runs: Vec<Vec<Value>> = read_scenarios(&a[0]).into_iter().map(|s| s["reqs"].as_array().unwrap().clone()).collect();
    for _ in 0..n {
        let tls = *r.pick(&[12usize, 13]);
        runs.push((0..r.range(1, 5)).map(|_| {
            let len = *r.pick(&[0usize, 1, 2, 9, 40, 40, 300]);
            let body: Vec<u8> = (0..len).map(|_| if r.chance(2, 3) { *r.pick(b"abczAZ[`{@") } else { r.next() as u8 }).collect();
            // text outside ASCII too: its letters are not the server's business
            let body = if r.chance(1, 3) { "é ß µ ÿ ŉ 中 aZ ﬁ ǆ i".chars().cycle().skip(r.below(20)).take(len.min(60)).collect::<String>().into_bytes() } else { body };
            let m = *r.pick(&["POST", "POST", "POST", "GET", "PUT"]);
            let chunks: Vec<usize> = if r.chance(1, 2) { (0..r.range(1, 4)).map(|_| r.range(1, 20)).collect() } else { vec![] };
            let body = if m == "GET" { vec![] } else { body };
            json!({"ev": "echo", "tls": tls, "method": m, "path": r.pick(&["/", "/echo", "/echo/uppercase", "/echo/reversed", "/echo/reversed", "/echo/", "/nope", "/echo?x=1"]),
                "body": body, "chunks": if m == "GET" { vec![] } else { chunks }})
        }).collect());
    }
    let rt = rt();
    let res = rt.block_on(async {
        use futures::StreamExt;
        futures::stream::iter(runs.iter().map(|x| echo_run(x))).buffered(8).collect::<Vec<_>>().await
    });
    for x in res {
        out.run(&x);
    }
}

/// The message fixtures: what kind of message each is.
pub fn data(a: &[String]) {
    use tlsn_data_fixtures::http::{request as q, response as p};
    let mut out = Out::new(&a[3]);
    let all: [(&str, &[u8]); 12] = [
        ("GET_EMPTY", q::GET_EMPTY), ("GET_EMPTY_HEADER", q::GET_EMPTY_HEADER), ("GET_WITH_HEADER", q::GET_WITH_HEADER), ("POST_JSON", q::POST_JSON),
        ("OK_EMPTY", p::OK_EMPTY), ("OK_EMPTY_HEADER", p::OK_EMPTY_HEADER), ("OK_TEXT", p::OK_TEXT), ("OK_JSON", p::OK_JSON),
        ("OK_CHUNKED_TEXT", p::OK_CHUNKED_TEXT), ("OK_CHUNKED_JSON", p::OK_CHUNKED_JSON),
        ("OK_CHUNKED_TEXT_MULTI", p::OK_CHUNKED_TEXT_MULTI), ("OK_CHUNKED_JSON_MULTI", p::OK_CHUNKED_JSON_MULTI),
    ];
    let mut evs = vec![];
    for (n, b) in all {
        let h = b.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(b.len());
        let head = String::from_utf8_lossy(&b[..h]).to_string();
        let hs: Vec<(&str, &str)> = head.split("\r\n").skip(1).filter_map(|l| l.split_once(':')).collect();
        let val = |k: &str| hs.iter().find(|x| x.0.eq_ignore_ascii_case(k)).map(|x| x.1.trim());
        let rest = &b[(h + 4).min(b.len())..];
        // decode the body by itself
        let mut body = vec![];
        let mut chunks = 0;
        let mut whole = true;
        if val("transfer-encoding") == Some("chunked") {
            let mut p = rest;
            loop {
                let Some(e) = p.windows(2).position(|w| w == b"\r\n") else { whole = false; break };
                let Some(n) = std::str::from_utf8(&p[..e]).ok().and_then(|s| usize::from_str_radix(s, 16).ok()) else { whole = false; break };
                if p.len() < e + 4 + n || &p[e + 2 + n..e + 4 + n] != b"\r\n" { whole = false; break }
                body.extend_from_slice(&p[e + 2..e + 2 + n]);
                p = &p[e + 4 + n..];
                if n == 0 { break }
                chunks += 1;
            }
        } else {
            let n: usize = val("content-length").and_then(|x| x.parse().ok()).unwrap_or(0);
            whole = rest.len() >= n;
            body.extend_from_slice(&rest[..n.min(rest.len())]);
        }
        let kind = if body.is_empty() { "none" } else if serde_json::from_slice::<Value>(&body).is_ok() { "json" } else { "text" };
        let ctype = match val("content-type") { None => "none", Some("application/json") => "json", Some("text/plain") => "text", _ => "other" };
        evs.push(json!({"ev": "data", "name": n, "out": {
            "line": head.split("\r\n").next().unwrap_or(""), "ended": h < b.len(), "hdrs": hs.len() > 0, "emptyhdr": hs.iter().any(|x| x.1.trim().is_empty()),
            "chunked": val("transfer-encoding") == Some("chunked"), "multi": chunks > 2, "body": kind, "ctype": ctype, "whole": whole}}));
    }
    // the certificate fixtures fit together
    let chk = |ca: &[u8], cert: &[u8], key: &[u8], client_auth: bool| -> bool {
        use futures_rustls::rustls::{ServerConfig, server::WebPkiClientVerifier};
        let mut roots = RootCertStore::empty();
        if roots.add(CertificateDer::from(ca.to_vec())).is_err() {
            return false;
        }
        if !client_auth {
            let k = PrivateKeyDer::Pkcs8(key.to_vec().into());
            return ServerConfig::builder().with_no_client_auth().with_single_cert(vec![CertificateDer::from(cert.to_vec())], k).is_ok();
        }
        let v = WebPkiClientVerifier::builder(roots.into()).build().unwrap();
        v.verify_client_cert(&CertificateDer::from(cert.to_vec()), &[], rustls::pki_types::UnixTime::now()).is_ok()
    };
    evs.push(json!({"ev": "certs", "out": {
        "client": chk(fc::CA_CERT_DER, fc::CLIENT_CERT_DER, fc::CLIENT_KEY_DER, true),
        "server": chk(fc::CA_CERT_DER, fc::SERVER_CERT_DER, fc::SERVER_KEY_DER, false),
        "plain": chk(tls_server_fixture::CA_CERT_DER, tls_server_fixture::SERVER_CERT_DER, tls_server_fixture::SERVER_KEY_DER, false),
        "domains": [fc::SERVER_DOMAIN, tls_server_fixture::SERVER_DOMAIN]}}));
    out.run(&evs);
}
