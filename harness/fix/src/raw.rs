use crate::{http::client, util::*};
use futures::{AsyncReadExt, AsyncWriteExt};
use futures_rustls::{TlsConnector, pki_types::ServerName, rustls};
use serde_json::{Value, json};
use tls_server_fixture as f;
use tokio_util::compat::TokioAsyncReadCompatExt;

/// Sends the commands of one connection, reports what came back.
async fn conn(e: &Value, r: &mut Rng) -> Value {
    let (c, s) = tokio::io::duplex(1 << 15);
    let srv = tokio::spawn(f::bind_test_server(s.compat()));
    let cfg = client(f::CA_CERT_DER, u(e, "tls"), "none");
    let none = |x: &str| json!({"hellos": 0, "end": x, "waited": false, "junk": false});
    let Ok(mut t) = TlsConnector::from(cfg).connect(ServerName::try_from(f::SERVER_DOMAIN).unwrap(), c.compat()).await else { return none("refused") };
    let mut got = vec![];
    let mut buf = [0u8; 2048];
    let cmds = e["cmds"].as_array().unwrap();
    for (i, cmd) in cmds.iter().enumerate() {
        let s = cmd.as_str().unwrap().as_bytes();
        // the command, padded with zero bytes to a whole record
        let mut m = Vec::with_capacity(f::APP_RECORD_LENGTH);
        let mut pad = f::APP_RECORD_LENGTH - s.len();
        let style = r.below(3);
        for b in s {
            let z = match style { 0 => 0, 1 => r.below(3).min(pad), _ => 0 };
            m.extend(std::iter::repeat_n(0u8, z));
            pad -= z;
            m.push(*b);
        }
        if style == 2 {
            m.splice(0..0, std::iter::repeat_n(0u8, pad));
        } else {
            m.extend(std::iter::repeat_n(0u8, pad));
        }
        let cut = if r.chance(1, 2) { 1024 } else { r.range(1, 1024) };
        let short = i + 1 == cmds.len() && e["cut"].as_bool().unwrap();
        if short {
            m.truncate(1023);
        }
        for p in m.chunks(cut) {
            if t.write_all(p).await.is_err() || t.flush().await.is_err() {
                break;
            }
        }
        // wait for the answer now and then, so that answers and commands interleave
        if r.chance(1, 2) && !short && cmd == "other" {
            let want = got.len() + 5;
            while got.len() < want {
                match t.read(&mut buf).await {
                    Ok(0) | Err(_) => break,
                    Ok(n) => got.extend_from_slice(&buf[..n]),
                }
            }
        }
    }
    let t0 = tokio::time::Instant::now();
    if e["bye"].as_bool().unwrap() {
        _ = t.close().await;
    }
    let end = loop {
        match t.read(&mut buf).await {
            Ok(0) => break "notify".to_string(),
            Ok(n) => got.extend_from_slice(&buf[..n]),
            Err(x) => {
                let k = match x.get_ref().and_then(|y| y.downcast_ref::<rustls::Error>()) {
                    Some(rustls::Error::InvalidMessage(_)) => "corrupt",
                    Some(rustls::Error::DecryptError) => "decrypt",
                    Some(rustls::Error::AlertReceived(rustls::AlertDescription::BadRecordMac)) => "alert",
                    Some(_) => "tls",
                    None if x.kind() == std::io::ErrorKind::UnexpectedEof => "eof",
                    None => "io",
                };
                break k.to_string();
            }
        }
    };
    let ms = t0.elapsed().as_millis() as u64;
    if srv.await.is_err() {
        return none("panic");
    }
    let hellos = got.len() / 5;
    json!({"hellos": hellos, "end": end, "waited": ms >= f::CLOSE_DELAY, "junk": got != b"hello".repeat(hellos)})
}

pub fn main(a: &[String]) {
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let mut out = Out::new(&a[3]);
    let mut evs = read_scenarios(&a[0]);
    for _ in 0..n {
        let mut cmds: Vec<&str> = (0..r.below(6)).map(|_| *r.pick(&["other", "other", "must_delay_when_closing"])).collect();
        let fin = r.chance(1, 2);
        if fin {
            cmds.push(r.pick(&["send_close_notify", "send_close_notify_and_close_socket", "close_socket", "send_corrupted_message", "send_record_with_bad_mac", "send_alert"]));
        }
        evs.push(json!({"ev": "conn", "tls": *r.pick(&[12usize, 13]), "cmds": cmds, "cut": !fin && r.chance(1, 3), "bye": !fin || r.chance(1, 2)}));
    }
    // virtual time: delays are measured, not waited for
    for e in evs.iter_mut() {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        let o = rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(3600), conn(e, &mut r)).await });
        e["out"] = o.unwrap_or(json!({"hellos": 0, "end": "hang", "waited": false, "junk": false}));
    }
    for c in evs.chunks(20) {
        out.run(c);
    }
}
