use crate::util::*;
use harness_core::{ExecutorConfig, Id, IoMode, Role, bench::*, network::*, rpc::*, test::*};
use serde_json::{Value, json};

const FIELDS: [&str; 10] = ["samples", "protocol_latency", "app_latency", "bandwidth", "upload-size", "download-size",
    "defer-decryption", "memory-profile", "reveal-all", "proxy"];

fn name(b: &Value) -> String {
    String::from_utf8(bytes_of(b)).unwrap()
}

/// An item or group of the specification as the configuration file has it.
fn entry(e: &Value, group: bool, nulls: bool) -> Value {
    let mut o = serde_json::Map::new();
    for (k, f) in FIELDS.iter().enumerate() {
        match e["f"][k].as_array().unwrap().first() {
            Some(v) => {
                let v = v.as_u64().unwrap();
                o.insert(f.to_string(), if k >= 6 { json!(v == 1) } else { json!(v) });
            }
            None if nulls => {
                o.insert(f.to_string(), Value::Null);
            }
            None => {}
        }
    }
    if group {
        o.insert("name".into(), json!(name(&e["name"])));
    } else {
        for k in ["group", "name"] {
            if let Some(n) = e[k].as_array().unwrap().first() {
                o.insert(k.into(), json!(name(n)));
            }
        }
    }
    Value::Object(o)
}

fn opt(v: &Value) -> Value {
    match v.as_str() {
        Some(s) => json!([s.as_bytes()]),
        None => json!([]),
    }
}

fn bench_out(b: &Bench) -> Value {
    let j = serde_json::to_value(b).unwrap();
    let v: Vec<u64> = FIELDS[1..].iter().map(|f| match &j[*f] {
        Value::Bool(b) => *b as u64,
        x => x.as_u64().unwrap_or(999_999_999),
    }).collect();
    json!({"group": opt(&j["group"]), "name": opt(&j["name"]), "v": v})
}

fn ip(a: std::net::Ipv4Addr) -> Value {
    json!(a.octets())
}
fn ipp(a: (std::net::Ipv4Addr, u16)) -> Value {
    let o = a.0.octets();
    json!([o[0], o[1], o[2], o[3], a.1])
}

fn cmd_output(k: usize) -> CmdOutput {
    match k {
        0 => CmdOutput::Empty,
        1 => CmdOutput::GetTests(vec!["a".into()]),
        2 => CmdOutput::Test(TestOutput { status: TestStatus::Passed }),
        _ => CmdOutput::Bench(BenchOutput::Verifier),
    }
}

fn same<T: std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> bool {
    let s = serde_json::to_string(x).unwrap();
    match serde_json::from_str::<T>(&s) {
        Ok(y) => format!("{x:?}") == format!("{y:?}"),
        Err(_) => false,
    }
}

fn words(r: &mut Rng) -> String {
    (0..r.below(9)).map(|_| *r.pick(&['a', 'Z', '"', '\\', '\n', 'é', '/', '0', ' '])).collect()
}
fn rbench(r: &mut Rng) -> Bench {
    let o = |r: &mut Rng| if r.chance(1, 3) { None } else { Some(words(r)) };
    Bench {
        group: o(r), name: o(r), protocol_latency: r.below(1 << 30), app_latency: r.below(1000), bandwidth: r.below(1 << 20),
        upload_size: r.below(1 << 30), download_size: r.below(1 << 30), defer_decryption: r.chance(1, 2), memory_profile: r.chance(1, 2),
        reveal_all: r.chance(1, 2), proxy: r.chance(1, 2),
    }
}
fn rmetrics(m: &[u64]) -> ProverMetrics {
    ProverMetrics {
        time_preprocess: m[0], time_online: m[1], time_total: m[2], uploaded_preprocess: m[3], downloaded_preprocess: m[4],
        uploaded_online: m[5], downloaded_online: m[6], uploaded_total: m[7], downloaded_total: m[8],
        heap_max_bytes: if m[9] == 0 { None } else { Some(m[9] as usize) },
    }
}
fn rstatus(r: &mut Rng) -> TestStatus {
    match r.below(4) {
        0 => TestStatus::Passed,
        1 => TestStatus::TimedOut,
        2 => TestStatus::Failed { reason: None },
        _ => TestStatus::Failed { reason: Some(words(r)) },
    }
}

fn eval(e: &Value, r: &mut Rng) -> Value {
    match e["ev"].as_str().unwrap() {
        "bench" => {
            let nulls = r.chance(1, 2);
            let all = |k: &str, g: bool| e[k].as_array().unwrap().iter().map(|x| entry(x, g, nulls)).collect::<Vec<_>>();
            let j = json!({"group": all("groups", true), "bench": all("items", false)});
            let items: BenchItems = match serde_json::from_value(j) {
                Ok(x) => x,
                Err(_) => return json!({"res": "unreadable", "b": []}),
            };
            match guard(|| items.to_benches(u(e, "samples"), e["ovr"].as_bool().unwrap())) {
                Some(b) => json!({"res": "ok", "b": b.iter().map(bench_out).collect::<Vec<_>>()}),
                None => json!({"res": "refused", "b": []}),
            }
        }
        "net" => {
            let b = bytes_of(&e["ip"]);
            let net = ipnet::Ipv4Net::new([b[0], b[1], b[2], b[3]].into(), u(e, "prefix") as u8).unwrap();
            match guard(|| NetworkConfig::new(net)) {
                None => json!({"res": "refused", "a": []}),
                Some(n) => json!({"res": "ok", "wasm": ipp(n.wasm), "subnet": n.subnet.to_string() == net.to_string(), "a": [
                    ip(n.host), ipp(n.proto_proxy), ipp(n.app_proxy), ipp(n.rpc_0), ipp(n.rpc_1), ipp(n.proto_0), ipp(n.proto_1),
                    ipp(n.app), ip(n.app_0), ip(n.app_1)]}),
            }
        }
        "mode" => match IoMode::try_from(name(&e["s"]).as_str()) {
            Ok(m) => json!({"m": if m == IoMode::Client { "client" } else { "server" }, "shown": m.to_string()}),
            Err(_) => json!({"m": "err", "shown": ""}),
        },
        "outp" => {
            let o = cmd_output(u(e, "have"));
            let r: std::result::Result<(), RpcError> = match u(e, "want") {
                1 => o.try_into_get_tests().map(|_| ()).map_err(RpcError::from),
                2 => o.try_into_test().map(|_| ()).map_err(RpcError::from),
                _ => o.try_into_bench().map(|_| ()).map_err(RpcError::from),
            };
            match r {
                Ok(()) => json!("ok"),
                Err(e) => json!(e.reason()),
            }
        }
        "status" => json!(match e["st"].as_str().unwrap() {
            "passed" => TestStatus::Passed,
            "timedout" => TestStatus::TimedOut,
            "failed" => TestStatus::Failed { reason: None },
            _ => TestStatus::Failed { reason: Some("Passed".into()) },
        }.is_passed()),
        "meas" => {
            let c: Vec<u64> = e["c"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let m: Vec<u64> = e["m"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let b = Bench {
                group: Some("g".into()), name: Some("n".into()), protocol_latency: c[0] as usize, app_latency: c[1] as usize,
                bandwidth: c[2] as usize, upload_size: c[3] as usize, download_size: c[4] as usize, defer_decryption: c[5] == 1,
                memory_profile: c[6] == 1, reveal_all: c[7] == 1, proxy: c[8] == 1,
            };
            let x = Measurement::new(b, rmetrics(&m));
            json!({"gn": x.group.as_deref() == Some("g") && x.name.as_deref() == Some("n"),
                "v": [x.latency as u64, x.bandwidth as u64, x.upload_size as u64, x.download_size as u64, x.defer_decryption as u64, x.proxy as u64,
                x.time_preprocess, x.time_online, x.time_total, x.uploaded_preprocess, x.downloaded_preprocess, x.uploaded_online,
                x.downloaded_online, x.uploaded_total, x.downloaded_total, x.heap_max_bytes.unwrap_or(0) as u64]})
        }
        "wire" => {
            let role = if r.chance(1, 2) { Role::Prover } else { Role::Verifier };
            let m: Vec<u64> = (0..10).map(|_| r.next() >> r.range(1, 50)).collect();
            json!(match e["t"].as_str().unwrap() {
                "tests" => same(&Cmd::GetTests),
                "test" => same(&Cmd::Test(TestCmd { name: words(r), role })),
                "bench" => same(&Cmd::Bench(BenchCmd { config: rbench(r), role })),
                "otests" => same(&CmdOutput::GetTests((0..r.below(4)).map(|_| words(r)).collect())),
                "otest" => same(&CmdOutput::Test(TestOutput { status: rstatus(r) })),
                "obench" => same(&CmdOutput::Bench(BenchOutput::Prover { metrics: rmetrics(&m) })),
                "overifier" => same(&CmdOutput::Bench(BenchOutput::Verifier)) && same(&CmdOutput::Empty),
                "error" => same(&RpcError::new(words(r))),
                "result" => same(&rbench(r)) && {
                    let x = Measurement::new(rbench(r), rmetrics(&m));
                    same(&x)
                },
                _ => {
                    let n = NetworkConfig::new(ipnet::Ipv4Net::new((r.next() as u32).into(), r.range(8, 28) as u8).unwrap());
                    let c = ExecutorConfig::builder().id(if r.chance(1, 2) { Id::Zero } else { Id::One })
                        .io_mode(if r.chance(1, 2) { IoMode::Client } else { IoMode::Server }).network_config(n).build();
                    same(&c) && {
                        let d: ExecutorConfig = serde_json::from_str(&serde_json::to_string(&c).unwrap()).unwrap();
                        d.io_mode() == c.io_mode() && format!("{:?}{:?}", d.id(), d.network()) == format!("{:?}{:?}", c.id(), c.network())
                    }
                }
            })
        }
        x => die(x),
    }
}

pub fn main(a: &[String]) {
    let mut r = Rng::new(a[1].parse().unwrap());
    let n: usize = a[2].parse().unwrap();
    let kinds: Vec<&str> = a[4].split(',').collect();
    let mut out = Out::new(&a[3]);
    let mut evs = read_scenarios(&a[0]);
    let nm = |r: &mut Rng| json!(r.pick(&["a", "b", "ab", "B", "", "a1", "zz"]).as_bytes());
    let on = |r: &mut Rng| if r.chance(1, 3) { json!([]) } else { let x = json!(r.pick(&["a", "b", "ab", "B", "", "a1", "zz"]).as_bytes()); json!([x]) };
    let f = |r: &mut Rng| (0..10).map(|k| if r.chance(1, 2) { json!([]) } else if k >= 6 { json!([r.below(2)]) } else if k == 0 { json!([r.below(4)]) } else { json!([r.below(5000)]) }).collect::<Vec<_>>();
    for _ in 0..n {
        for k in &kinds {
            evs.push(match *k {
                "bench" => {
                    let groups: Vec<Value> = (0..r.below(5)).map(|_| json!({"name": nm(&mut r), "f": f(&mut r)})).collect();
                    // now and then many items of few names, so that keeping the order matters
                    let many = r.chance(1, 6);
                    let n = if many { r.range(20, 40) } else { r.below(7) };
                    let items: Vec<Value> = (0..n).map(|_| {
                        let g = if many { json!([]) } else if r.chance(1, 3) || groups.is_empty() { if r.chance(1, 12) { json!([[113]]) } else { json!([]) } } else { let x = r.pick(&groups)["name"].clone(); json!([x]) };
                        json!({"group": g, "name": if many { json!([r.pick(&["a", "b"]).as_bytes()]) } else { on(&mut r) }, "f": f(&mut r)})
                    }).collect();
                    json!({"ev": "bench", "groups": groups, "items": items, "samples": if many { r.range(1, 2) } else { r.below(4) }, "ovr": r.chance(1, 2)})
                }
                "net" => json!({"ev": "net", "ip": r.bytes(4), "prefix": r.range(0, 32)}),
                "mode" => {
                    let s: String = match r.below(3) {
                        0 => "client".into(),
                        1 => "server".into(),
                        _ => (0..r.below(8)).map(|_| *r.pick(&['c', 'l', 'S', 'é', ' ', 'r', 'v'])).collect(),
                    };
                    let s: String = s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
                    let s = if r.chance(1, 6) { format!("{s} ") } else { s };
                    json!({"ev": "mode", "s": s.as_bytes()})
                }
                "meas" => json!({"ev": "meas", "c": (0..9).map(|k| if k < 5 { r.below(100000) } else { r.below(2) }).collect::<Vec<_>>(),
                    "m": (0..10).map(|_| r.below(1 << 30)).collect::<Vec<_>>()}),
                _ => json!({"ev": "wire", "t": r.pick(&["tests", "test", "bench", "otests", "otest", "obench", "overifier", "error", "result", "config"])}),
            });
        }
    }
    for e in evs.iter_mut() {
        e["out"] = eval(e, &mut r);
    }
    for c in evs.chunks(50) {
        out.run(c);
    }
}
