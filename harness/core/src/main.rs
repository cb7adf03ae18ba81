//! Runs tlsn-core and tlsn-attestation.
#[path = "../../shared/certs.rs"]
mod certs;
mod attest;
mod capture;
mod config;
mod disclose;
mod ident;
mod merkle;
mod transcript;
#[path = "../../shared/util.rs"]
mod util;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        "attest" => attest::main(&a[1..]),
        "disclose" => disclose::main(&a[1..]),
        "capture" => capture::main(&a[1..]),
        "config" => config::main(&a[1..]),
        "ident" => ident::main(&a[1..]),
        "merkle" => merkle::main(&a[1..]),
        "transcript" => transcript::main(&a[1..]),
        _ => util::die("unknown command"),
    }
}
