//! Runs the TLS client of mpc-tls against scripted servers.
#![allow(dead_code)]
#[path = "../../shared/certs.rs"]
mod certs;
#[path = "/repo/crates/mpc-tls/src/client/mod.rs"]
pub mod client;
mod conn;
pub mod leader;
mod sign;
#[path = "../../shared/util.rs"]
mod util;
pub use leader::{MpcTlsError, MpcTlsLeader};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        "conn" => conn::main(&a[1..]),
        "sign" => sign::main(&a[1..]),
        _ => util::die("unknown command"),
    }
}
