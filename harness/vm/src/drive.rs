//! Runs mpc-tls (leader, follower, record layer) and its components over an ideal two-party
//! functionality.
#[path = "../../shared/certs.rs"]
mod certs;
mod comp;
mod duo;
mod rl;
mod rogue;
mod sess;
#[path = "../../shared/util.rs"]
mod util;

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        "prf" | "kx" | "ctr" | "conf" => comp::main(&a[0], &a[1..]),
        "rl" => rl::main(&a[1..]),
        "sess" => sess::main(&a[1..]),
        "rogue" => rogue::main(&a[1..]),
        _ => util::die("unknown command"),
    }
}
