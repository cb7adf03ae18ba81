//! Runs tlsn's prover and verifier, over an ideal two-party functionality.
#[path = "../../shared/certs.rs"]
mod certs;
#[path = "../../vm/src/duo.rs"]
mod duo;
mod deap;
mod live;
mod prove;
mod proxy;
mod tags;
#[path = "../../shared/util.rs"]
mod util;

pub(crate) fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SHOW").is_ok() {
            eprintln!("{i}")
        }
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        "prove" => prove::main(&a[1..]),
        "live" => live::main(&a[1..]),
        "proxy" => proxy::main(&a[1..]),
        "deap" => deap::main(&a[1..]),
        "tags" => tags::main(&a[1..]),
        _ => util::die("unknown command"),
    }
}
