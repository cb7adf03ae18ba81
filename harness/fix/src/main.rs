//! Runs the harness configuration types and the server fixtures.
mod harn;
mod http;
mod raw;
#[path = "../../shared/util.rs"]
mod util;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        "harn" => harn::main(&a[1..]),
        "http" => http::main(&a[1..]),
        "echo" => http::echo(&a[1..]),
        "raw" => raw::main(&a[1..]),
        "data" => http::data(&a[1..]),
        _ => util::die("unknown command"),
    }
}
