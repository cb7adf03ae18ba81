//! Conformance harness for tls-core: executes behaviours generated by the
//! TLA+ models (and seeded random ones) on the real code and records what was
//! observed. It contains no expectations: TLC validates the recorded runs.
#[path = "../../shared/certs.rs"]
mod certs;
mod codec;
mod deframer;
mod joiner;
mod misc;
mod pki;
mod record;
#[path = "../../shared/util.rs"]
pub mod util;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(String::as_str).unwrap_or("");
    match cmd {
        "deframer" => deframer::main(&a[2..]),
        "joiner" => joiner::main(&a[2..]),
        "fragmenter" => joiner::frag_main(&a[2..]),
        "record" => record::main(&a[2..]),
        "enums" => record::enums(&a[2..]),
        "reader" => record::reader(&a[2..]),
        "pki" => pki::main(&a[2..]),
        "pkimock" => pki::mocks(&a[2..]),
        "sigs" => pki::sigs(&a[2..]),
        "suites" => misc::suites(&a[2..]),
        "names" => misc::names(&a[2..]),
        "prf" => misc::prf(&a[2..]),
        "hs" => codec::main(&a[2..], false),
        "hsq" => codec::main(&a[2..], true),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(3)
        }
    }
}
