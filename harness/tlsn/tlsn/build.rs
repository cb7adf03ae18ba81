fn main() {
    println!("cargo:rustc-check-cfg=cfg(tlsn_insecure)");
    println!("cargo:rustc-cfg=tlsn_insecure");
}
