"""Writes /verif/seeded/<id>/ from a definition file (development only).
usage: plant.py DEFS.py   with B = [dict(id, prop, edits=[(file, old, new)], demo, deps, needs, breaks)]"""
import json, os, runpy, subprocess, sys, shutil
OUT = "/verif/seeded"
SH = r'''#!/bin/bash
# cwd is the repository; builds demo.rs against it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
export PATH=$PATH:/root/.cargo/bin HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_TARGET_DIR=$w/target CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET_DIR
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
find "$here" -maxdepth 1 -name 'fixture*' -exec cp {} "$w/src/" \;
sed "s#@REPO@#$repo#" "$here/demo.toml" > "$w/Cargo.toml"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w" && cargo build --offline -q 2> "$w/log" || { cat "$w/log"; exit 2; }
timeout 120 "$w/target/debug/demo"
'''
DEPS = {"tls": 'tlsn-tls-core = { path = "@REPO@/crates/tls-core", features = ["serde"] }',
        "futures": 'futures = "0.3"', "ring": 'ring = "0.17"', "sct": 'sct = "0.7"',
        "pki": 'rustls-pki-types = "1"', "webtime": 'web-time = "0.2"',
        "serde_json": 'serde_json = "1"', "serde": 'serde = { version = "1", features = ["derive"] }',
        "certs": 'tlsn-server-fixture-certs = { path = "@REPO@/crates/server-fixture/certs" }',
        "server": 'tlsn-server-fixture = { path = "@REPO@/crates/server-fixture/server" }',
        "tlsfix": 'tls-server-fixture = { path = "@REPO@/crates/tls-server-fixture" }',
        "harness": 'tlsn-harness-core = { path = "@REPO@/crates/harness/core" }',
        "tokio": 'tokio = { version = "1", features = ["full"] }',
        "tokio-util": 'tokio-util = { version = "0.7", features = ["compat"] }',
        "hmac": 'hmac = "0.12"', "sha2": 'sha2 = "0.10"', "toml": 'toml = "0.8"',
        "rustls": 'futures-rustls = "0.25"', "webpki": 'rustls-webpki = { version = "0.103", features = ["ring"] }'}
for b in runpy.run_path(sys.argv[1])["B"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(OUT, b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    wt = "/tmp/plant/wt"
    if not os.path.isdir(wt):
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "--detach", "-q", wt, "HEAD"])
    subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
    subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
    for f, old, new in b["edits"]:
        p = os.path.join(wt, f); s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", wt, "diff"], text=True))
    subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
    open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(b["demo"])
    open(d + "/demo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n' + "\n".join(DEPS[x] for x in b["deps"]) + '\n\n[profile.dev]\ndebug = 0\n')
    for n, c in b.get("files", {}).items():
        open(os.path.join(d, n), "w").write(c)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", b["id"])
