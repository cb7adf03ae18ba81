"""Lays mpc-tls's own sources out for the harness: a copy of /repo/crates/mpc-tls/src whose root
module also declares the driver, which so sees what is private to the crate."""
import os
SRC, DST = "/repo/crates/mpc-tls/src", os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../work/vm-src")
TAIL = '''
#[path = "%s/src/drive.rs"]
#[allow(missing_docs, unreachable_pub, dead_code, clippy::all)]
mod drive;
fn main() {
    drive::main()
}
''' % os.path.dirname(os.path.abspath(__file__))


def main():
    want = {}
    for d, _, fs in os.walk(SRC):
        for f in fs:
            p = os.path.join(d, f)
            want[os.path.relpath(p, SRC)] = open(p, "rb").read()
    want["main.rs"] = want.pop("lib.rs") + TAIL.encode()
    for d, _, fs in os.walk(DST):
        for f in fs:
            r = os.path.relpath(os.path.join(d, f), DST)
            if r not in want:
                os.remove(os.path.join(DST, r))
    for r, b in want.items():
        p = os.path.join(DST, r)
        if not os.path.exists(p) or open(p, "rb").read() != b:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(b)


main()
