#!/usr/bin/env python3
"""Development tool: mutation testing of the checks.
mutate.py OUT.jsonl WORKERS PER_FILE [FILE-REGEX]  -- applies single syntactic changes to
copies of /repo (bind-mounted over /repo in a user namespace) and runs the anchored checks."""
import json, os, random, re, subprocess, sys, threading, queue, time
TC, CO, AT, HC, MP = "crates/tls-core/src/", "crates/core/src/", "crates/attestation/src/", "crates/harness/core/src/", "crates/mpc-tls/src/client/"
MAP = {
 TC+"msgs/deframer.rs": ["T01"], TC+"msgs/hsjoiner.rs": ["T02"], TC+"msgs/fragmenter.rs": ["T03"], TC+"msgs/message.rs": ["T04", "T01"],
 TC+"msgs/alert.rs": ["T04"], TC+"msgs/ccs.rs": ["T04"], TC+"msgs/base.rs": ["T05", "T04"], TC+"msgs/codec.rs": ["T08", "T05"],
 TC+"msgs/handshake.rs": ["T05", "T06", "T15"], TC+"msgs/enums.rs": ["T07"], TC+"msgs/macros.rs": ["T07"], TC+"prf.rs": ["T09"],
 TC+"handshake.rs": ["T10"], TC+"verify.rs": ["T13", "T12", "T11", "T10"], TC+"anchors.rs": ["T15", "T11"], TC+"cert.rs": ["T10"], TC+"ke.rs": ["T10"],
 TC+"suites/mod.rs": ["T14"], TC+"suites/tls12.rs": ["T14"], TC+"suites/tls13.rs": ["T14"], TC+"versions.rs": ["T14"], TC+"dns.rs": ["T15"],
 TC+"x509.rs": ["T15"], TC+"cipher.rs": ["T15"], TC+"key.rs": ["T05", "T15"],
 HC+"bench.rs": ["H01", "H03"], HC+"network.rs": ["H02"], HC+"lib.rs": ["H03"], HC+"rpc.rs": ["H03"], HC+"test.rs": ["H03"],
 "crates/server-fixture/server/src/lib.rs": ["F01"], "crates/tls-server-fixture/src/lib.rs": ["F03", "F02"], "crates/data-fixtures/src/http.rs": ["F04"],
 "crates/server-fixture/certs/src/lib.rs": ["F04"],
 CO+"transcript.rs": ["C01"], CO+"transcript/commit.rs": ["C02"], CO+"transcript/proof.rs": ["C03", "C04"], CO+"transcript/hash.rs": ["C03"], CO+"hash.rs": ["C05", "C03"],
 CO+"merkle.rs": ["C05"], CO+"connection.rs": ["C06", "C08", "C07"], CO+"webpki.rs": ["C06"], CO+"transcript/tls.rs": ["C07"], CO+"config/prove.rs": ["C02"],
 CO+"config/tls_commit/mpc.rs": ["C08"], CO+"config/tls.rs": ["C08"], CO+"config/verifier.rs": ["C08"], CO+"config/tls_commit/proxy.rs": ["C08"],
 AT+"lib.rs": ["D01", "D04", "D03"], AT+"serialize.rs": ["D01"], AT+"extension.rs": ["D02", "D01"], AT+"connection.rs": ["D05", "D04"], AT+"builder.rs": ["D02"], AT+"config.rs": ["D02"],
 AT+"request.rs": ["D03"], AT+"proof.rs": ["D04", "D03"], AT+"presentation.rs": ["D04"], AT+"request/builder.rs": ["D05"], AT+"request/config.rs": ["D05"], AT+"secrets.rs": ["D05"], AT+"signing.rs": ["D06"],
 AT+"provider.rs": ["D06"],
 MP+"mod.rs": ["E01"], MP+"conn.rs": ["E06", "E07", "E01", "E05"], MP+"hs.rs": ["E03", "E01", "E04"], MP+"tls12.rs": ["E01", "E02", "E03", "E05", "E08"],
 MP+"hash_hs.rs": ["E05", "E04", "E08"], MP+"config.rs": ["E03", "E08"], MP+"check.rs": ["E01"], MP+"vecbuf.rs": ["E07"], MP+"sign.rs": ["E08"],
}
for k, v in json.load(open(os.environ["MAPX"])).items() if os.environ.get("MAPX") else ():
    MAP[k] = v
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" && ", " || "), (r" \|\| ", " && "), (r"\bif !", "if "), (r"(?<![\w\]\"'])!(?=[a-z])(?!\[)", ""),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
       (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().take(4)"), (r"\.iter\(\)", ".iter().rev()"), (r"\.into_iter\(\)", ".into_iter().skip(1)"),
       (r"\.into_iter\(\)", ".into_iter().take(3)"), (r"\.find\(", ".rfind("), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"SHA256\b", "SHA384"), (r"SHA384\b", "SHA256"), (r"\bsent\b", "received"), (r"\breceived\b", "sent"), (r"\bstart\b", "end"), (r"\bend\b", "start"),
       (r"\bclient_", "server_"), (r"\bserver_", "client_"), (r"PayloadU8\b", "PayloadU16"), (r"PayloadU16\b", "PayloadU8"), (r"PayloadU24\b", "PayloadU16"),
       (r"\bu16::", "u8::"), (r"\.\.=", ".."), (r"\bSome\((\w+)\) =>", r"Some(\1) if false =>"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
       (r"\.is_empty\(\)", ".len() == 1"), (r"\.push_back\(", ".push_front("), (r"\.pop_front\(", ".pop_back("), (r"Ok\(\(\)\)", "Ok(Default::default())"),
       (r"\.extend_from_slice\((.*)\);", r".extend_from_slice(&(\1)[..0]);"), (r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1)),
       (r"(?<![\w.])([1-9]\d*)(?![\w.])", lambda m: str(int(m.group(1)) - 1)), (r"\breturn Err\(.*\);", ";"), (r"\breturn None;", ";"), (r"0x([0-9a-f]+)\b", lambda m: hex(int(m.group(1), 16) ^ 1)),
       (r"^(\s*)(self|[a-z_]+)(\.[a-z_]+)*\.[a-z_]+\(.*\);$", r"\1;"), (r"^(\s*)[a-z_.]+ [+-]?= .*;$", r"\1;")]


def code_lines(text):
    out, depth, skip = [], 0, None
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if skip is None and re.match(r"#\[(cfg\(test\)|test)\]", s):
            skip = -1
        if skip is not None:
            if skip == -1:
                if "{" in l:
                    skip, d0 = depth, depth
                elif s.endswith(";"):
                    skip = None
            depth += l.count("{") - l.count("}")
            if skip not in (None, -1) and depth <= skip and "}" in l:
                skip = None
            continue
        depth += l.count("{") - l.count("}")
        if s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "///")) or not s:
            continue
        out.append(i)
    return out


def mutants(f):
    text = open("/repo/" + f).read()
    ls = text.split("\n")
    res = []
    for i in code_lines(text):
        for pat, rep in OPS:
            for m in re.finditer(pat, ls[i]):
                new = ls[i][:m.start()] + m.expand(rep) * 1 + ls[i][m.end():] if isinstance(rep, str) else ls[i][:m.start()] + rep(m) + ls[i][m.end():]
                if new != ls[i]:
                    res.append((f, i, ls[i], new))
    return res


def main():
    out, workers, per = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
    rnd = random.Random(int(os.environ.get("SEED", "1")))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    q = []
    for f in MAP:
        if rx.search(f) and os.path.exists("/repo/" + f):
            ms = mutants(f); rnd.shuffle(ms)
            q += [m for m in ms[:per] if (m[0], m[1], m[3]) not in done]
    rnd.shuffle(q)
    print(len(q), "mutants", flush=True)
    Q = queue.Queue()
    for m in q:
        Q.put(m)
    lock = threading.Lock()

    def work(w):
        d = "/tmp/mw/%d" % w
        subprocess.run("mkdir -p %s; cp -a /repo %s/; mkdir -p %s/verif; cd /verif; tar --exclude=./work --exclude=./evidence --exclude=./.git --exclude=./seeded -cf - . | tar -xf - -C %s/verif" % (d, d, d, d), shell=True, check=True)
        while True:
            try:
                f, i, old, new = Q.get_nowait()
            except queue.Empty:
                return
            p = d + "/repo/" + f
            text = open(p).read(); ls = text.split("\n"); ls[i] = new
            open(p, "w").write("\n".join(ls))
            res, t0 = {}, time.time()
            for c in MAP[f]:
                r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && rm -rf work evidence && VERIF_SEED=1 VERIF_TIER=quick timeout 300 python3 run.py %s quick" % (d, d, c)],
                                   capture_output=True, text=True)
                res[c] = r.returncode
                if r.returncode != 0:
                    tail = (r.stdout + r.stderr)[-400:]
                    break
            else:
                tail = ""
            open(p, "w").write(text)
            with lock, open(out, "a") as o:
                o.write(json.dumps(dict(file=f, line=i, old=old, new=new, res=res, tail=tail, t=round(time.time() - t0))) + "\n")
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]


main()
