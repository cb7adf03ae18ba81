"""Checks of tls-core."""
import json, os
from . import check
from lib.vlib import write_runs


def dump(ctx, name, scn):
    p = os.path.join(ctx.work, name)
    write_runs(p, scn)
    return p


def drive(ctx, crate, cmd, scn, n, trace_module, what, extra=(), cfg=None, env=None, suffix="", henv=None):
    """Execute model behaviours + n random runs on the real code, validate."""
    exe = ctx.build(crate)
    tr = os.path.join(ctx.work, "trace%s.ndjson" % suffix)
    st, o = ctx.harness(exe, [cmd, dump(ctx, "scn%s.ndjson" % suffix, scn) if scn is not None else "-", ctx.seed, n, tr] + list(extra), env=henv)
    if st != "ok":
        ctx.violation("%s: run died: %s" % (what, st), {"status": st, "command": cmd})
        return None
    ctx.cov["random_runs"] += n
    if scn:
        ctx.samples.append(scn[len(scn) // 2])
    with open(tr) as f:
        ls = f.readlines()
        ctx.samples.append(json.loads(ls[-1])[:6])
    ctx.reject(ctx.validate(trace_module, tr, cfg=cfg, env=env), what)
    return tr


@check("T01")
def deframer(ctx):
    ctx.explored = ["every chunking of every stream of <=%d segments over 8 segment shapes (scaled sizes)" % ctx.pick(3, 4),
                    "boundary chunkings of 11 real-size streams, one run per model transition",
                    "seeded random streams and chunkings, sync and async"]
    ctx.model_check("DeframerMC", ctx.pick("DeframerMC.cfg", "DeframerMCBig.cfg"))
    scn = ctx.model_check("DeframerMC", "DeframerGen.cfg")
    drive(ctx, "tls", "deframer", scn, ctx.pick(1500, 30000), "DeframerTrace", "record deframer")


@check("T02")
def joiner(ctx):
    ctx.explored = ["every split of every stream of <=3 messages over 8 message shapes (scaled limit)",
                    "boundary splits of 10 real-size streams, one run per model transition",
                    "seeded random message streams and record splits"]
    ctx.model_check("JoinerMC", "JoinerMC.cfg")
    scn = ctx.model_check("JoinerMC", "JoinerGen.cfg")
    drive(ctx, "tls", "joiner", scn, ctx.pick(1500, 30000), "JoinerTrace", "handshake joiner")


@check("T03")
def fragmenter(ctx):
    ctx.explored = ["all configure/fragment sequences of length 3 at scaled sizes", "boundary sizes and lengths at real scale",
                    "seeded random sizes, lengths and reconfigurations"]
    ctx.model_check("FragmenterMC", "FragmenterMC.cfg")
    scn = ctx.model_check("FragmenterMC", "FragmenterGen.cfg")
    drive(ctx, "tls", "fragmenter", scn, ctx.pick(500, 8000), "FragmenterTrace", "message fragmenter")


@check("T04")
def record(ctx):
    ctx.explored = ["every combination of record header fields and available bytes from boundary sets",
                    "every payload of up to 5 bytes over a small alphabet for every content type and version",
                    "seeded random records, payloads, handshake messages and built messages"]
    scn = ctx.model_check("RecordMC", "RecordMC.cfg")
    drive(ctx, "tls", "record", scn, ctx.pick(6000, 80000), "RecordTrace", "record and payload")


@check("T05")
def handshake_codec(ctx):
    ctx.explored = ["every encoding differing from the default in one grammar component, per message type and version (1764)",
                    "mutations of each of these", "seeded random messages and mutations"]
    scn = ctx.model_check("WireMC", "WireMC.cfg")
    drive(ctx, "tls", "hs", scn, ctx.pick(15000, 250000), "WireTrace", "handshake codec")


@check("T06")
def handshake_queries(ctx):
    ctx.explored = ["queries on every grammar-derived message", "seeded random messages with repeated, unknown and reordered extensions",
                    "binder replacement on offers with a trailing pre-shared key"]
    scn = ctx.model_check("WireMC", "WireMC.cfg")
    drive(ctx, "tls", "hsq", scn, ctx.pick(25000, 300000), "WireTrace", "handshake queries")


@check("T07")
def enums(ctx):
    ctx.explored = ["every 8-bit and 16-bit value of all 22 registries (exhaustive)"]
    drive(ctx, "tls", "enums", None, 0, "EnumsTrace", "registry code points")


@check("T08")
def reader(ctx):
    ctx.explored = ["every operation sequence reaching a new cursor state over 8 buffers, depth 4", "seeded random buffers and sequences"]
    scn = ctx.model_check("ReaderMC", "ReaderMC.cfg")
    drive(ctx, "tls", "reader", scn, ctx.pick(6000, 80000), "ReaderTrace", "byte reader")


@check("T09")
def prf(ctx):
    ctx.explored = ["2800 combinations of boundary lengths of output, secret, label and seed", "seeded random lengths and contents"]
    scn = ctx.model_check("PrfMC", "PrfMC.cfg")
    if not ctx.thorough:
        scn = scn[ctx.seed % 4::4]
    drive(ctx, "tls", "prf", scn, ctx.pick(300, 6000), "PrfTrace", "PRF")


@check("T10")
def handshake_data(ctx):
    ctx.explored = ["3 chain shapes x every single fault x 24 key-exchange signatures, real certificates and keys (4584)",
                    "seeded random handshakes against a recording verifier"]
    scn = ctx.model_check("PkiMC", "PkiHs.cfg")
    drive(ctx, "tls", "pki", scn, ctx.pick(500, 20000), "PkiTrace", "handshake verification", suffix="-real")
    drive(ctx, "tls", "pkimock", None, ctx.pick(400, 8000), "PkiTrace", "handshake verification", suffix="-mock")


@check("T11")
def chains(ctx):
    ctx.explored = ["17 chain shapes x every single fault%s, real certificates" % ctx.pick("", " and pair of faults (42206)"),
                    "seeded random combinations of faults"]
    scn = ctx.model_check("PkiMC", ctx.pick("PkiChain.cfg", "PkiChainBig.cfg"))
    drive(ctx, "tls", "pki", scn, ctx.pick(3000, 60000), "PkiTrace", "certificate chain")


@check("T12")
def ct(ctx):
    ctx.explored = ["every list of up to 2 timestamps of 9 kinds (3 of 4 kinds) under every policy (2790), real timestamps",
                    "seeded random timestamps and policies"]
    scn = ctx.model_check("PkiMC", "PkiCt.cfg")
    drive(ctx, "tls", "pki", scn, ctx.pick(2000, 40000), "PkiTrace", "certificate transparency")


@check("T13")
def sigs(ctx):
    ctx.explored = ["6 keys x 45 signatures x 22 schemes x 3 functions x 4 tamperings%s" % ctx.pick(" (unrelated keys and tamperings sampled)", ""),
                    "TLS 1.3 CertificateVerify contents"]
    drive(ctx, "tls", "sigs", None, ctx.pick(0, 1), "PkiTrace", "handshake signature")


@check("T14")
def suites(ctx):
    ctx.explored = ["every ordered offer of up to 3 suites against every ordered support list (9325 cases)", "every 16-bit signature scheme below 0x1000 and a sample above",
                    "seeded random lists with repetitions"]
    scn = ctx.model_check("SuitesMC", "SuitesMC.cfg")
    drive(ctx, "tls", "suites", scn, ctx.pick(500, 10000), "SuitesTrace", "negotiation")


@check("T15")
def names(ctx):
    ctx.explored = ["every string of up to 4 characters of 7 classes, labels and names around the length limits (2825)",
                    "seeded random names, sequence numbers, lengths, session ids, subjects"]
    scn = ctx.model_check("NamesMC", "NamesMC.cfg")
    drive(ctx, "tls", "names", scn, ctx.pick(400, 8000), "NamesTrace", "names and helpers")
