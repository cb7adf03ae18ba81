"""Checks of the tlsn crate: proving, over an ideal two-party functionality."""
from . import check
from .tls import drive


def prove(ctx, families, nrandom, what):
    scn = []
    for f, k in families.items():
        s = ctx.model_check("ProveMC", "Prove-%s.cfg" % f)
        scn += s if ctx.thorough else s[ctx.seed % k::k]
    drive(ctx, "e2e", "prove", scn, ctx.pick(nrandom, nrandom * 20), "ProveTrace", what)


RANDOM = "seeded random connections and up to 3 rounds on each: random ranges, commitments, algorithms, identities, answers; half of them lying"


@check("P01")
def sound(ctx):
    ctx.explored = ["6 disclosures x 4 sets of commitments x 26 falsified bytes, shown only or also proven about (624)",
                    "missing or extra transcripts, other lengths, other disclosed positions, commitments beyond the transcript (576)", RANDOM]
    prove(ctx, {"lies": 1, "odd": 1}, 500, "proofs that lie")


@check("P02")
def exact(ctx):
    ctx.explored = ["8 splits of the data into records x every set of disclosed and committed positions at record, block and transcript edges (8706, quick: every 9th)",
                    "every pair of 7 rounds on 4 connections (302)", RANDOM]
    prove(ctx, {"ranges": 9, "rounds": 1}, 500, "what a proof discloses")


@check("P03")
def identity(ctx):
    ctx.explored = ["9 ways of presenting the server's identity x asked or not x disclosure x answer x time, key and roots (576)", RANDOM]
    prove(ctx, {"ids": 1}, 500, "the server's identity")


@check("P04")
def tags(ctx):
    ctx.explored = ["every deviation of a record in one part (number, type, nonce, data, tag) at every type and edge length; pairs and triples trading parts",
                    "seeded random sets of up to 4 records"]
    scn = ctx.model_check("TagsMC", "TagsMC.cfg")
    drive(ctx, "e2e", "tags", scn, ctx.pick(1500, 40000), "TagsTrace", "proof of the tags")


@check("P05")
def dual(ctx):
    ctx.explored = ["every program of %d of 10 operations over 3 sets of inputs, honest, with each of 2 calls falsified at 2 bits, or proven about another input" % ctx.pick(3, 4),
                    "seeded random programs of up to 14 operations on parts of values, falsified calls and inputs, inputs never given"]
    scn = ctx.model_check("DeapMC", ctx.pick("DeapMC.cfg", "DeapMCBig.cfg"))
    drive(ctx, "e2e", "deap", scn if ctx.thorough else scn[ctx.seed % 3::3], ctx.pick(1500, 40000), "DeapTrace", "dual execution")


@check("P06")
def live(ctx):
    d = ctx.pick(2, 3)
    ctx.explored = ["every sequence of %d of 15 events after connecting: writes, sends, closes, drops, alerts, cuts, altered records, deferred decryption, parties leaving, in MPC, deferred MPC and proxy mode" % d,
                    "87 openings x 2 of 6 events: wrong certificates, versions, suites; the server leaving after, or altering, each of its first records; limits exceeded",
                    "every sequence of %d of 10 events before connecting" % d,
                    "seeded random sessions; everybody is polled in random order"]
    scn = []
    for f, k in {"order": 1, "odd": 2, "early": 1}.items():
        s = ctx.model_check("LiveMC", "Live-%s%s.cfg" % (f, "Big" if ctx.thorough and f != "odd" else ""))
        scn += s if ctx.thorough else s[ctx.seed % k::k]
    drive(ctx, "e2e", "live", scn, ctx.pick(1500, 60000), "LiveTrace", "a whole session")


@check("P07")
def proxy(ctx):
    ctx.explored = ["42 shapes of connection x each single deviation: certificate, suite, group, version, resumption, 13 deviations at each record, secret, view, server leaving after or altering each record (4122)",
                    "pairs of deviations (17288, quick: every 8th)", "seeded random connections with up to 2 deviations; everybody is polled in random order"]
    s = ctx.model_check("ProxyMC", "ProxyMCPairs.cfg")
    scn = ctx.model_check("ProxyMC", "ProxyMC.cfg") + (s if ctx.thorough else s[ctx.seed % 8::8])
    drive(ctx, "e2e", "proxy", scn, ctx.pick(2000, 60000), "ProxyTrace", "a proxied connection")
