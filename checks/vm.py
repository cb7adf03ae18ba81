"""Checks of MPC-TLS: both parties over an ideal two-party functionality."""
from . import check
from .tls import drive


def rl(ctx, families, nrandom, what):
    scn = []
    for f, k in families.items():
        s = ctx.model_check("RecordLayerMC", "RecordLayer-%s.cfg" % f)
        scn += s if ctx.thorough else s[ctx.seed % k::k]
    drive(ctx, "vm", "rl", scn, ctx.pick(nrandom, nrandom * 20), "RecordLayerTrace", what)


RANDOM = "seeded random runs of up to 14 operations of every kind, limits and record sizes up to 80 bytes, one record in three deviating"


@check("R01")
def seal(ctx):
    ctx.explored = ["every sequence of 4 of 8 sending operations (4096, quick: every third)", RANDOM]
    rl(ctx, {"enc": 3}, 800, "records sent")


@check("R02")
def limits(ctx):
    ctx.explored = ["every sequence of 4 of 9 operations at the limit, 4 sets of limits (26244, quick: every 16th)",
                    "pairs of bulk pushes around the buffer bound (200)",
                    "every sequence of 3 of 13 operations, some claiming lengths beyond every limit (2197)", RANDOM]
    rl(ctx, {"lim": 16, "many": 4, "huge": 1}, 800, "limits")


@check("R03")
def gate(ctx):
    ctx.explored = ["every sequence of 4 of 8 receiving operations (4096, quick: every third)", RANDOM]
    rl(ctx, {"dec": 3, "both": 16}, 800, "records received")


@check("R04")
def secret(ctx):
    ctx.explored = ["every pair of 61 ways of telling the parties of a record (3721, quick: half)",
                    "every sequence of 4 of 10 operations, sending and receiving (10000, quick: every 9th)", RANDOM]
    rl(ctx, {"told": 2, "both": 9}, 800, "what the parties see")


@check("R05")
def authentic(ctx):
    ctx.explored = ["every sequence of 3 of 26 operations: records of 3 types with 8 deviations, flushes (17576, quick: every 10th)", RANDOM]
    rl(ctx, {"how": 10}, 1500, "authenticity")


@check("R06")
def complete(ctx):
    ctx.explored = ["every sequence of 4 of 10 operations, sending and receiving (10000, quick: every 5th)", RANDOM]
    rl(ctx, {"both": 5}, 800, "the transcript")


SESSION = "seeded random sessions: full handshakes with steps missing, up to 14 records each way, all of it with both record limits and PRF modes"


def sess(ctx, families, nrandom, what):
    scn = []
    for f, k in families.items():
        if ctx.thorough:
            f = f.rstrip("3")
        s = ctx.model_check("SessionMC", "Session-%s.cfg" % f)
        scn += s[ctx.seed % k::k] if not ctx.thorough else s
    drive(ctx, "vm", "sess", scn, ctx.pick(nrandom, nrandom * 20), "SessionTrace", what)


@check("R07")
def closing(ctx):
    ctx.explored = ["every combination of hashes, first and last records each way (52488, quick: every 36th)", SESSION]
    sess(ctx, {"hs": 36}, 600, "closing")


@check("R08")
def phases(ctx):
    ctx.explored = ["every sequence of 3 of 22 calls from 5 stages of a session (53240, quick: every 36th)", SESSION]
    sess(ctx, {"life": 36}, 600, "the leader's phases")


@check("R09")
def transcripts(ctx):
    ctx.explored = ["every sequence of 3 (thorough: 4) of 12 operations on records, deferring or not (3456; 41472)", SESSION]
    sess(ctx, {"data3": 3}, 600, "transcripts")


@check("R10")
def follower(ctx):
    ctx.explored = ["every sequence of 3 of 11 messages from 4 stages of a session (5324, quick: every 4th)",
                    "every order of client random and 13 server hellos, both PRF modes (780)",
                    "every combination of hashes, first and last records each way, shown to the follower or not (48600, quick: every 48th)",
                    "every sequence of 3 of 16 messages about records (4096, quick: every 8th)",
                    "seeded random dialogues: a full handshake with messages missing, added and altered"]
    scn = []
    for f, k in {"order": 4, "hello": 1, "ends": 48, "data": 8}.items():
        s = ctx.model_check("FollowerMC", "Follower-%s.cfg" % f)
        scn += s if ctx.thorough else s[ctx.seed % k::k]
    drive(ctx, "vm", "rogue", scn, ctx.pick(800, 20000), "FollowerTrace", "the follower")


@check("R11")
def prf(ctx):
    ctx.explored = ["every order of a PRF's inputs with up to 2 (thorough: 3) rounds anywhere between, both network modes, three ways to the master secret (quick: every 6th)",
                    "every sequence of 4 (thorough: 5) of 11 calls, inputs once each (quick: every 20th)",
                    "seeded random orders of inputs, values, rounds, missing inputs and late calls"]
    scn = []
    for f, k in {"order": 6, "odd": 20}.items():
        s = ctx.model_check("MpcPrfMC", "MpcPrf-%s%s.cfg" % (f, ctx.pick("", "Big")))
        k = ctx.pick(k, k // 3 if f == "order" else k)
        scn += s[ctx.seed % k::k]
    drive(ctx, "vm", "prf", scn, ctx.pick(2000, 15000), "MpcPrfTrace", "the PRF")


@check("R12")
def exchange(ctx):
    ctx.explored = ["every sequence of 2 (thorough: 3) of 16 calls from 8 stages of a key exchange, none or one of 4 share conversions bent (quick: half)",
                    "seeded random exchanges with calls missing, added and repeated"]
    scn = ctx.model_check("KxMC", ctx.pick("KxMC.cfg", "KxMCBig.cfg"))
    drive(ctx, "vm", "kx", scn if ctx.thorough else scn[ctx.seed % 2::2], ctx.pick(1500, 20000), "KxTrace", "the key exchange")


@check("R13")
def counter(ctx):
    ctx.explored = ["every sequence of 4 (thorough: 5) operations on a cipher, fresh or keyed (quick: every 3rd)",
                    "seeded random programs of up to 14 operations over several streams"]
    scn = ctx.model_check("CtrMC", ctx.pick("CtrMC.cfg", "CtrMCBig.cfg"))
    drive(ctx, "vm", "ctr", scn if ctx.thorough else scn[ctx.seed % 3::3], ctx.pick(3000, 50000), "CtrTrace", "the cipher")


@check("R14")
def conf(ctx):
    ctx.explored = ["every combination of 8 sizes each for sent, received online and received, record counts, options, two orders of setting them (55296, quick: every 6th)",
                    "seeded random configurations, sizes up to 2^30, in random order"]
    scn = ctx.model_check("MpcConfMC")
    drive(ctx, "vm", "conf", scn if ctx.thorough else scn[ctx.seed % 6::6], ctx.pick(500, 5000), "MpcConfTrace", "the configuration")
