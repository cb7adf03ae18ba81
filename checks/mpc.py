"""Checks of the prover's TLS client (mpc-tls)."""
from . import check
from .tls import drive


def conn(ctx, families, nrandom, what, stride=None):
    scn = []
    for f in families:
        s = ctx.model_check("ClientMC", "Client-%s.cfg" % f)
        k = (stride or {}).get(f, 1)
        scn += s if ctx.thorough else s[ctx.seed % k::k]
    drive(ctx, "mpc", "conn", scn, ctx.pick(nrandom, nrandom * 20), "ClientTrace", what)


RANDOM = "seeded random connections: random server parameters, chains, deviations, record splits, read sizes and application steps"


@check("E01")
def order(ctx):
    ctx.explored = ["every server message (27 kinds, malformed and empty ones included) at every point of 6 handshakes, with and without an earlier warning (1649)", RANDOM]
    conn(ctx, ["order"], 300, "handshake order")


@check("E02")
def auth(ctx):
    ctx.explored = ["10 chains x 2 suites x 14 signature schemes x 3 signers x 6 signed contents x groups, points and curve types, one or two deviations (593)", RANDOM]
    conn(ctx, ["auth"], 500, "authentication of the server")


@check("E03")
def hello(ctx):
    ctx.explored = ["42 configurations x 2 ways of writing; 22 sets of server extensions x 3 offers x suites; 10 suites x versions x compression (1062)", RANDOM]
    conn(ctx, ["hello"], 500, "hello exchange")


@check("E04")
def offer(ctx):
    ctx.explored = ["42 configurations x 2 ways of writing, 6 kinds of client x 2 fragment sizes x 42 certificate requests, 2 flights cut 27 ways", RANDOM]
    conn(ctx, ["hello", "cauth", "fin"], 500, "what the client sends", {"hello": 4, "cauth": 2, "fin": 3})


@check("E05")
def finished(ctx):
    ctx.explored = ["2 flights x 9 ways to cut and join their records x 3 ways to read them x 21 endings (600)", RANDOM]
    conn(ctx, ["fin"], 500, "completion of the handshake")


@check("E06")
def alerts(ctx):
    ctx.explored = ["5 levels x 6 descriptions at 4 stages, other unexpected records in traffic, x closing, notifying, reading, writing (1180)", RANDOM]
    conn(ctx, ["alert"], 500, "alerts and closing")


@check("E07")
def data(ctx):
    ctx.explored = ["every pair (thorough: 4) of 13 application and network steps after 3 ways to the handshake, 3 fragment sizes (2028)",
                    "back-pressure: 4 sizes around the limit, 3 steps, 4 starts%s" % ctx.pick(" (sampled)", ""), RANDOM]
    conn(ctx, ["data", "big"] + (["datadeep"] if ctx.thorough else []), 300, "application data", {"big": 8})


@check("E08")
def client_auth(ctx):
    ctx.explored = ["6 kinds of client x 21 lists of schemes x 2 suites x 2 fragment sizes (504)",
                    "5 keys x encodings x 4 entry points x 4 faults; every offer of two schemes (1113)", RANDOM, "seeded random offers and messages"]
    conn(ctx, ["cauth"], 300, "client authentication")
    k = ctx.model_check("KeysMC", "KeysMC.cfg")
    drive(ctx, "mpc", "sign", k, ctx.pick(2000, 40000), "KeysTrace", "client key", suffix="-keys")
