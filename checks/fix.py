"""Checks of the test harness core and the server fixtures."""
from . import check
from .tls import drive


@check("H01")
def bench(ctx):
    ctx.explored = ["every field x item/group/default x sample source, repeated and undefined groups, orders of up to 3 items", "seeded random benchmark files"]
    scn = ctx.model_check("HarnMC", "Harn-bench.cfg")
    if not ctx.thorough:
        scn = scn[ctx.seed % 3::3]
    drive(ctx, "fix", "harn", scn, ctx.pick(1500, 40000), "HarnTrace", "benchmark expansion", extra=["bench"])


@check("H02")
def network(ctx):
    ctx.explored = ["every prefix length of 5 networks", "seeded random subnets"]
    scn = ctx.model_check("HarnMC", "Harn-net.cfg")
    drive(ctx, "fix", "harn", scn, ctx.pick(4000, 60000), "HarnTrace", "network plan", extra=["net"])


@check("H03")
def misc(ctx):
    ctx.explored = ["IO modes, command outputs, statuses, one perturbation per field of a measurement", "seeded random commands, outputs, configurations through JSON"]
    scn = ctx.model_check("HarnMC", "Harn-misc.cfg")
    drive(ctx, "fix", "harn", scn, ctx.pick(1500, 40000), "HarnTrace", "harness protocol", extra=["mode,meas,wire"])


@check("F01")
def server(ctx):
    ctx.explored = ["every route x method x TLS version x client certificate, every size form, credential and shutdown (about 500 connections)", "seeded random requests over real TLS connections"]
    scn = ctx.model_check("HttpMC", "Http-get.cfg")
    drive(ctx, "fix", "http", scn, ctx.pick(300, 6000), "HttpTrace", "server fixture")


@check("F02")
def echo(ctx):
    ctx.explored = ["every route x body x chunking, every sequence of 3 requests of 8 kinds on one connection", "seeded random request sequences"]
    scn = ctx.model_check("HttpMC", "Http-echo.cfg")
    drive(ctx, "fix", "echo", scn, ctx.pick(150, 4000), "HttpTrace", "echo server")


@check("F03")
def commands(ctx):
    ctx.explored = ["every sequence of up to 3 commands with every closing command, TLS 1.2 and 1.3, whole and cut records (virtual time)", "seeded random command sequences, paddings and splits"]
    scn = ctx.model_check("HttpMC", "Http-conn.cfg")
    drive(ctx, "fix", "raw", scn, ctx.pick(150, 4000), "HttpTrace", "command server")


@check("F04")
def data(ctx):
    ctx.explored = ["every message and certificate fixture (exhaustive)"]
    drive(ctx, "fix", "data", None, 0, "HttpTrace", "fixtures")
