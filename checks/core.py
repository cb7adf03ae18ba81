"""Checks of core and attestation."""
from . import check
from .tls import drive


@check("C01")
def transcript(ctx):
    ctx.explored = ["every operation sequence of length 2%s reaching a new partial transcript (4086 operations on 253 states)" % ctx.pick("", " (model: 3)"),
                    "seeded random histories of up to 12 operations on transcripts of up to 23 bytes"]
    scn = ctx.model_check("TranscriptMC", "TranscriptMC.cfg")
    if ctx.thorough:
        ctx.model_check("TranscriptMC", "TranscriptBig.cfg")
    drive(ctx, "core", "transcript", scn, ctx.pick(4000, 60000), "TranscriptTrace", "transcript")


@check("C02")
def configs(ctx):
    ctx.explored = ["every sequence of up to 2 commit operations and up to 3 proving operations of a small alphabet (4609)",
                    "seeded random sequences on transcripts of up to 19 bytes"]
    scn = ctx.model_check("DiscloseMC", "Disclose-config.cfg")
    drive(ctx, "core", "disclose", scn, ctx.pick(4000, 60000), "DiscloseTrace", "commit and prove configuration", extra=["config"])


@check("C03")
def proof_verify(ctx):
    ctx.explored = ["8 sets of commitments x up to 2 openings of 10 x 33 partial transcripts x 2 providers, near-honest part (17154)",
                    "seeded random proofs with one fault"]
    scn = ctx.model_check("DiscloseMC", "Disclose-proof.cfg")
    if not ctx.thorough:
        scn = scn[ctx.seed % 2::2]
    drive(ctx, "core", "disclose", scn, ctx.pick(8000, 120000), "DiscloseTrace", "transcript proof", extra=["proof"])


@check("C04")
def proof_build(ctx):
    ctx.explored = ["every set of 6 commitments, up to 2 reveals and 5 preference orders (35520, sampled in quick)",
                    "seeded random commitments and queries"]
    scn = ctx.model_check("DiscloseMC", "Disclose-build.cfg")
    if not ctx.thorough:
        scn = scn[ctx.seed % 4::4]
    drive(ctx, "core", "disclose", scn, ctx.pick(8000, 120000), "DiscloseTrace", "transcript proof builder", extra=["build"])


@check("C05")
def merkle(ctx):
    ctx.explored = ["every set of up to 3 leaves of trees of up to 6, every single wrong claim and tampering (15.7k)",
                    "hash values of every length to 130, every algorithm identifier", "seeded random trees of up to 23 leaves, hash inputs"]
    scn = ctx.model_check("MerkleMC", "MerkleMC.cfg")
    drive(ctx, "core", "merkle", scn, ctx.pick(4000, 60000), "MerkleTrace", "Merkle proof")


@check("C06")
def identity(ctx):
    ctx.explored = ["17 chain shapes x every single fault, 3 shapes x faults x 20 key exchange faults, real certificates (3805)",
                    "7 keys x 48 signatures x 11 declared algorithms%s" % ctx.pick(" (sampled)", " x 3 tamperings"), "captured sessions of two servers with 13 faults each",
                    "seeded random combinations of faults"]
    a = ctx.model_check("CoreIdMC", "CoreId-cchain.cfg")
    b = ctx.model_check("CoreIdMC", "CoreId-chs.cfg")
    drive(ctx, "core", "ident", a + b, ctx.pick(2000, 40000), "CoreIdTrace", "identity", suffix="-chain")
    drive(ctx, "core", "ident", None, 0, "CoreIdTrace", "identity", extra=[ctx.pick("algs", "algs-full")], suffix="-algs")


@check("C07")
def capture(ctx):
    ctx.explored = ["64 handshakes x every single fault, 3 versions, 3 groups, 14 schemes x 9 certificate lists, 192 combinations of supplied parts (9638)",
                    "seeded random combinations of faults, record sequences and splits"]
    scn = ctx.model_check("CaptureMC", "CaptureMC.cfg")
    if not ctx.thorough:
        scn = scn[ctx.seed % 4::4]
    drive(ctx, "core", "capture", scn, ctx.pick(1000, 30000), "CaptureTrace", "TLS transcript")


@check("C08")
def configs_and_types(ctx):
    ctx.explored = ["every combination of MPC settings around the limits, set once or twice, built and received (1.5k)", "every name of NamesMC, every content type, versions, groups, algorithms",
                    "seeded random sequences of settings, names"]
    scn = ctx.model_check("ConfigMC", "ConfigMC.cfg") + ctx.model_check("NamesMC", "NamesMC.cfg")
    drive(ctx, "core", "config", scn, ctx.pick(2000, 40000), "ConfigTrace", "configuration")


@check("D01")
def att_root(ctx):
    ctx.explored = ["bodies with every boundary value of every field, up to 4 extensions and 4 commitments (161)", "seeded random bodies"]
    scn = ctx.model_check("AttestMC", "Attest-root.cfg")
    drive(ctx, "core", "attest", scn, ctx.pick(300, 8000), "AttestTrace", "attestation root", extra=["root"])


@check("D02")
def att_notary(ctx):
    ctx.explored = ["supported x provided x requested algorithms, validators x extensions, settings (253)", "seeded random notaries and requests"]
    scn = ctx.model_check("AttestMC", "Attest-notary.cfg")
    drive(ctx, "core", "attest", scn, ctx.pick(1000, 20000), "AttestTrace", "notary", extra=["notary"])


@check("D03")
def att_validate(ctx):
    ctx.explored = ["every single change of the attestation received x 6 field layouts x 4 signature and 4 hash algorithms, other requests (10012)",
                    "every pair of changes of one, followed by re-rooting and re-signing (8840)", "seeded random sequences of changes"]
    a = ctx.model_check("AttestMC", "Attest-validate.cfg")
    b = ctx.model_check("AttestMC", "Attest-validate2.cfg")
    scn = a + b
    if not ctx.thorough:
        scn = scn[ctx.seed % 4::4]
    drive(ctx, "core", "attest", scn, ctx.pick(1000, 30000), "AttestTrace", "attestation received", extra=["validate"])


@check("D04")
def att_verify(ctx):
    ctx.explored = ["every single change of the presented attestation x 5 field layouts x 4 signature and 4 hash algorithms (5408), with good and bad identities and transcripts",
                    "every pair of changes of one (4973)", "seeded random sequences of changes"]
    a = ctx.model_check("AttestMC", "Attest-attack.cfg")
    b = ctx.model_check("AttestMC", "Attest-attack2.cfg")
    scn = a + b
    if not ctx.thorough:
        scn = scn[ctx.seed % 3::3]
    drive(ctx, "core", "attest", scn, ctx.pick(1000, 30000), "AttestTrace", "presentation", extra=["verify"])


@check("D05")
def att_open(ctx):
    ctx.explored = ["every boundary of every part of the handshake data and request, every absent part (165)", "every pair of 10 faults of an opening, 4 hash algorithms"]
    scn = ctx.model_check("AttestMC", "Attest-open.cfg")
    drive(ctx, "core", "attest", scn, 0, "AttestTrace", "certificate commitment", extra=["root"])


@check("D06")
def att_sign(ctx):
    ctx.explored = ["3 signers x 3 verifiers x 8 keys x 5 tamperings x 2 messages, secret keys, all algorithm identifiers (997)", "seeded random messages and tamperings"]
    scn = ctx.model_check("AttestMC", "Attest-sign.cfg")
    drive(ctx, "core", "attest", scn, ctx.pick(1500, 20000), "AttestTrace", "signature", extra=["sign"])
