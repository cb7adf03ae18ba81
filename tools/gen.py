#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R); sys.path.insert(0, os.path.join(R, "tools"))
import catalog, checks
claimed = set(checks.REGISTRY)
out = []
for p in catalog.P:
    n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
    assert n <= 3, (p["id"], n)
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), f
    a = {"files": p["files"], "mechanism": [{"name": m[0], "where": m[1]} for m in p["mech"]], "observe_at": [p["observe"]]}
    if p["state"]:
        a["state"] = [{"name": p["state"], "where": p["files"][0]}]
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a})
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
ids = [p["id"] for p in catalog.P]
assert len(set(ids)) == len(ids)
assert claimed <= set(ids), claimed - set(ids)
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
if getattr(catalog, "HOOKS", None):
    m["hooks"] = catalog.HOOKS
for p in catalog.P:
    if p["id"] in claimed:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                            "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                            "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check not built yet"})
m["notes"] = "See DESIGN.md. Every check: TLC model checking of spec/*.tla plus TLC trace validation of runs of the real code built from /repo."
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
import jsonschema
S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
jsonschema.validate(m, S("MANIFEST"))
for o in out:
    jsonschema.validate(o, S("PROPERTIES"))
for id in sorted(claimed):
    e = os.path.join(R, "evidence", id + ".json")
    if os.path.exists(e):
        jsonschema.validate(json.load(open(e)), S("EVIDENCE"))
print(len(ids), "properties,", len(m["checks"]), "claimed")

# ------------------------------------------------------------------ DESIGN.md
import inspect, glob


def modules(id):
    src = inspect.getsource(checks.REGISTRY[id])
    mods = re.findall(r'"(\w+(?:MC|MCBig|Trace))"', src)
    cfgs = re.findall(r'"([\w-]+)\.cfg"', src)
    seen = []
    for m in mods + cfgs:
        if m not in seen:
            seen.append(m)
    return ", ".join("`%s`" % m for m in seen)


T = open(os.path.join(R, "tools/design.md")).read()
rows = []
for p in catalog.P:
    if p["id"] not in claimed:
        continue
    rows.append("**%s. %s**  \n*How:* %s. *Specification:* %s  \n*Bounds:* %s  \n*Why tests cannot:* %s\n" %
                (p["id"], p["title"], p["tech"].rstrip(". "), modules(p["id"]) or "see `checks/`", p["note"], p["why"]))
na = ["* **%s. %s**: %s" % (p["id"], p["title"], p["na"]) for p in catalog.P if p["id"] not in claimed]
fx = ["* " + l[len("fixed: property="):].strip() for l in open(os.path.join(R, "known-findings.txt")) if l.startswith("fixed:")]
cb = json.load(open(os.path.join(R, "tools/caught.json")))
sd = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    m, id = json.load(open(d)), os.path.basename(os.path.dirname(d))
    sd.append("| %s | %s | %s | %s |" % (id, m["property"], m["needs"], cb.get(id, "not yet tried")))
for k, v in (("COUNT", str(len(rows))), ("TABLE", "\n".join(rows)), ("NA", "\n".join(na) or "Every listed property is claimed."),
             ("FIXES", "\n".join(fx)), ("SEEDED", "\n".join(sd)), ("MUTATION", open(os.path.join(R, "tools/mutation.md")).read().strip())):
    T = T.replace("{{%s}}" % k, v)
with open(os.path.join(R, "DESIGN.md"), "w") as f:
    f.write(T)
