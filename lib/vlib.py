"""Shared machinery of the checks: build a harness against /repo's current
tree, run TLC (model checking, behaviour generation, trace validation), and
turn the outcome into an exit status, a replay file and an evidence file."""
import resource
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check could not decide (never reported as a violation)."""


def cargo_env():
    e = dict(os.environ)
    e.update({
        "PATH": "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin",
        "HOME": "/root",
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "RUSTC_WRAPPER": "",
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never",
        "CARGO_INCREMENTAL": "0",
        "RUST_BACKTRACE": "0",
    })
    for k in ("CARGO_BUILD_TARGET_DIR", "CARGO_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", "%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(EVID, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "events_validated": 0,
                    "behaviours_from_model": 0, "random_runs": 0}
        self.runs_log = []
        self.samples = []
        self.violations = []     # (summary, replay dict)
        self.assumptions = []
        self.explored = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough else q

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- cargo
    def build(self, crate, bin=None):
        """Builds /verif/harness/<crate> and returns the path of its binary."""
        d = os.path.join(ROOT, "harness", crate)
        td = os.path.join(ROOT, "target", crate)
        if os.path.exists(os.path.join(d, "prepare.py")):
            subprocess.run([sys.executable, os.path.join(d, "prepare.py")], check=True)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--locked"], cwd=d,
                           env=dict(cargo_env(), CARGO_TARGET_DIR=td),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 and "--locked" in p.stdout:
            # /repo changed what a crate depends on: resolve anew, but leave the committed lock file alone.
            lock = os.path.join(d, "Cargo.lock")
            keep = open(lock, "rb").read()
            try:
                p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d,
                                   env=dict(cargo_env(), CARGO_TARGET_DIR=td),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            finally:
                open(lock, "wb").write(keep)
        if p.returncode != 0:
            raise ToolError("harness %s does not build:\n%s" % (crate, p.stdout[-4000:]))
        self.log("built harness", crate)
        return os.path.join(td, "debug", bin or ("h-" + crate))

    def harness(self, exe, args, out=None, timeout=600, stdin=None, env=None):
        """Runs a harness command. A crash (signal, timeout) of the code under
        test is returned as a status, it is not a tool error."""
        e = dict(os.environ)
        e["RUST_BACKTRACE"] = "0"
        e.update(env or {})
        try:
            p = subprocess.run([exe] + [str(a) for a in args], cwd=self.work, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout, input=stdin, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)))
        except subprocess.TimeoutExpired:
            return "timeout", ""
        if p.returncode == 0:
            return "ok", p.stdout
        if p.returncode == 3:
            raise ToolError("harness error: " + p.stderr[-3000:])
        return "crash %d: %s" % (p.returncode, p.stderr[-1500:]), p.stdout

    # ------------------------------------------------------------------ tlc
    def tlc(self, module, cfg, env=None, workers=8, args=(), timeout=800, heap="6g", deadlock=False, d=None):
        meta = os.path.join(self.work, "tlc-%s-%d" % (os.path.basename(cfg), len(self.runs_log)))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg]
        if not deadlock:
            cmd += ["-deadlock"]
        cmd += list(args) + [module]
        try:
            p = subprocess.run(cmd, cwd=d or SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        scn, rest = [], []
        for line in p.stdout.splitlines():
            (scn if line.startswith('"SCN ') else rest).append(line)
        out = "\n".join(rest)
        r = {"scn": scn, "out": out, "rc": p.returncode, "states": 0, "distinct": 0}
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?,? ?(?:with )?([\d,]+)? ?distinct", out)
        if m:
            r["states"] = int(m[-1][0].replace(",", ""))
            r["distinct"] = int((m[-1][1] or "0").replace(",", ""))
        self.runs_log.append({"module": module, "cfg": os.path.basename(cfg),
                              "states": r["states"], "distinct": r["distinct"]})
        return r

    def model_check(self, module, cfg=None, env=None, emit=None, **kw):
        """Exhaustively checks a model. A failing model is a fault of the
        machinery, never of the code. Returns behaviours printed by the model
        as SCN lines."""
        cfg = cfg or module + ".cfg"
        r = self.tlc(module, cfg, env=env, **kw)
        if r["rc"] != 0 or "Model checking completed. No error has been found." not in r["out"]:
            raise ToolError("model %s/%s failed:\n%s" % (module, cfg, r["out"][-4000:]))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]
        scn = []
        for line in r["scn"]:
            scn.append(json.loads(json.loads(line)[4:]))
        self.cov["behaviours_from_model"] += len(scn)
        self.log("model %s: %d states, %d distinct, %d behaviours" % (cfg, r["states"], r["distinct"], len(scn)))
        return scn

    def validate(self, module, trace, cfg=None, env=None, limit=25, _probe=False, **kw):
        """Validates recorded runs (one JSON array of events per line) against
        the trace specification; returns the list of rejections."""
        cfg = cfg or module + ".cfg"
        with open(trace) as f:
            runs = [json.loads(x) for x in f if x.strip()]
        if not runs:
            raise ToolError("empty trace for " + module)
        en = {"TRACE": trace}
        en.update(env or {})
        r = self.tlc(module, cfg, env=en, deadlock=True, **kw)
        out = r["out"]
        rej, expl = [], {}
        for line in out.splitlines():
            if line.startswith('"REJ '):
                j = json.loads(json.loads(line)[4:])
                rej.append((j["run"], j["l"]))
                expl[(j["run"], j["l"])] = {"expected": j["expected"], "got": j["got"]}
        if not rej and "Model checking completed. No error has been found." not in out:
            # An observation outside the vocabulary of the specification is as
            # wrong as one the specification refuses.
            shape = "states left on queue" in out and "Error: " in out and not re.search("OutOfMemory|StackOverflow|Parsing or semantic", out)
            if shape or "Attempted to check equality" in out or "Deadlock reached" in out:
                m = re.search(r"run = (\d+)", out[out.find("Error:"):])
                l = re.findall(r"/\\ l = (\d+)", out)
                rej.append((int(m.group(1)) if m else 1, int(l[-1]) if l else 1))
            else:
                raise ToolError("trace spec %s failed:\n%s" % (module, out[-5000:]))
        ev = sum(len(x) for x in runs)
        if not rej:
            # Every event of every run must have been consumed.
            want = ev + len(runs)
            if r["distinct"] != want:
                raise ToolError("trace spec %s consumed %d of %d states" % (module, r["distinct"], want))
        if not _probe:
            bad = {n for n, _ in rej}
            good = [x for n, x in enumerate(runs) if n + 1 not in bad]
            if good:
                self.control(module, good, trace, cfg, env, kw)
        else:
            return rej
        self.cov["traces_validated_against_impl"] += len(runs)
        self.cov["events_validated"] += ev
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]
        self.log("validated %d runs / %d events against %s: %d rejected" % (len(runs), ev, module, len(set(rej))))
        res = []
        for (run, l) in sorted(set(rej))[:limit]:
            evs = runs[run - 1] if 0 < run <= len(runs) else []
            res.append({"run": run, "event": l, "trace": evs[:l], "at": evs[l - 1] if 0 < l <= len(evs) else None,
                        "explanation": expl.get((run, l), out[-1500:])})
        return res

    def control(self, module, runs, trace, cfg, env, kw):
        """Negative control: a run whose last observation is falsified must be
        rejected, otherwise the trace specification decides nothing."""
        bad = None
        for i in sorted(range(len(runs)), key=lambda k: (len(runs[k]), k)):
            for j in range(len(runs[i]) - 1, -1, -1):
                o = json.loads(json.dumps([runs[i][j]["out"]]))
                if falsify(o):
                    bad = runs[i][:j] + [dict(runs[i][j], out=o[0])]
                    break
            if bad:
                break
        if not bad:
            raise ToolError("no observation to falsify for " + module)
        p = trace + ".neg"
        write_runs(p, [bad])
        if not self.validate(module, p, cfg=cfg, env=env, _probe=True, **kw):
            raise ToolError("trace spec %s accepts a falsified observation: %s" % (module, json.dumps(bad[-1])[:500]))

    # ------------------------------------------------------------ reporting
    def violation(self, summary, detail):
        self.violations.append((summary, detail))

    def reject(self, rejs, what):
        for r in rejs:
            self.violation("%s: event %s" % (what, json.dumps(r["at"])[:600]), r)

    def finish(self, level="model_checking"):
        known = load_known(self.prop)
        new, seen = [], []
        for s, d in self.violations:
            k = [x for x in known if x[0] in s or x[0] in json.dumps(d)]
            (seen if k else new).append((k[0][1] if k else s, d))
        for s in sorted(set(x for x, _ in seen)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, s), flush=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": dict(self.cov, tlc_runs=self.runs_log, samples=(self.samples or [{"events": self.cov["events_validated"]}])[:5],
                             explored=self.explored),
            "assumptions": self.assumptions or ["TLC 1.8 evaluates the specification correctly"],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if new:
            rp = os.path.join(EVID, "replay-%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "violations": [{"summary": s, "detail": d} for s, d in new[:int(os.environ.get("NREPLAY", 10))]]}, f, indent=1)
            for s, _ in new[:5]:
                print("  " + s[:900])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            return 1
        self.log("held; wall %.1fs" % (time.time() - self.t0))
        return 0


def falsify(o):
    """Changes one leaf of an observation, keeping its type."""
    ks = list(o) if isinstance(o, dict) else list(range(len(o) - 1, -1, -1))
    for k in ks:
        v = o[k]
        if isinstance(v, bool):
            o[k] = not v
        elif isinstance(v, int):
            o[k] = v + 1
        elif isinstance(v, str):
            o[k] = v + "?"
        elif v in ([], {}) or not isinstance(v, (list, dict)) or not falsify(v):
            continue
        return True
    return False


def load_known(prop):
    """known-findings.txt: `property=<id> match=<text in the failing event> :: <what fails>`"""
    p = os.path.join(ROOT, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def write_runs(path, runs):
    with open(path, "w") as f:
        for r in runs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
