"""Shared machinery of the checks: building, generating traces, running TLC,
reading verdicts, writing evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HARNESS = os.path.join(BUILD, "harness")
RACING = os.path.join(BUILD, "harness-race")     # with Go's race detector


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(PATH="/usr/lib/go-1.22/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", ""),
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", CGO_ENABLED="1", TZ="UTC")
    e.setdefault("HOME", "/root")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def build():
    os.makedirs(os.path.join(BUILD, "cls"), exist_ok=True)
    src = os.path.join(VERIF, "java", "Num.java")
    cls = os.path.join(BUILD, "cls", "Num.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        r = subprocess.run(["javac", "-cp", JARS, "-d", os.path.join(BUILD, "cls"), src], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac: " + r.stderr)
    compile_harness(HARNESS)


def compile_harness(to, *flags):
    src = os.path.join(VERIF, "harness")
    r = subprocess.run(["go", "build", "-mod=readonly", *flags, "-o", to, "."], cwd=src, env=goenv(), capture_output=True, text=True)
    if r.returncode:
        raise CheckError("the harness does not build against /repo:\n" + r.stderr[-4000:])


class Check:
    """One run of the check of one property."""

    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.model_states = 0
        self.distinct = set()
        self.samples, self.violations, self.notes = [], [], []
        self.kinds = {}
        self.parts = []
        self.exhaustive = []
        self.dir = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.n = 0

    def left(self):
        return (600 if self.thorough else 120) - (time.time() - self.t0)

    def path(self, name):
        return os.path.join(self.dir, name)

    # -- violations --------------------------------------------------------
    def violation(self, what, replay):
        """what: short text; replay: JSON-able reproduction."""
        f = self.path("violation-%d.json" % (len(self.violations) + 1))
        with open(f, "w") as o:
            json.dump({"property": self.pid, "what": what, "replay": replay}, o, indent=1)
        self.violations.append((what, f))

    # -- harness -----------------------------------------------------------
    def harness(self, *args, timeout=600, binary=HARNESS):
        """Run the harness; a crash of the code under test is a violation."""
        r = subprocess.run([binary, *map(str, args)], capture_output=True, text=True, timeout=timeout, cwd=self.dir,
                           env=dict(goenv(), GORACE="halt_on_error=1 exitcode=66"))
        if r.returncode:
            if r.returncode == 66 and "DATA RACE" in r.stderr and "/repo/" in r.stderr:
                self.violation("two calls in flight conflict", {"args": list(map(str, args)), "stderr": r.stderr[-6000:]})
                return None
            if r.returncode == 3 and "HANGS:" in r.stderr:
                self.violation("calls of the code under test do not return", {"args": list(map(str, args)), "stderr": r.stderr[-6000:]})
                return None
            if "/repo/" in r.stderr and ("panic" in r.stderr or "fatal error" in r.stderr):
                self.violation("the code under test crashed the process", {"args": list(map(str, args)), "stderr": r.stderr[-6000:]})
                return None
            raise CheckError("harness %s: exit %d\n%s" % (args[0], r.returncode, r.stderr[-3000:]))
        return r.stdout.strip()

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, args=(), timeout=850, workers=8):
        """Run TLC; returns (output, generated, distinct)."""
        self.n += 1
        meta = self.path("tlc-%d" % self.n)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx12g",
               "-Dtlc2.overrides.TLCOverrides=Num:tlc2.overrides.TLCOverrides",
               "-cp", os.path.join(BUILD, "cls") + ":" + JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *args,
               "-config", cfg or module + ".cfg", module + ".tla"]
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m2:
                gen = dist = int(m2[-1].replace(",", ""))
        self.states += dist
        self.transitions += gen
        return r.returncode, out, gen, dist

    def tlc_model(self, module, cfg=None, env=None, args=(), timeout=850, workers=8):
        """A design run that must succeed: the specification's own invariants."""
        rc, out, gen, dist = self.tlc(module, cfg, env, args, timeout, workers)
        if rc != 0:
            raise CheckError("specification %s does not satisfy its invariants or does not run:\n%s" % (module, clean(out)[-3000:]))
        self.model_states += dist
        return out, gen, dist

    # -- trace validation --------------------------------------------------
    def validate(self, trace_file, module="TraceIndicators", env=None, cfg=None):
        """Check recorded executions against the specification.  Returns the number rejected."""
        traces = []
        with open(trace_file) as f:
            for l in f:
                traces.append(l)
        bad = 0
        CH = 20000
        for a in range(0, len(traces), CH):
            part = traces[a:a + CH]
            f = trace_file
            if len(traces) > CH:
                f = self.path("chunk.json")
                with open(f, "w") as o:
                    o.writelines(part)
            rc, out, gen, dist = self.tlc(module, cfg, dict(env or {}, TRACE_FILE=f))
            recs = {}
            for l in part:
                t = json.loads(l)
                recs[t["id"]] = t
            done = set(int(x) for x in re.findall(r'<<\s*"DONE",\s*(\d+)\s*>>', out))
            self.traces += sum(len(recs[i].get("runs", [0])) + len(recs[i].get("lists", [])) for i in done & set(recs))
            rej = {}
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),(.*?)(?=\n<<\s*"(?:REJECT|DONE)"|\nModel checking|\nProgress|\nFinished|\nError|\Z)', out, re.S):
                rej.setdefault(int(m.group(1)), (int(m.group(2)), " ".join(m.group(3).split())[:1500]))
            fatal = rc not in (0,) and "Error:" in out
            missing = [i for i in recs if i not in done]
            if fatal:
                # an execution the specification cannot even interpret
                m = re.findall(r"tid = (\d+)", out)
                if not m:
                    raise CheckError("TLC failed:\n" + clean(out)[-3000:])
                i = json.loads(part[int(m[-1]) - 1])["id"]
                rej[i] = (-1, "not interpretable: " + " ".join(clean(out).split())[:1500])
                missing = [i]
            for i in missing:
                if not fatal and i not in rej:
                    raise CheckError("trace %d has no verdict:\n%s" % (i, clean(out)[-2000:]))
                bad += 1
                t = recs[i]
                if len(self.violations) < 5:
                    at, info = rej[i]
                    self.violation("%s %s: rejected at step %s: %s" % (t.get("kind", module), json.dumps(t.get("p", "")), at, info[:300]),
                                   {"trace": t, "step": at, "expected": info})
            for t in recs.values():
                k = t.get("kind", module)
                self.kinds[k] = self.kinds.get(k, 0) + 1
                key = hashlib.sha1(json.dumps({x: y for x, y in t.items() if x != "id"}, sort_keys=True).encode()).digest()
                self.distinct.add(key)
            if part and len(self.samples) < 3:
                t = json.loads(part[len(part) // 2])
                self.samples.append(shorten(t))
        return bad

    # -- the end -----------------------------------------------------------
    def finish(self, assumptions, extra=None):
        known = [l.split()[1:] for l in open(os.path.join(VERIF, "known_findings.txt")) if l.startswith("known:")] \
            if os.path.exists(os.path.join(VERIF, "known_findings.txt")) else []
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "distinct_executions": len(self.distinct),
               "states_of_design_models": self.model_states,
               "executions_by_kind": dict(sorted(self.kinds.items())),
               "parts": self.parts, "samples": self.samples or ["(none)"]}
        if self.exhaustive:
            cov["exhaustive_parts"] = self.exhaustive
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for w, f in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, f))
            print("  " + w[:600])
        if not self.violations:
            # keep the disk small: the inputs are reproducible from the seed
            shutil.rmtree(self.dir, ignore_errors=True)
            print("OK property=%s tier=%s seed=%d states=%d executions validated=%d wall=%.1fs"
                  % (self.pid, self.tier, self.seed, self.states, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0


def clean(out):
    return "\n".join(l for l in out.split("\n") if not re.match(r"(Parsing|Semantic|Linting|<< ?\"|Computed|Progress)", l))


def shorten(t, n=12):
    if isinstance(t, list):
        return [shorten(x) for x in t[:n]] + (["... %d more" % (len(t) - n)] if len(t) > n else [])
    if isinstance(t, dict):
        return {k: shorten(v) for k, v in t.items()}
    return t


def printed(out, tag):
    """The tuples <<tag, <<...>>>> of integers TLC printed, in order."""
    return [[int(x) for x in re.findall(r"-?\d+", m)] for m in re.findall(r'<<\s*"%s",\s*<<([\d,\s-]*)>>\s*>>' % tag, out)]
