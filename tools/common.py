"""Shared parts of the checks: building, recording, running TLC, reporting."""
import json, os, re, subprocess, threading, time, queue, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 4))

class Fail(Exception):
    pass

def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:" + e.get("PATH", "")
    return e

def jnum(s):
    return int(s.replace(",", ""))

class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.states = self.transitions = self.traces = self.skipped = 0
        self.samples, self.violations, self.known_seen = [], [], []
        self.extra = {}
        self.lock = threading.Lock()
        self.quick = tier == "quick"
        self.tmpn = 0
        self.assumptions = []

    # ---- building -------------------------------------------------------
    def build(self):
        self.hv = os.path.join(self.work, "hv")
        p = subprocess.run(["go", "build", "-o", self.hv, "./cmd/hv"], cwd=HARNESS, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Fail("the harness does not build against /repo:\n" + p.stdout[-4000:])

    def build_cli(self):
        """The command-line program, with (HCLI) and without (HELENA) the harness."""
        for name, pkg, cwd in (("hcli", "./cmd/hcli", HARNESS), ("helena", ".", "/repo/src")):
            out = os.path.join(self.work, name)
            p = subprocess.run(["go", "build", "-o", out, pkg], cwd=cwd, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise Fail("the command-line program does not build:\n" + p.stdout[-4000:])
            os.environ[name.upper()] = out

    def tmp(self, name):
        with self.lock:
            self.tmpn += 1
            return os.path.join(self.work, "%d.%s" % (self.tmpn, name))

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, heap="3g", timeout=600, extra=()):
        """Runs TLC; returns its output. Raises Fail when it did not finish."""
        meta = self.tmp("meta")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
               "-cp", JAR, "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               *extra, module]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Fail("TLC timed out on %s" % module)
        finally:
            subprocess.run(["rm", "-rf", meta])
        out = p.stdout
        if "Model checking completed. No error has been found." not in out:
            open("/tmp/hv-tlc-failure.log", "w").write(out)
            raise Fail("TLC failed on %s:\n%s" % (module, tlc_error(out)))
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        with self.lock:
            if m:
                self.transitions += jnum(m.group(1))
                self.states += jnum(m.group(2))
        return out

    # ---- trace validation -------------------------------------------------
    def validate(self, lines, module="HTrace"):
        """Validates trace lines; returns the list of rejected (trace, what)."""
        if not lines:
            return []
        f = self.tmp("ndjson")
        with open(f, "w") as h:
            h.writelines(lines)
        out = self.tlc(module + ".tla", module + ".cfg", {"TRACES": f}, timeout=600)
        acc = set(re.findall(r'<<"ACCEPT", "([^"]+)">>', out))
        sk = set(re.findall(r'<<"SKIP", "([^"]+)">>', out))
        rej = {}
        for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]+)",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
            rej.setdefault(m.group(1), []).append((int(m.group(2)), m.group(3)))
        bad = []
        n = 0
        for l in lines:
            t = json.loads(l)
            n += 1
            if t["id"] in acc:
                continue
            if t["id"] in sk:
                continue
            w = max(rej.get(t["id"], [(0, "no behaviour of the specification")]))
            bad.append((l, t, w))
        with self.lock:
            self.traces += len(acc)
            self.skipped += len(sk - acc)
        os.unlink(f)
        return bad

    def record(self, profile, seed, frm, n, cmd="record"):
        f = self.tmp("ndjson")
        p = subprocess.run([self.hv, cmd, "-profile", profile, "-seed", str(seed), "-from", str(frm), "-n", str(n),
                            "-out", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise Fail("recording failed: " + p.stdout[-2000:])
        with open(f) as h:
            lines = h.readlines()
        os.unlink(f)
        return lines

    def report_trace(self, line, t, w):
        ev = t["ev"]
        i = w[0]
        got = ev[i - 1] if 0 < i <= len(ev) else (ev[-1] if i == 0 and ev else "end of the trace")
        d = {"property": self.prop, "profile": t.get("profile"), "seed": self.seed, "id": t["id"],
             "programs": t.get("texts"), "files": t.get("ftexts"), "observed": ev, "rejected_at": i,
             "observed_event": got, "specification": w[1], "trace": t}
        self.violation("trace-" + re.sub(r"[^A-Za-z0-9_.-]", "_", t["id"]), d,
                       "program %s: observed %s; the specification allows %s" % (
                           json.dumps(t["texts"])[:500], json.dumps(got)[:300], w[1][:300]))

    def report_syntax(self, what):
        """Reports rejected tokens (what = "tokens") or parses (what = "parse")."""
        def f(line, t, w):
            if (w[0] >= 1000000) != (what == "parse"):
                return
            src = bytes(t["src"]).decode("utf-8", "backslashreplace")
            got = t["r"] if what == "parse" else (t["tok"][w[0] - 1] if w[0] <= len(t["tok"]) else "no more tokens")
            self.violation("syntax-" + t["id"], {"property": self.prop, "source": src, "observed": got,
                           "specification": w[1], "trace": t},
                           "source %s: observed %s; the specification gives %s" % (
                               json.dumps(src), json.dumps(got)[:600], w[1][:600]))
        return f

    def report_wild(self, line, t, w):
        ev = t["ev"]
        e = ev[w[0] - 1] if 0 < w[0] <= len(ev) else ev[-1]
        done = sum(1 for x in ev[:max(0, w[0] - 1)] if x["k"] in ("call", "syntax", "budget"))
        src = t["texts"][min(done, len(t["texts"]) - 1)] if e["k"] not in ("hang", "died") else t["texts"]
        self.violation("wild-" + t["id"], {"property": self.prop, "sources": t["texts"], "observed": ev, "at": src, "trace": t},
                       "evaluating %s: observed %s; %s%s" % (json.dumps(src)[:600], json.dumps(e)[:400], w[1], " " + t.get("stderr", "")[:300]))

    def report_cli(self, line, t, w):
        self.violation("cli-" + t["id"], {"property": self.prop, "inputs": t["texts"], "files": t.get("ftexts"), "shown": t["outs"],
                       "rejected_at": w[0], "specification": w[1], "trace": t},
                       "%s %s: shows %s; the specification (at %d) allows %s" % (
                           t["mode"], json.dumps(t["texts"])[:600], json.dumps(t["outs"])[:600], w[0], w[1][:400]))

    def report_display(self, line, t, w):
        self.violation("display-" + t["id"], {"property": self.prop, "value": t["v"], "displayed": t.get("show"), "error": t["o"],
                       "read_back": t["back"], "specification": w[1], "trace": t},
                       "value %s is displayed as %s, which reads back as %s (%s); required: %s" % (
                           json.dumps(t["v"])[:400], t.get("show", "")[:300], json.dumps(t["back"])[:400], t["o"], w[1]))

    def report_native(self, line, t, w):
        e = t["ev"][w[0] - 1] if 0 < w[0] <= len(t["ev"]) else t["ev"][-1]
        txt = lambda v: json.dumps(bytes(v["b"]).decode("latin-1")) if v.get("t") == "s" else "#%d" % v["k"] if v.get("t") == "re" else json.dumps(v)
        self.violation("native-" + t["id"], {"property": self.prop, "calls": [[txt(a) for a in x["a"]] for x in t["ev"]], "files": t["files"], "rejected_at": w[0],
                       "observed": e, "specification": w[1], "trace": t},
                       "call %s gives %s %s and logs %s; the specification (at %d) allows %s" % (
                           " ".join(txt(a) for a in e["a"])[:400], e["r"]["c"], txt(e["r"]["v"])[:400], json.dumps(e["log"])[:200], w[0], w[1][:400]))

    def display_probes(self):
        lines = self.record("probe", 0, 0, 0, "display")
        for line, t, w in self.validate(lines, "HDisplayTrace"):
            self.finding(t["id"], "%s is displayed as %s: %s" % (t["id"], t.get("show"), t["o"] or json.dumps(t["back"])), t)

    def model(self, module, cfg=None, env=None, timeout=800, heap="6g", extra=()):
        """Model checks a specification on its own; an error there is a fault of the check."""
        s0 = self.states
        self.tlc(module + ".tla", cfg or module + ".cfg", env, workers=NCPU, heap=heap, timeout=timeout, extra=extra)
        self.extra.setdefault("models", {})[cfg or module] = self.states - s0

    def violation(self, name, data, what):
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, name + ".json")
        with open(f, "w") as h:
            json.dump(data, h, indent=1)
        with self.lock:
            self.violations.append({"replay": f, "what": what})

    def trace_part(self, plan, budget, chunk=150, cmd="record", module="HTrace", report=None):
        """plan: [(profile, count)]; validates recorded runs within a time budget."""
        report = report or self.report_trace
        q = queue.Queue()
        jobs = []
        for prof, n in plan:
            sd = self.seed * 1000 + (0 if self.quick else 500)
            for frm in range(0, n, chunk):
                jobs.append((frm / n, prof, sd, frm, min(chunk, n - frm)))
        jobs.sort()
        for j in jobs:
            q.put(j)
        t0 = time.time()
        errs, done = [], [0]
        stop = threading.Event()

        def work():
            while not stop.is_set():
                # at least one job of each profile is done whatever the time
                if time.time() - t0 > budget and done[0] >= len(plan):
                    return
                try:
                    _, prof, sd, frm, n = q.get_nowait()
                except queue.Empty:
                    return
                try:
                    lines = self.record(prof, sd, frm, n, cmd)
                    bad = self.validate(lines, module)
                    with self.lock:
                        done[0] += 1
                        if lines and len(self.samples) < 3:
                            t = json.loads(lines[0])
                            self.samples.append({"profile": prof, "program": t.get("texts") or t.get("src"), "observed": t.get("ev") or t.get("r")})
                    for line, t, w in bad:
                        if len(self.violations) >= 3:
                            break
                        kinds = {e.get("k") for e in t.get("ev", [])}
                        if kinds & {"hang", "died"}:
                            # has to happen again, alone
                            again = self.record(prof, sd, int(t["id"].split("-")[2]), 1, cmd)
                            for l2, t2, w2 in self.validate(again, module):
                                report(l2, t2, w2)
                        else:
                            report(line, t, w)
                    if len(self.violations) >= 3:
                        stop.set()
                except Exception as e:
                    errs.append(e)
                    stop.set()
        ths = [threading.Thread(target=work) for _ in range(NCPU)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs and not self.violations:
            raise errs[0] if isinstance(errs[0], Fail) else Fail(repr(errs[0]))

    def race_part(self, profile, n, chunk=60):
        """Records runs under Go's race detector; only races are judged here."""
        hv = self.hv
        race = os.path.join(self.work, "hvrace")
        e = go_env()
        e["CGO_ENABLED"] = "1"
        p = subprocess.run(["go", "build", "-race", "-o", race, "./cmd/hv"], cwd=HARNESS, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Fail("the harness does not build with -race:\n" + p.stdout[-4000:])
        os.environ["GORACE"] = "halt_on_error=1 exitcode=66"
        self.hv = race
        try:
            runs = 0
            for frm in range(0, n, chunk):
                for l in self.record(profile, self.seed * 1000 + 700, frm, min(chunk, n - frm)):
                    t = json.loads(l)
                    runs += 1
                    if "race" in t and len(self.violations) < 3:
                        self.violation("race-" + t["id"], {"property": self.prop, "programs": t["texts"], "report": t["race"], "trace": t},
                                       "data race while running separate interpreters in parallel: " + t["race"][:600])
            self.extra["runs_under_race_detector"] = runs
        finally:
            self.hv = hv

    # ---- sources that could end the process --------------------------------
    def known(self):
        """The findings listed for this property: {id: text}."""
        r = {}
        with open(os.path.join(VERIF, "known-findings.txt")) as h:
            for l in h:
                m = re.match(r"finding: property=(\S+) (\S+) (.*)", l)
                if m and m.group(1) == self.prop:
                    r[m.group(2)] = m.group(3)
        return r

    def finding(self, name, what, data):
        """A violation that is reported as known when it is listed."""
        k = self.known()
        if name in k:
            with self.lock:
                if not any(x.startswith(name + " ") for x in self.known_seen):
                    self.known_seen.append(name + " " + k[name])
        else:
            self.violation(name, data, what)

    def fatal_part(self, names):
        n = 0
        for name in names:
            p = subprocess.run([self.hv, "fatal", "-profile", name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            n += 1
            if not p.stdout.startswith("ended "):
                self.finding(name, "evaluating %s ended the process: %s" % (name, p.stdout[:300]), {"property": self.prop, "name": name, "observed": p.stdout[:2000]})
        self.extra["recursion_probes"] = n

    # ---- evidence -----------------------------------------------------------
    def evidence(self, level, wall):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6]}
        cov.update(self.extra)
        if self.skipped:
            cov["traces_not_judged"] = self.skipped
        with open(os.path.join(d, self.prop + ".json"), "w") as h:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                       "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}, h, indent=1)

def tlc_error(out):
    i = out.find("Error:")
    return out[i:i + 1500] if i >= 0 else out[-1500:]
