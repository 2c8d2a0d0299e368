"""Building the harness, running it, validating recorded histories with TLC, reporting."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1", TZ="UTC", HOME="/root",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")


class CheckError(Exception):
    """The check itself failed: neither 'held' nor 'violated'."""


def env(**kw):
    e = dict(os.environ)
    e.update(GOENV)
    e.update(kw)
    return e


# the zones the machine of a history may be set to: what the code says must not depend on it
ZONES = ("Asia/Taipei", "UTC", "America/St_Johns")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = random.Random("%s-%d-%s" % (prop, seed, tier))
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.evidence_dir = os.path.join(VERIF, "evidence")
        os.makedirs(self.evidence_dir, exist_ok=True)
        for f in os.listdir(self.evidence_dir):
            if f.startswith(prop + "."):
                os.unlink(os.path.join(self.evidence_dir, f))
        self.violations = []       # dicts
        self.known = []
        self.findings = load_findings()
        self.states = self.transitions = self.validated = 0
        self.model_states = self.model_transitions = 0
        self.events = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.bins = {}
        self.stats = []
        self.lock = threading.Lock()

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print("[%6.1fs]" % self.elapsed(), *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self):
        if "drive" in self.bins:
            return self.bins["drive"]
        import mkbig5, stdoverlay
        os.environ["PATH"] = GOENV["PATH"] + ":" + os.environ.get("PATH", "")
        hdir = os.path.join(self.scratch, "harness")
        shutil.copytree(os.path.join(VERIF, "harness"), hdir)
        ov = stdoverlay.generate(os.path.join(self.scratch, "ov"))
        out = os.path.join(self.scratch, "drive")
        p = subprocess.run(["go", "build", "-overlay", ov, "-o", out, "./drive"], cwd=hdir, env=env(),
                           capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("cannot build the harness against /repo:\n" + p.stdout + p.stderr)
        self.big5 = os.path.join(self.scratch, "big5.json")
        json.dump(mkbig5.table(), open(self.big5, "w"))
        self.bins["drive"] = out
        self.log("harness built")
        return out

    def build_cmd(self, pkg, name, tags=""):
        """A program of the repository itself, as it is."""
        if name in self.bins:
            return self.bins[name]
        out = os.path.join(self.scratch, "bin-" + name)
        mod = os.path.join(self.scratch, "gomod-" + name)
        os.makedirs(mod, exist_ok=True)
        shutil.copy(os.path.join(REPO, "go.mod"), os.path.join(mod, "go.mod"))
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(mod, "go.sum"))
        p = subprocess.run(["go", "build", "-modfile", os.path.join(mod, "go.mod"), "-o", out, pkg], cwd=REPO,
                           env=env(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("cannot build %s:\n%s" % (pkg, p.stdout + p.stderr))
        self.bins[name] = out
        return out

    # ------------------------------------------------------------------ driver
    def drive(self, scripts, procs=6, limit=600):
        """Run scripts on the real code; returns the recorded histories (a script of kind conc, crash
        or fault gives many)."""
        exe = self.build()
        scripts = [s for s in scripts if s.get("calls", s.get("clients"))]     # a history of nothing says nothing
        shards = [scripts[k::procs] for k in range(procs)]
        out, errs = [], []

        def worker(k, todo):
            try:
                self._drive_one(exe, k, todo, out, errs, limit)
            except Exception as e:      # noqa
                errs.append(e)
        th = [threading.Thread(target=worker, args=(k, s)) for k, s in enumerate(shards) if s]
        for t in th:
            t.start()
        for t in th:
            t.join()
        if errs:
            raise errs[0] if isinstance(errs[0], CheckError) else CheckError("driver: %r" % errs[0])
        order = {s["id"]: n for n, s in enumerate(scripts)}
        out.sort(key=lambda r: (order.get(r["id"].split("#")[0], 0), r["id"]))
        return out

    def _drive_one(self, exe, k, todo, out, errs, limit):
        died, hung = {}, 0
        byid = {s["id"]: s for s in todo}
        deadline = time.time() + limit
        while todo:
            sdir = tempfile.mkdtemp(prefix="d%d-" % k, dir=self.scratch)
            p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=env(VERIF_SCRATCH=sdir, VERIF_BIG5=self.big5, GOMAXPROCS="4", TZ=ZONES[k % len(ZONES)]),
                                 cwd=sdir)
            data = "".join(json.dumps(s) + "\n" for s in todo).encode()
            errbuf = []

            def feed():
                try:
                    p.stdin.write(data)
                    p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass

            def drain():
                errbuf.append(p.stderr.read())
            t1 = threading.Thread(target=feed)
            t2 = threading.Thread(target=drain)
            t1.start()
            t2.start()
            killer = threading.Timer(max(1, deadline - time.time()), p.kill)
            killer.start()
            cur, ended, started = None, False, []
            for line in p.stdout:
                try:
                    r = json.loads(line)
                except ValueError:
                    break
                if "start" in r:
                    cur = r["start"]
                    started.append(cur)
                elif "end" in r:
                    ended = True
                elif "stat" in r:
                    with self.lock:
                        self.stats.append(r)
                elif "herr" in r:
                    errs.append(CheckError("harness: " + r["herr"]))
                    ended = True
                else:
                    with self.lock:
                        out.append(r)
            p.wait()
            killer.cancel()
            t1.join()
            t2.join()
            shutil.rmtree(sdir, ignore_errors=True)
            if ended:
                return
            if time.time() > deadline:
                raise CheckError("driver ran out of time")
            msg = (errbuf[0] if errbuf else b"").decode("utf-8", "replace")
            if p.returncode == 9:       # an operation hung: recorded, continue with the rest
                hung += 1
                if hung >= 3:           # enough is known; the rest would take too long
                    self.log("operations hang, the rest of the histories is left out")
                    return
                todo = [s for s in todo if s["id"] not in started]
                continue
            if cur is None or "harness:" in msg[:3000]:
                raise CheckError("driver died: rc %s\n%s" % (p.returncode, msg[:3000]))
            died[cur] = died.get(cur, 0) + 1
            done = started[:-1]
            if died[cur] < 2:
                todo = [byid[cur]] + [s for s in todo if s["id"] not in started]
                continue
            if ("fatal error:" in msg or "panic:" in msg or "SIG" in msg) and "go-bbs" in msg:
                with self.lock:
                    out.append({"id": cur, "ev": [{"op": "died", "r": "died", "msg": msg[:2000]}]})
                todo = [s for s in todo if s["id"] not in started]
                continue
            raise CheckError("driver died twice on %s: rc %s\n%s" % (cur, p.returncode, msg[:3000]))

    # ------------------------------------------------------------------ TLC
    def tlc(self, spec, cfg=None, workers="8", extra=(), timeout=800, envs=None, heap="8g", simulate=None, files=()):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg", ".json")):
                shutil.copy(os.path.join(SPEC, f), d)
        for src, dst in files:
            shutil.copy(src, os.path.join(d, dst))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss128m", "-cp", TLA_CP, "tlc2.TLC",
               "-config", (cfg or spec + ".cfg"), "-workers", workers, "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE"] + list(extra) + [spec + ".tla"]
        e = env(**(envs or {}))
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC ran out of time on " + spec)
        finally:
            shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        o = p.stdout + p.stderr
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found", o, re.M)
        st = (int(m.group(2)), int(m.group(1))) if m else (0, 0)
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, o, st

    def model(self, spec, cfg=None, **kw):
        """Exhaustive check of a bounded model; a violation here is an error of the specification."""
        rc, o, st = self.tlc(spec, cfg, **kw)
        if rc != 0:
            raise CheckError("model %s (%s) does not hold or failed:\n%s" % (spec, cfg, o[-3000:]))
        self.model_states += st[0]
        self.model_transitions += st[1]
        self.extra.setdefault("models", []).append({"spec": spec, "cfg": cfg or spec + ".cfg",
                                                    "distinct_states": st[0], "generated": st[1]})
        self.log("model", spec, cfg or "", "states", st[0], "generated", st[1])
        return o

    def _accepted(self, spec, cfg, hist, debug=False, workers="8", timeout=800, consts=None):
        f = os.path.join(self.scratch, "trace-%d.ndjson" % random.randrange(1 << 40))
        with open(f, "w") as fh:
            for r in hist:
                fh.write(json.dumps({"id": r["id"], "ev": r["ev"]}) + "\n")
        envs = dict(TRACE=f, DBG="1" if debug else "0")
        envs.update(consts or {})
        rc, o, st = self.tlc(spec, cfg, envs=envs, workers=workers, timeout=timeout)
        os.unlink(f)
        acc = set(re.findall(r'<<"ACC", "([^"]*)">>', o))
        for i, d in re.findall(r'<<"DEV", "([^"]*)", "([^"]*)">>', o):
            if i in acc:
                continue
            # accepted except for a deviation, which counts only if it is listed
            k = [f for f in self.findings if f["status"] == "known" and f["property"] == self.prop and f.get("deviation") == d]
            if k:
                acc.add(i)
                if not debug:
                    self.known.append((k[0], d))
            else:
                self.log("deviation", d, "in", i, "is not a known finding")
        return rc, o, st, acc

    def validate(self, spec, hist, cfg=None, consts=None, batch=None, timeout=800):
        """Which histories does the specification not accept?"""
        rejected = []
        batch = batch or max(1, len(hist))
        for b in range(0, len(hist), batch):
            rejected += self._validate(spec, cfg, hist[b:b + batch], consts, timeout)
        self.validated += len(hist)
        for r in hist:
            self.events += len(r["ev"])
            self.distinct.add(hashlib.sha1(json.dumps(strip(r["ev"]), sort_keys=True).encode()).digest()[:8])
        return rejected

    def _validate(self, spec, cfg, hist, consts, timeout, depth=0):
        rc, o, st, acc = self._accepted(spec, cfg, hist, timeout=timeout, consts=consts)
        self.states += st[0]
        self.transitions += st[1]
        if rc == 0:
            return [r for r in hist if r["id"] not in acc]
        # the evaluation failed on something the specification has no value for: find which history
        left = [r for r in hist if r["id"] not in acc]
        self.log("TLC stopped at a history it could not evaluate; %d histories left" % len(left))
        if not re.search(r"Error:", o) or re.search(r"OutOfMemory|StackOverflow|parsing|Parsing or semantic|cannot find", o) and len(left) == len(hist) and depth == 0 and "Attempted" not in o and "evaluat" not in o:
            raise CheckError("TLC failed on %s:\n%s" % (spec, o[-3000:]))
        if len(left) == 1:
            left[0]["tlc"] = o[max(0, o.find("Error:")):][:1500]
            return left
        if depth > 12:
            raise CheckError("TLC keeps failing on %s:\n%s" % (spec, o[-3000:]))
        mid = (len(left) + 1) // 2
        bad = []
        for part in (left[:mid], left[mid:]):
            if len(bad) < 3 and part:
                bad += self._validate(spec, cfg, part, consts, timeout, depth + 1)
        return bad

    def explain(self, spec, r, cfg=None, consts=None):
        rc, o, st, acc = self._accepted(spec, cfg, [r], debug=True, workers="1", consts=consts)
        at = [int(x) for x in re.findall(r'<<"AT", (\d+)>>', o)]
        n = max(at) if at else 1
        k = max(o.rfind('<<"EXP", '), o.rfind('<< "EXP",'))
        exp = o[k:o.find("\n<<", k) if o.find("\n<<", k) > 0 else k + 6000][:6000] if k >= 0 else ""
        return n, exp

    def check(self, spec, hist, what, cfg=None, consts=None, batch=None, scripts=None, timeout=800):
        """Validate and report what is rejected."""
        t = time.time()
        bad = self.validate(spec, hist, cfg, consts, batch, timeout)
        self.log("%s: %d histories validated against %s in %.1fs, %d rejected" % (what, len(hist), spec, time.time() - t, len(bad)))
        if not self.samples and hist:
            self.samples.append({"what": what, "history": shorten(strip(hist[len(hist) // 2]))})
        byid = {s["id"]: s for s in scripts or []}
        for r in bad[:10]:
            n, o = self.explain(spec, r, cfg, consts)
            ev = r["ev"][n - 1] if n - 1 < len(r["ev"]) else (r["ev"][-1] if r["ev"] else {})
            self.violation(what, dict(spec=spec, cfg=cfg, history=r, rejected_at=n, event=ev,
                                      script=byid.get(r["id"].split("#")[0]), expected=re.sub(r"\s+", " ", o), tlc=r.pop("tlc", None)))
        if len(bad) > 10:
            self.log("... and %d more" % (len(bad) - 10))
        return bad

    # ------------------------------------------------------------------ verdict
    def violation(self, what, detail):
        for f in self.findings:
            if f["status"] == "known" and f["property"] == self.prop and finding_matches(f, detail):
                self.known.append((f, what))
                return
        self.violations.append(dict(what=what, **detail))

    def finish(self, level="model_checking", assumptions=None, coverage=None):
        for f in {json.dumps(f) for f, _ in self.known}:
            f = json.loads(f)
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        cov = dict(states=self.states + self.model_states, transitions=self.transitions + self.model_transitions,
                   traces_validated_against_impl=self.validated, events=self.events,
                   distinct_histories=len(self.distinct), model_states=self.model_states,
                   model_transitions=self.model_transitions, samples=self.samples[:3] or ["none"])
        if self.stats:
            tot = {}
            for r in self.stats:
                for k, v in r["stat"].items():
                    tot[k] = max(tot.get(k, 0), v) if k == "steps" else tot.get(k, 0) + int(v)
            tot["scenarios"] = len(self.stats)
            cov["explored"] = tot
        cov.update(self.extra)
        cov.update(coverage or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=assumptions or [], wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(self.evidence_dir, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for n, v in enumerate(self.violations[:5]):
            rp = os.path.join(self.evidence_dir, "%s.violation%d.json" % (self.prop, n))
            with open(rp, "w") as fh:
                json.dump(v, fh, indent=1)
            print("--- %s: rejected at event %s: %s" % (v["what"], v.get("rejected_at"),
                                                      json.dumps(v.get("event"))[:1500]))
            if v.get("expected"):
                print("    the specification allows:", v["expected"][:1500])
            if v.get("tlc"):
                print("    TLC:", v["tlc"][:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return 1 if self.violations else 0

    def cleanup(self):
        for root, dirs, _ in os.walk(self.scratch):
            for d in dirs:
                try:
                    os.chmod(os.path.join(root, d), 0o755)
                except OSError:
                    pass
        shutil.rmtree(self.scratch, ignore_errors=True)


def strip(o):
    """Without observations that differ from run to run."""
    if isinstance(o, dict):
        return {k: strip(v) for k, v in o.items() if k not in ("ls", "msg", "t0", "t1", "secs")}
    if isinstance(o, list):
        return [strip(x) for x in o]
    return o


def shorten(o, n=200):
    if isinstance(o, dict):
        return {k: shorten(v, n) for k, v in o.items()}
    if isinstance(o, list):
        return [shorten(x, n) for x in o[:12]]
    if isinstance(o, str) and len(o) > n:
        return o[:n] + "..."
    return o


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def finding_matches(f, detail):
    m = f.get("match") or {}
    ev = detail.get("event") or {}
    sc = detail.get("script") or {}
    src = dict(spec=detail.get("spec"), what=detail.get("what"))
    src.update({"ev." + k: v for k, v in ev.items()})
    src.update({"ev.e." + k: v for k, v in (ev.get("e") or {}).items() if isinstance(ev.get("e"), dict)})
    src.update({"opt." + k: v for k, v in (sc.get("opt") or {}).items()})
    return bool(m) and all(src.get(k) == v for k, v in m.items())
