"""Shared machinery of the checks: building the harness against /repo, running
TLC (design checking, scenario generation, trace validation), replay files,
evidence."""
import glob, hashlib, json, os, random, re, resource, shutil, socket, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
SPEC = os.path.join(VERIF, "spec")


class CheckError(Exception):
    """The check could not decide (exit 2)."""


def jars():
    js = [os.path.join(TLA, "tla2tools.jar")]
    js += sorted(glob.glob(os.path.join(TLA, "*ommunity*deps*.jar"))) or sorted(glob.glob(os.path.join(TLA, "*ommunity*.jar")))
    return ":".join(js)


def disown(post):
    """A trace specification may stop at its first reason. What happened to the
    caller's memory must not hide what else happened, in a check it does not concern."""
    def f(traces):
        if post:
            post(traces)
        for t in traces:
            for e in t["ev"]:
                if e.get("mut"):
                    e["mut"] = False
    return f


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16))
        self.tmp = tempfile.mkdtemp(prefix="vf", dir="/tmp")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.scenarios = self.events = 0
        self.design = []       # design models checked on this run
        self.campaigns = []    # per campaign numbers
        self.samples = []
        self.broken = ""
        self.findings = []     # (scenario, trace, reasons)
        self.others = {}       # deviations that belong to other properties
        self.binary = None
        self.bisecting = False
        self.notes = []
        self.specs = os.path.join(self.tmp, "spec")
        shutil.copytree(SPEC, self.specs)

    @property
    def quick(self):
        return self.tier == "quick"

    def log(self, *a):
        msg = "[%6.1fs] %s" % (time.time() - self.t0, " ".join(str(x) for x in a))
        print(msg, flush=True)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ------------------------------------------------------------ building
    def build(self, race=False):
        """Build the harness against the working tree of /repo."""
        if self.binary and not race:
            return self.binary
        src = os.path.join(self.tmp, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            if REPO != "/repo":
                gm = os.path.join(src, "go.mod")
                s = open(gm).read().replace("=> /repo", "=> " + REPO)
                open(gm, "w").write(s)
        out = os.path.join(self.tmp, "h-race" if race else "h")
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
        env.pop("GOROOT", None)
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        p = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("the harness does not build against %s:\n%s" % (REPO, p.stderr[-4000:]))
        if not race:
            self.binary = out
        self.log("harness built" + (" (race)" if race else ""))
        return out

    def build_cmd(self, pkg):
        """Build a command of /repo."""
        out = os.path.join(self.tmp, os.path.basename(pkg))
        env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local")
        p = subprocess.run(["go", "build", "-o", out, pkg], cwd=REPO, env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("%s does not build:\n%s" % (pkg, p.stderr[-4000:]))
        return out

    def port_free(self, port):
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("", port))
            return True
        except OSError:
            return False
        finally:
            s.close()

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, workers=8, extra=(), env=None, timeout=800, heap="6g"):
        """Run TLC in its own directory; returns (returncode, output). `cfg`
        is text or a Model."""
        d = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        for f in glob.glob(os.path.join(self.specs, "*.tla")):
            os.symlink(f, os.path.join(d, os.path.basename(f)))
        if isinstance(cfg, Model):
            with open(os.path.join(d, "MC.tla"), "w") as f:
                f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n====\n" % (module, cfg.defs()))
            module, cfg = "MC", cfg.text()
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss16m", "-cp", jars(),
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-config", "M.cfg"] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s did not finish in %d s" % (module, timeout))
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return p.returncode, p.stdout

    @staticmethod
    def counts(out):
        m = None
        for m in re.finditer(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out):
            pass
        if m:
            return int(m.group(1)), int(m.group(2))
        m = None
        for m in re.finditer(r"(\d+) states checked", out):
            pass
        if m:
            return int(m.group(1)), int(m.group(1))
        return 0, 0

    def check_design(self, name, module, cfg, **kw):
        """Model check a design model: an error here is an error of the
        specification, not of the code."""
        rc, out = self.tlc(module, cfg, **kw)
        if rc != 0:
            raise CheckError("the design model %s fails:\n%s" % (name, tail(out)))
        g, d = self.counts(out)
        self.states += d
        self.transitions += g
        self.design.append({"model": name, "states": d, "transitions": g})
        self.log("design %s: %d distinct states, %d transitions" % (name, d, g))
        return out

    def mutants(self, name, module, mutants):
        """Each mutated design must violate a property: shows that the
        properties are not vacuous."""
        res = []
        lock = threading.Lock()

        def one(label, cfg):
            rc, out = self.tlc(module, cfg, workers=2, heap="2g")
            with lock:
                res.append((label, rc, out))
        ts = [threading.Thread(target=one, args=m) for m in mutants]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for label, rc, out in res:
            if rc not in (10, 11, 12, 13):
                raise CheckError("mutant %s of %s is not rejected (rc %d):\n%s" % (label, name, rc, tail(out)))
        self.design.append({"model": name + " mutants", "rejected": sorted(r[0] for r in res)})
        self.log("design %s: %d mutated designs rejected" % (name, len(res)))

    def generate(self, name, module, cfg, simulate=None, depth=None, seed=None):
        """Scenarios printed by a generator model (one per line: SCN json)."""
        extra = []
        if simulate:
            extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed if seed is not None else self.seed)]
        rc, out = self.tlc(module, cfg, workers=1, extra=extra)
        if rc != 0:
            raise CheckError("generator %s fails:\n%s" % (name, tail(out)))
        res, seen = [], set()
        for line in out.splitlines():
            if line.startswith('"SCN '):
                if line not in seen:
                    seen.add(line)
                    res.append(json.loads(json.loads(line)[4:]))
        g, d = self.counts(out)
        self.states += d
        self.transitions += g
        self.design.append({"model": "generator " + name, "states": d, "transitions": g, "scenarios": len(res)})
        self.log("generator %s: %d distinct states, %d transitions, %d scenarios" % (name, d, g, len(res)))
        if not res:
            raise CheckError("generator %s printed no scenario:\n%s" % (name, tail(out)))
        return res

    def sample(self, l, n):
        if len(l) <= n:
            return list(l)
        return self.rng.sample(l, n)

    # ------------------------------------------------------------ the real code
    def run(self, name, scenarios, mode="run", par=48, timeout=600, binary=None, env=None):
        """Run scenarios on the real code. Returns traces (list of dicts)."""
        d = tempfile.mkdtemp(prefix="r", dir=self.tmp)
        for i, s in enumerate(scenarios):
            s.setdefault("id", "%s-%05d" % (name, i))
            s.setdefault("seed", self.seed)
        with open(os.path.join(d, "in"), "w") as f:
            for s in scenarios:
                f.write(json.dumps(s) + "\n")
        sock = os.path.join(d, "s")
        os.mkdir(sock)
        cmd = [binary or self.build(), mode, "-in", os.path.join(d, "in"), "-out", os.path.join(d, "out"), "-dir", sock, "-par", str(par)]
        e = dict(os.environ)
        e.update(env or {})
        try:
            # memory the code can be made to allocate ends the harness, not the sandbox
            gb = 12 if mode in ("srv", "fuzz") else 20 if mode == "run" and binary is None else 0
            lim = (lambda: resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))) if gb else None
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, errors="replace", preexec_fn=lim)
        except subprocess.TimeoutExpired:
            raise CheckError("the harness did not finish campaign %s in %d s" % (name, timeout))
        self.last_stderr = p.stderr
        if p.returncode != 0:
            if repo_panic(p.stderr):
                if not self.bisecting:
                    self.crash(name, p.stderr, scenarios, mode, binary, env)
                return None if self.bisecting else []
            raise CheckError("the harness failed in campaign %s:\n%s" % (name, p.stderr[-3000:]))
        traces = []
        with open(os.path.join(d, "out")) as f:
            for line in f:
                traces.append(json.loads(line))
        shutil.rmtree(d, ignore_errors=True)
        return traces

    def crash(self, name, stderr, scenarios, mode, binary, env):
        """The process running the code under test died in that code. Look
        for a single scenario that does it."""
        self.bisecting = True
        cur, t0 = list(scenarios), time.time()
        try:
            while len(cur) > 1 and time.time() - t0 < 60:
                h = len(cur) // 2
                for half in (cur[:h], cur[h:]):
                    if self.run(name + "-half", [dict(s) for s in half], mode=mode, par=8, binary=binary, env=env) is None:
                        cur = half
                        stderr = self.last_stderr
                        break
                else:
                    break
        except CheckError:
            pass
        self.bisecting = False
        if len(cur) == 1:
            self.findings.append({"scenario": cur[0], "trace": {"stderr": stderr[-6000:]}, "reasons": ["crash"]})
            self.log("campaign %s: the process died inside the code under test" % name)
            return
        self.findings.append({"scenario": {"id": name, "note": "process died; campaign of %d scenarios" % len(scenarios)},
                              "trace": {"stderr": stderr[-6000:]}, "reasons": ["crash"]})
        self.log("campaign %s: the process died inside the code under test" % name)

    def validate(self, name, traces, module, extra_cfg="", chunks=None):
        """Check traces against a trace specification; returns
        {index: [reasons]} for the rejected ones. A specification that
        chooses prints END lines: a trace is accepted if one of its
        behaviours ends without a reason; otherwise the reason of the
        behaviour that got furthest counts."""
        if not traces:
            return {}
        n = len(traces)
        evs = sum(len(t["ev"]) for t in traces)
        if chunks is None:
            chunks = 1 if evs < 6000 else min(4, 1 + evs // 15000)
        bad = {}
        errs = []
        lock = threading.Lock()
        bounds = [(i * n // chunks, (i + 1) * n // chunks) for i in range(chunks)]

        def one(lo, hi):
            try:
                fd, path = tempfile.mkstemp(dir=self.tmp, suffix=".ndjson")
                with os.fdopen(fd, "w") as f:
                    for t in traces[lo:hi]:
                        f.write(json.dumps(t) + "\n")
                cfg = "INIT Init\nNEXT Next\nINVARIANT Report\n" + extra_cfg
                rc, out = self.tlc(module, cfg, workers=max(2, 8 // chunks), env={"TRACES": path}, heap="5g")
                os.unlink(path)
                if rc != 0:
                    raise CheckError("trace validation %s failed:\n%s" % (module, tail(out)))
                m = re.search(r"Finished computing initial states: (\d+) distinct", out)
                k = int(m.group(1)) if m else 0
                if k != hi - lo:
                    raise CheckError("trace validation of %s read %d of %d traces" % (name, k, hi - lo))
                g, d = self.counts(out)
                ends = {}
                for line in out.splitlines():
                    m = re.match(r'<<"END", (\d+), ".*?", "([^"]*)", (\d+)>>$', line)
                    if m:
                        i = int(m.group(1))
                        ends[i] = max(ends.get(i, (False, -1, "")), (m.group(2) == "", int(m.group(3)), m.group(2)))
                if '<<"END"' in out and len(ends) != hi - lo:
                    raise CheckError("trace validation of %s ended %d of %d traces" % (name, len(ends), hi - lo))
                with lock:
                    self.states += d
                    self.transitions += g
                    for i, (ok, at, why) in ends.items():
                        if not ok:
                            bad[lo + i - 1] = [{"l": at, "r": why}]
                    for line in bad_lines(out):
                        m = re.match(r'<<"BAD", (\d+), (".*?"), (".*")>>$', line)
                        if not m:
                            raise CheckError("cannot read: " + line)
                        rs = json.loads(json.loads(m.group(3)))
                        bad[lo + int(m.group(1)) - 1] = rs
            except CheckError as e:
                errs.append(e)
            except Exception as e:  # noqa
                errs.append(CheckError("validate: %r" % e))
        ts = [threading.Thread(target=one, args=b) for b in bounds if b[0] < b[1]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        self.traces += n
        self.events += evs
        return bad

    # ------------------------------------------------------------ a campaign
    def campaign(self, name, scenarios, module, mine, mode="run", timing=(), par=48, binary=None, extra_cfg="", env=None, post=None):
        """Run scenarios on the code, validate the traces, keep the
        deviations whose reason belongs to this property (`mine`, a
        predicate). Reasons in `timing` must show again on a second run."""
        how = {"module": module, "mode": mode, "extra_cfg": extra_cfg, "own": mine("mut")}
        if not mine("mut"):
            post = disown(post)
        for i, s in enumerate(scenarios):
            s.setdefault("id", "%s-%05d" % (name, i))
        t = time.time()
        traces = self.run(name, scenarios, mode=mode, par=par, binary=binary, env=env)
        if post:
            post(traces)
        tr = time.time()
        byid = {s["id"]: s for s in scenarios}
        bad = self.validate(name, traces, module, extra_cfg)
        self.scenarios += len(scenarios)
        self.campaigns.append({"campaign": name, "scenarios": len(scenarios), "traces": len(traces),
                               "events": sum(len(x["ev"]) for x in traces), "trace_spec": module, "rejected": len(bad)})
        self.log("campaign %s: %d scenarios run (%.1fs), %d traces validated (%.1fs), %d rejected"
                 % (name, len(scenarios), tr - t, len(traces), time.time() - tr, len(bad)))
        if len(self.samples) < 3 and traces:
            s = traces[len(traces) // 2]
            self.samples.append({"campaign": name, "scenario": byid.get(s["id"], {}), "events": s["ev"][:12]})
        again = {}
        kept = 0
        for i in sorted(bad):
            rs = bad[i]
            names = [r["r"] for r in rs]
            if "HARNESS" in names:
                self.broken = self.broken or "harness or emulator deviates from the specification in %s: %s\n%s" \
                    % (traces[i]["id"], rs, json.dumps(traces[i])[:4000])
                continue
            hit = [r for r in names if mine(r)]
            for r in names:
                if not mine(r):
                    self.others[r] = self.others.get(r, 0) + 1
            if not hit:
                continue
            if all(r in timing for r in hit):
                again[i] = hit
                continue
            kept += 1
            if len(self.findings) < 40:
                self.findings.append({"scenario": byid[traces[i]["id"]], "trace": traces[i], "reasons": names, "at": rs, "how": how})
        if again and not kept:
            self.confirm(name, [(byid[traces[i]["id"]], set(again[i])) for i in sorted(again)][:6], module, mode, binary, extra_cfg, mine, env, post, min(par, 4))
        return traces, bad

    def confirm(self, name, items, module, mode, binary, extra_cfg, mine, env, post, par):
        """Timing-dependent deviations count only if they show again, alone."""
        for attempt in range(3):
            scs = [dict(s) for s, _ in items]
            traces = self.run(name + "-again", scs, mode=mode, par=par, binary=binary, env=env)
            if post:
                post(traces)
            bad = self.validate(name, traces, module, extra_cfg)
            byid = {s["id"]: (s, r) for s, r in items}
            for i in sorted(bad):
                names = [r["r"] for r in bad[i]]
                s, r = byid[traces[i]["id"]]
                if r & set(names):
                    self.findings.append({"scenario": s, "trace": traces[i], "reasons": names, "at": bad[i],
                                          "how": {"module": module, "mode": mode, "extra_cfg": extra_cfg, "own": mine("mut")}})
            if self.findings:
                self.log("campaign %s: deviation confirmed on attempt %d" % (name, attempt + 1))
                return
        self.notes.append("%s: %d timing deviation(s) did not show again and were dropped: %s"
                          % (name, len(items), sorted(set().union(*[r for _, r in items]))))
        self.log(self.notes[-1])

    # ----------------------------------------------------------------- replay
    def replay(self, path):
        """Run the scenario of a replay file again and judge it."""
        with open(path) as f:
            rep = json.load(f)
        how = rep.get("how") or {"module": None, "mode": "run", "extra_cfg": ""}
        if not rep["scenario"].get("steps") and how["module"] is None and "conns" not in rep["scenario"]:
            raise CheckError("the replay file holds no scenario that can be run alone")
        for attempt in range(20):
            traces = self.run("replay", [dict(rep["scenario"])], mode=how["mode"], par=1)
            if self.findings:
                print(self.findings[0]["trace"]["stderr"])
                return 1
            if how["module"] is None:
                continue
            if not how.get("own", True):
                disown(None)(traces)
            for _, rs in self.validate("replay", traces, how["module"], how["extra_cfg"]).items():
                for r in rs:
                    print("deviation %s at event %s: %s" % (r["r"], r.get("l"), json.dumps(traces[0]["ev"][r["l"] - 1]) if r.get("l") else ""))
                if {r["r"] for r in rs} & set(rep["reasons"]):
                    return 1
        print("the deviation did not show in 20 runs")
        return 0

    # ------------------------------------------------------------ the verdict
    def finish(self, level="model_checking", assumptions=()):
        viol = len(self.findings)
        if self.broken and not viol:
            raise CheckError(self.broken)
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "scenarios_run": self.scenarios, "trace_events": self.events,
            "models": self.design, "campaigns": self.campaigns,
            "samples": self.samples[:3] or [{"note": "no trace was produced"}],
            "deviations_of_other_properties": self.others,
            "notes": self.notes,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": viol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        if viol:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            hist = {}
            for fd in self.findings:
                for r in fd["reasons"]:
                    hist[r] = hist.get(r, 0) + 1
            self.log("violations by reason:", json.dumps(hist))
            f0 = min(self.findings, key=lambda x: len(x["trace"].get("ev", [])) or 10**6)
            key = hashlib.sha1(json.dumps(f0["scenario"], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, key))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "reasons": f0["reasons"], "at": f0.get("at"), "how": f0.get("how"),
                           "scenario": f0["scenario"], "trace": f0["trace"]}, f, indent=1)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        self.log("property %s held on everything explored" % self.prop)
        return 0


def bad_lines(out):
    """TLC wraps nothing, but a value may be printed over several lines."""
    cur = None
    for line in out.splitlines():
        if line.startswith('<<"BAD"') or line.startswith('<< "BAD"'):
            cur = line.strip()
        elif cur is not None:
            cur += " " + line.strip()
        if cur is not None and cur.endswith(">>"):
            yield re.sub(r"^<<\s*", "<<", re.sub(r"\s*>>$", ">>", cur))
            cur = None


def tail(out, n=60):
    lines = [x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic proc", "Linting of", '"SCN', '<<"BAD"'))]
    return "\n".join(lines[-n:])


def repo_panic(stderr):
    """Did the process die in code of the repository under test?"""
    m = re.search(r"^(panic:|fatal error:)", stderr, re.M)
    if not m:
        return False
    first = stderr[m.start():].split("\n\ngoroutine ")
    body = "\n\ngoroutine ".join(first[:2])
    return "go.f110.dev/go-memcached/" in body


class Model:
    """A TLC configuration; constants may be any value."""

    def __init__(self, consts=None, init="Init", next_="Next", spec=None, view=None, inv=(), props=(), emit=None,
                 deadlock=False, constraint=None):
        self.__dict__.update(locals())

    def defs(self):
        return "\n".join("c_%s == %s" % (k, tval(v)) for k, v in (self.consts or {}).items())

    def text(self):
        s = "SPECIFICATION %s\n" % self.spec if self.spec else "INIT %s\nNEXT %s\n" % (self.init, self.next_)
        if self.consts:
            s += "CONSTANTS\n" + "".join("  %s <- c_%s\n" % (k, k) for k in self.consts)
        if self.view:
            s += "VIEW %s\n" % self.view
        for i in self.inv:
            s += "INVARIANT %s\n" % i
        for p in self.props:
            s += "PROPERTY %s\n" % p
        if self.emit:
            s += "ACTION_CONSTRAINT %s\n" % self.emit
        if self.constraint:
            s += "CONSTRAINT %s\n" % self.constraint
        return s + "CHECK_DEADLOCK %s\n" % ("TRUE" if self.deadlock else "FALSE")

    def quiet(self):
        """The same model without scenario output."""
        m = self.but()
        m.emit = None
        return m

    def but(self, **consts):
        m = Model.__new__(Model)
        m.__dict__.update(self.__dict__)
        m.consts = dict(self.consts or {}, **consts)
        return m


class Raw(str):
    """A TLA+ expression."""


def tval(x):
    if isinstance(x, Raw):
        return str(x)
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x) if x >= 0 else "(%d)" % x
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tval(v)) for k, v in x.items()) + "]"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(tval(v) for v in sorted(x, key=str)) + "}"
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tval(v) for v in x) + ">>"
    raise TypeError(x)


def tset(xs):
    return Raw("{" + ", ".join(tval(x) for x in xs) + "}")
