"""Shared machinery of the checks: building the driver, running TLC, verdicts, evidence."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.27.3"
LIMIT = 840  # seconds a quick run may take
JAR = "/opt/veriftools/tla/tla2tools.jar"


class Broken(Exception):
    """The machinery could not give an answer (exit code 2, never a violation)."""


def goenv():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME") or "/root", GOROOT=GOROOT, GOTOOLCHAIN="local", GOFLAGS="-mod=vendor", GOPROXY="off",
             PATH=GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin"))
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


class Run:
    """One run of a check: scratch space, driver binary, counters, findings."""

    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        if base and shutil.disk_usage(base).free < 2 << 30:
            base = None
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower(), dir=base)
        self.work = os.path.join(self.scratch, "work")
        os.mkdir(self.work)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.mismatches = []       # for this property
        self.other = {}            # for other properties: count
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.log = []
        self._driver = {}

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def note(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, msg), flush=True)

    # ---- driver ------------------------------------------------------------
    def driver(self, hooked=False, race=False):
        key = (hooked, race)
        if key in self._driver:
            return self._driver[key]
        hdir = os.path.join(VERIF, "harness")
        rep = {}
        for f in sorted(os.listdir(hdir)):
            if f.endswith(".go"):
                rep[os.path.join(REPO, "zz_verifdriver", f)] = os.path.join(hdir, f)
        if hooked:
            import hookgen
            rep.update(hookgen.overlay(os.path.join(self.scratch, "hook"), GOROOT))
        else:
            # the hooked files need the hooked standard library
            rep = {k: v for k, v in rep.items() if not k.endswith("_hooked.go")}
        ov = os.path.join(self.scratch, "overlay%d.json" % len(self._driver))
        with open(ov, "w") as fh:
            json.dump({"Replace": rep}, fh)
        out = os.path.join(self.scratch, "driver%d" % len(self._driver))
        cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./zz_verifdriver"]
        p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken("the driver does not build:\n" + p.stdout[-4000:])
        self.note("driver built%s" % (" with hooked file operations" if hooked else ""))
        self._driver[key] = out
        return out

    def left(self, timeout):
        """The time a step may take: what is left of the run, unless it is a thorough one. Nothing more is explored once there is a violation."""
        if self.live():
            raise Broken("a violation was found; the rest was not explored")
        return timeout if self.thorough() else max(20, min(timeout, LIMIT - (time.time() - self.t0)))

    def drive(self, cmd, hooked=False, timeout=800, **flags):
        timeout = self.left(timeout)
        out = os.path.join(self.work, "res-%s-%d.json" % (cmd, len(os.listdir(self.work))))
        args = [self.driver(hooked), cmd]
        for k, v in flags.items():
            args += ["-" + k, str(v)]
        if "out" not in flags:
            args += ["-out", out]
        else:
            out = flags["out"]
        e = goenv()
        e["VERIF_SCRATCH"] = self.work
        e.setdefault("GOGC", "200")
        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
        try:
            p = subprocess.run(args, env=e, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                               errors="replace", preexec_fn=limit)
        except subprocess.TimeoutExpired:
            raise Broken("driver %s: no answer within %ds" % (cmd, timeout))
        if p.returncode != 0:
            txt = p.stdout
            if p.returncode == 2 and re.search(r"^(fatal error|panic|runtime):", txt, re.M) and re.search(r"steve-care-software/rodkina/(libs|instances)", txt):
                # the code under test brought the whole process down (memory, stack, a panic in a goroutine of its own)
                self.crashed(cmd, txt)
                with open(out, "w") as fh:
                    json.dump({"cases": 0, "steps": 0, "mismatches": [], "total_mismatches": 0, "crashed": True}, fh)
                return out
            raise Broken("driver %s failed (%d):\n%s ... %s" % (cmd, p.returncode, txt[:2500], txt[-500:]))
        return out

    def crashed(self, cmd, txt):
        head = re.search(r"^(fatal error|panic|runtime):.*$", txt, re.M).group(0)
        frames = re.findall(r"^(github.com/steve-care-software/rodkina/(?:libs|instances)/\S+)\(", txt, re.M)
        cases = {}
        for f in sorted(os.listdir(self.work)):
            if f.startswith("current-"):
                with open(os.path.join(self.work, f), errors="replace") as fh:
                    cases[f] = fh.read()[:4000]
        self.mismatches.append({"props": [self.prop], "what": "the code brought the process down: %s in %s" % (head, ", ".join(frames[:3])),
                                "replay": {"command": cmd, "running": cases, "output": txt[:6000]}})
        self.note("driver %s: %s" % (cmd, self.mismatches[-1]["what"]))

    def drive_json(self, cmd, **kw):
        with open(self.drive(cmd, **kw)) as fh:
            return json.load(fh)

    def take(self, res, label):
        """Counts a driver result and keeps its mismatches."""
        if not res["cases"] and not res["mismatches"]:
            raise Broken("%s: nothing was executed" % label)
        self.validated += res.get("distinct") or res["cases"]
        mine = 0
        for m in res["mismatches"]:
            if self.prop in m["props"] or "*" in m["props"]:
                self.mismatches.append(m)
                mine += 1
            else:
                if os.environ.get("VERIF_DEBUG"):
                    print("   other:", m["props"], m["what"][:600])
                for p in m["props"]:
                    self.other[p] = self.other.get(p, 0) + 1
        self.note("%s: %d cases, %d steps, %d mismatches (%d for %s)" % (
            label, res["cases"], res.get("steps", 0), res["total_mismatches"], mine, self.prop))
        self.cov[label] = {"cases": res["cases"], "steps": res.get("steps", 0)}
        if res.get("extra"):
            self.cov[label].update(res["extra"])
        return mine

    # ---- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, label, workers=8, simulate=None, depth=None, emit=None, env=None, timeout=800,
            expect_error=False, heap="4g", judge=None):
        """Runs TLC in /verif/spec. cfg is the text of the configuration. emit: file receiving the lines printed with
        the prefix "B " (JSON behaviours). judge: seconds after which what was judged so far is enough: how long the
        specification needs for a record depends on the record (grammars can take exponential time)."""
        timeout = self.left(judge or timeout)
        d = tempfile.mkdtemp(prefix="tlc", dir=self.scratch)
        cfgp = os.path.join(d, "m.cfg")
        with open(cfgp, "w") as fh:
            fh.write(cfg)
        args = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d,
                "-cp", JAR + ":" + community(), "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-config", cfgp,
                "-workers", str(workers), "-noGenerateSpecTE"]
        if simulate:
            args += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)]
            if depth:
                args += ["-depth", str(depth)]
        args += [os.path.join(VERIF, "spec", module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        n = 0
        tail = []
        try:
            outfh = open(emit, "w") if emit else None
            p = subprocess.Popen(args, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 text=True, bufsize=1 << 20)
            late = []
            dog = threading.Timer(timeout, lambda: (late.append(1), p.kill()))
            dog.daemon = True
            dog.start()
            other = []
            for line in p.stdout:
                if line.startswith('"B '):
                    n += 1
                    if outfh:
                        outfh.write(tla_unquote(line) + "\n")
                else:
                    other.append(line)
                    if len(other) > 4000:
                        del other[:2000]
            p.wait()
            dog.cancel()
            tail = "".join(other)
            if late and not judge:
                raise Broken("TLC %s: no answer within %ds" % (label, timeout))
        finally:
            if emit and outfh:
                outfh.close()
            shutil.rmtree(d, ignore_errors=True)
        gen, dist = 0, 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", tail)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"The number of states generated: ([\d,]+)", tail)
        if m and not gen:
            gen = int(m[-1].replace(",", ""))
        self.states += dist or 0
        self.transitions += gen
        ok = p.returncode == 0
        self.note("TLC %s: %s, %d states generated, %d distinct, %d behaviours" % (label, "ok" if ok else "exit %d" % p.returncode, gen, dist, n))
        self.cov.setdefault("tlc", {})[label] = {"generated": gen, "distinct": dist, "behaviours": n}
        if late:
            self.note("TLC %s: stopped after %ds" % (label, timeout))
            self.cov["tlc"][label]["stopped"] = True
        elif not ok and not expect_error:
            raise Broken("TLC %s failed:\n%s" % (label, tail[-6000:]))
        if emit and not n and not expect_error and not module.endswith("Trace"):
            raise Broken("TLC %s wrote no behaviour" % label)
        return {"ok": ok, "out": tail, "generated": gen, "distinct": dist, "behaviours": n}

    def live(self):
        known = load_known()
        return [m for m in self.mismatches if not match_known(known, self.prop, m)]

    # ---- verdict -----------------------------------------------------------
    def finish(self, level, rule="", exhaustive=None):
        live = self.live()
        known = load_known()
        hit = {}
        for m in self.mismatches:
            k = match_known(known, self.prop, m)
            if k:
                hit[k["id"]] = hit.get(k["id"], 0) + 1
        for k in known:
            if k["property"] == self.prop and k["status"] == "known":
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {
            "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
            "samples": self.samples[:6], "detail": self.cov,
        }
        if level in ("exploration", "fault_enumeration"):
            cov["evaluations"] = self.cov.get("evaluations", self.validated)
            cov["distinct_nontrivial"] = self.cov.get("distinct_nontrivial", self.validated)
            cov["rule"] = rule
        elif rule:
            cov["rule"] = rule
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(live),
              "known_finding_hits": hit, "mismatches_of_other_properties": self.other}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        code = 0
        if live:
            rdir = os.path.join(VERIF, "out")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-replay.json" % self.prop)
            with open(path, "w") as fh:
                json.dump({"property": self.prop, "mismatch": live[0], "more": live[1:20]}, fh, indent=1)
            print("first violation: " + live[0]["what"][:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            code = 1
        else:
            self.note("held on everything explored (%.1fs)" % (time.time() - self.t0))
        self.cleanup()
        return code

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def community():
    for p in ("/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar"):
        if os.path.exists(p):
            return p
    raise Broken("community modules not found")


def whole_lines(path):
    """The JSON lines of a file (the last may be incomplete when TLC was stopped)."""
    with open(path) as fh:
        for line in fh:
            try:
                yield line, json.loads(line)
            except ValueError:
                pass


def tla_unquote(line):
    """The TLA+ string literal printed by PrintT ("B ..."), without its prefix."""
    s = line.strip()
    s = s[1:-1]
    s = s[2:]
    if "\\" in s:
        s = s.replace('\\"', '"').replace("\\\\", "\\")
    return s


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return json.load(fh)["findings"]


def match_known(known, prop, m):
    for k in known:
        if k.get("status") != "known" or k["property"] != prop:
            continue
        if m.get("known") == k["id"]:
            return k
    return None


def sample_lines(path, n=2, limit=1500):
    out = []
    with open(path) as fh:
        for line in fh:
            out.append(line.strip()[:limit])
            if len(out) >= n:
                break
    return out


def main(prop, fn):
    run = Run(prop)
    try:
        code = fn(run)
    except Broken as e:
        if run.mismatches and run.live():
            # what was found before the machinery gave up stands
            run.note("incomplete: %s" % e)
            sys.exit(run.finish("model_checking"))
        print("BROKEN-CHECK property=%s: %s" % (prop, e))
        run.cleanup()
        sys.exit(2)
    except BaseException:
        run.cleanup()
        raise
    sys.exit(code)
