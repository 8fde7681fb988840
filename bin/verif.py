"""Common machinery of the checks: build, generate with TLC, replay, validate with TLC, evidence."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(HARNESS, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def env(seed=1, tier="quick"):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["VERIF_SEED"] = str(seed)
    e["VERIF_TIER"] = tier
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["LANG"] = "C.UTF-8"
    return e


def build(features, bins):
    """builds harness binaries against /repo's working tree, hooks on"""
    e = env()
    e["RUSTFLAGS"] = "--cfg sia_verif --cap-lints=allow"
    cmd = ["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
           "--target-dir", TARGET, "-q"]
    for b in bins:
        cmd += ["--bin", b]
    if features:
        cmd += ["--features", features]
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise ToolError("the harness does not build")


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "out", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        events_validated=0, samples=[], models=[])
        self.assumptions = []
        self.violations = []
        self.findings = []

    def env(self):
        return env(self.seed, self.tier)

    def build(self, features="", bins=("sv-core",)):
        build(features, bins)

    def bin(self, name):
        return os.path.join(TARGET, "release", name)

    # --------------------------------------------------------------- models
    def tlc(self, module, cfg, name, env=None, workers=1, heap="1500m", timeout=700, simulate=None, extra=()):
        """runs TLC; returns (exit code, output)"""
        cfgfile = os.path.join(self.work, name + ".cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        e = self.env()
        e.update(env or {})
        meta = os.path.join(self.work, "tlc-" + name)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss512m", "-cp", JARS, "tlc2.TLC",
               "-config", cfgfile, "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra)
        cmd += [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + name)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        with open(os.path.join(self.work, name + ".out"), "w") as f:
            f.write(r.stdout)
        return r.returncode, r.stdout

    def model(self, module, cfg, name=None, scenarios=False, workers=1, **kw):
        """model-checks a specification; a failure here is an error of the specification, not of the code"""
        name = name or module
        env = dict(kw.pop("env", {}))
        out = os.path.join(self.work, name + ".scen")
        if scenarios:
            env["OUT"] = out + ".raw"
        t = time.time()
        rc, txt = self.tlc(module, cfg, name, env=env, workers=workers, **kw)
        if rc != 0:
            sys.stderr.write(txt[-4000:])
            raise ToolError("the specification %s does not pass TLC (exit %d)" % (name, rc))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        n = 0
        if scenarios:
            with open(out, "w") as f:
                if os.path.exists(out + ".raw"):
                    for line in open(out + ".raw"):
                        f.write(json.loads(line) + "\n")
                        n += 1
                    os.remove(out + ".raw")
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append(dict(model=name, tool="TLC", distinct_states=dist, states_generated=gen,
                                       scenarios=n, wall_s=round(time.time() - t, 1)))
        return out

    def apalache(self, module, inv="Inv", init="Init", length=0, timeout=600):
        t = time.time()
        outdir = os.path.join(self.work, "apalache-" + module)
        cmd = ["apalache-mc", "check", "--init=" + init, "--next=Next", "--inv=" + inv, "--length=%d" % length,
               "--out-dir=" + outdir, os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                               cwd=self.work)
        except subprocess.TimeoutExpired:
            raise ToolError("Apalache timed out on " + module)
        with open(os.path.join(self.work, "apalache-%s-%s.out" % (module, inv)), "w") as f:
            f.write(r.stdout)
        shutil.rmtree(outdir, ignore_errors=True)
        if "The outcome is: NoError" not in r.stdout:
            sys.stderr.write(r.stdout[-3000:])
            raise ToolError("the specification %s does not pass Apalache" % module)
        self.cov["models"].append(dict(model="%s!%s" % (module, inv), tool="Apalache", result="holds for all integers",
                                       wall_s=round(time.time() - t, 1)))

    # --------------------------------------------------------------- replay
    def replay(self, binary, cmd, scen=None, args=(), timeout=600, name=None, cwd=None):
        """runs the harness; it writes trace parts <base>.<n>"""
        name = name or cmd
        base = os.path.join(self.work, name + ".trace")
        argv = (list(binary) if isinstance(binary, list) else [self.bin(binary)]) + [cmd, base, scen or "-"] + list(args)
        err = os.path.join(self.work, name + ".err")
        t = time.time()
        with open(err, "w") as ef:
            try:
                r = subprocess.Popen(argv, env=self.env(), stdout=subprocess.DEVNULL, stderr=ef,
                                     cwd=cwd or self.work, start_new_session=True)
                rc = r.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(r.pid, signal.SIGKILL)
                r.wait()
                rc = "no end after %d s" % timeout
        self.cov.setdefault("replay_wall_s", {})[name] = round(time.time() - t, 1)
        if rc != 0:
            tail = open(err).read()[-2000:]
            if isinstance(rc, str) or rc < 0 or rc in (101, 134, 139):
                # the code under test ended or hung the process: an observation, not an error of the harness
                self.violation("the implementation ended or stopped the replay (%s)" % rc,
                               dict(command=argv[1:], stderr=tail))
                return []
            sys.stderr.write(tail)
            raise ToolError("the harness failed (%s)" % rc)
        d = os.path.dirname(base)
        return sorted(os.path.join(d, f) for f in os.listdir(d)
                      if f.startswith(os.path.basename(base) + ".") and os.path.getsize(os.path.join(d, f)) > 0)

    # ------------------------------------------------------------- validate
    def validate(self, module, parts, consts="", heap="1500m", timeout=700, env=None, jobs=8):
        """checks every recorded part against the trace specification"""
        cfg = 'CONSTANTS Prop = "%s"\n%s\nSPECIFICATION Spec\nPOSTCONDITION Done\nCHECK_DEADLOCK FALSE\n' % (self.prop, consts)

        def one(part):
            ev = dict(env or {})
            ev["TRACE"] = part
            return part, self.tlc(module, cfg, module + "-" + os.path.basename(part), env=ev, heap=heap, timeout=timeout)

        t = time.time()
        with cf.ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(one, parts))
        total = 0
        results = [(part, self.again(r, part, module, cfg, env, timeout) if self.ran_out(*r) else r) for part, r in results]
        for part, (rc, txt) in results:
            lines = open(part).read().splitlines()
            m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', txt)
            if m and rc == 0 and int(m.group(1)) == int(m.group(2)) == len(lines):
                total += len(lines)
                self.cov["traces_validated_against_impl"] += sum(1 for x in lines if self.starts_history(x)) or 1
                g = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
                if g:
                    self.cov["transitions"] += int(g.group(1))
                    self.cov["states"] += int(g.group(2))
                continue
            if m and rc == 0:
                at = int(m.group(1))
                why = "the specification does not allow this event"
            else:
                # evaluation error: the recorded values do not even have the shape the specification gives them
                d = re.search(r"The depth of the complete state graph search is (\d+)|(\d+) states generated", txt)
                if not re.search(r"(Evaluating|evaluat|Attempted|The error occurred|exception was)", txt) or "OutOfMemory" in txt \
                        or "StackOverflow" in txt or "Parsing or semantic analysis failed" in txt or "ParseException" in txt:
                    sys.stderr.write(txt[-4000:])
                    raise ToolError("TLC failed on " + part)
                ls = re.findall(r"/\\ l = (\d+)|^l = (\d+)", txt, re.M)
                at = int(max((int(a or b) for a, b in ls), default=1)) - 1
                why = "the specification cannot interpret this event"
            start = at
            while start > 0 and start >= at - 40 and not self.starts_history(lines[start]):
                start -= 1
            self.violation(why, dict(trace=part, line=at + 1, history=[json.loads(x) for x in lines[start:at + 1]][-40:]))
        self.cov["events_validated"] += total
        self.cov.setdefault("validate_wall_s", {})[module] = round(time.time() - t, 1)
        if parts and not self.cov["samples"]:
            with open(parts[0]) as f:
                self.cov["samples"] = [self.short(f.readline()) for _ in range(3)]

    @staticmethod
    def ran_out(rc, txt):
        """TLC ended for want of memory or stack, or was ended: no verdict"""
        return "CONSUMED" not in txt and ("OutOfMemory" in txt or "StackOverflow" in txt or rc in (-9, 137, 134) or "states generated" not in txt)

    def again(self, r, part, module, cfg, env, timeout):
        ev = dict(env or {})
        ev["TRACE"] = part
        return self.tlc(module, cfg, module + "-" + os.path.basename(part), env=ev, heap="8g", timeout=timeout)

    first_events = None

    def starts_history(self, line):
        if not self.first_events:
            return True
        return any((e if e[0] == '"' else '"ev":"%s"' % e) in line for e in self.first_events)

    @staticmethod
    def short(line, n=700):
        line = line.strip()
        return line if len(line) <= n else line[:n] + "..."

    # -------------------------------------------------------------- verdict
    def violation(self, why, data):
        if len(self.violations) >= 5:
            return
        path = os.path.join(self.work, "replay-%d.json" % (len(self.violations) + 1))
        data = dict(property=self.prop, why=why, seed=self.seed, tier=self.tier, **data)
        with open(path, "w") as f:
            json.dump(data, f)
        self.violations.append((why, path))

    def finish(self, level="model_checking"):
        self.cov["samples"] = self.cov["samples"][:6] or ["(none)"]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for why, path in self.violations:
            print("# " + why)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if not self.violations:
            print("OK property=%s events=%d states=%d wall=%.1fs" % (
                self.prop, self.cov["events_validated"], self.cov["states"], time.time() - self.t0))
            # traces are only kept when there is something to look at
            for f in os.listdir(self.work):
                if ".trace." in f or f.endswith(".scen"):
                    os.remove(os.path.join(self.work, f))
        return 1 if self.violations else 0


def cfg(consts="", spec="Spec", invs=(), props=(), constraint="", post="Stats", view="", extra=""):
    s = ""
    if consts:
        s += "CONSTANTS " + consts + "\n"
    s += "SPECIFICATION %s\n" % spec
    if invs:
        s += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        s += "PROPERTIES " + " ".join(props) + "\n"
    if constraint:
        s += "CONSTRAINT " + constraint + "\n"
    if view:
        s += "VIEW " + view + "\n"
    if post:
        s += "POSTCONDITION " + post + "\n"
    return s + "CHECK_DEADLOCK FALSE\n" + extra
