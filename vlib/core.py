"""Shared machinery of the checks: build the harness from /repo's working tree,
run it, let TLC decide, write the evidence file."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
OUT = os.environ.get("VERIF_OUT", ROOT)  # where work/ and evidence/ go
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PKG = "jsimonetti/go-artnet"


class Broken(Exception):
    """The check itself could not do its work (exit 2)."""


class Violation(Exception):
    """The real code broke the property."""

    def __init__(self, what, files=()):
        super().__init__(what)
        self.what, self.files = what, list(files)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.work = os.path.join(OUT, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes = [], {}
        self.t0 = time.time()
        self.bins, self.lock = {}, threading.RLock()

    def path(self, *a):
        p = os.path.join(self.work, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    # ---- building ---------------------------------------------------------
    def build(self, race=False):
        if race in self.bins:
            return self.bins[race]
        ov = self.path("overlay", "overlay.json")
        env = goenv()
        run([sys.executable, os.path.join(ROOT, "harness/overlay/gen.py"), os.path.dirname(ov)], env=env, what="overlay")
        out = self.path("h.race" if race else "h.test")
        # build in a copy: go.mod's replace directive names the repository
        h = self.path("harness", "go.mod")
        if not os.path.exists(h):
            shutil.copytree(os.path.join(ROOT, "harness/h"), os.path.join(os.path.dirname(h), "h"))
            shutil.copy(os.path.join(ROOT, "harness/go.sum"), os.path.dirname(h))
            m = open(os.path.join(ROOT, "harness/go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(h, "w").write(m)
        run(["go", "test", "-c", "-vet=off", "-overlay", ov] + (["-race"] if race else []) + ["-o", out, "./h"],
            cwd=os.path.dirname(h), env=env, what="harness build", timeout=600)
        self.bins[race] = out
        return out

    # ---- TLC --------------------------------------------------------------
    def model(self, module, cfg, name=None, workers=4, timeout=800, extra=(), env=None, heap="4g"):
        """Model-check a specification; it must be free of errors."""
        name = name or module
        rc, out = self.tlc(module, cfg, name, workers, timeout, extra, env, heap)
        if rc != 0 or "No error has been found" not in out:
            raise Broken(f"model checking of {name} failed (rc {rc}):\n{tail(out)}")
        return self.count(out, name)

    def count(self, out, name):
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        if not m:
            raise Broken("no statistics from TLC for " + name + ":\n" + tail(out))
        g, d = (int(x.replace(",", "")) for x in m[-1])
        self.states += d
        self.transitions += g
        self.notes.setdefault("models", {})[name] = {"distinct_states": d, "generated": g}
        return d, g

    def tlc(self, module, cfg, name, workers=1, timeout=800, extra=(), env=None, heap="3g"):
        c = self.path("tlc", name + ".cfg")
        open(c, "w").write(cfg)
        meta = self.path("tlc", name + ".states", "x")
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + os.path.dirname(meta), "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.dirname(meta), "-noGenerateSpecTE",
               "-config", c, *extra, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                               cwd=os.path.dirname(c))
        except subprocess.TimeoutExpired:
            raise Broken(f"TLC timed out on {name}")
        shutil.rmtree(os.path.dirname(meta), ignore_errors=True)
        return p.returncode, p.stdout

    def validate(self, module, trace, name, consts, spec="Spec", env=None, timeout=800, heap="3g"):
        """Check a recorded trace.  Returns None or a description of the violation."""
        cfg = f"SPECIFICATION {spec}\nINVARIANT Conforms\nPOSTCONDITION Accepted\nALIAS Short\nCHECK_DEADLOCK FALSE\n"
        cfg += "".join(f"CONSTANT {k} = {v}\n" for k, v in consts.items())
        e = {"TRACE": trace}
        e.update(env or {})
        rc, out = self.tlc(module, cfg, name, 1, timeout, (), e, heap)
        if "Invariant Conforms is violated" in out:
            st = out.split("Invariant Conforms is violated")[1]
            ls = re.findall(r"line = (\d+)", st)
            fs = re.findall(r"fails = (\{.*?\})\s*(?:\n/\\|\n\n|\n\d|$)", st, re.S)
            return {"line": int(ls[-1]) if ls else 0, "fails": re.sub(r"\s+", " ", fs[-1]) if fs else tail(st, 600), "out": out}
        if rc != 0 or "No error has been found" not in out:
            raise Broken(f"TLC could not check trace {name} (rc {rc}):\n{tail(out)}")
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        g, d = (int(x.replace(",", "")) for x in m[-1])
        with self.lock:
            self.states += d
            self.transitions += g
        return None

    # ---- running the real code -------------------------------------------
    def harness(self, test, env, log, race=False, timeout=600):
        """Run one test function of the harness; returns (rc, stderr+stdout)."""
        e = goenv()
        e.update({k: str(v) for k, v in env.items()})
        with open(log, "w") as f:
            try:
                p = subprocess.run([self.build(race), "-test.run", "^" + test + "$", "-test.timeout", "0", "-test.count", "1"],
                                   env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=self.work)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        return rc, open(log, errors="replace").read()

    def parallel(self, fn, items, n=8):
        """Run fn over items; the first violation ends the rest early."""
        self.build()
        bad = None
        with cf.ThreadPoolExecutor(n) as ex:
            futs = [ex.submit(fn, i) for i in items]
            try:
                for f in cf.as_completed(futs):
                    f.result()
            except (Violation, Broken) as e:
                bad = e
                for f in futs:
                    f.cancel()
        if bad:
            # a real violation found by another shard beats a broken shard
            for f in futs:
                if f.done() and not f.cancelled() and isinstance(f.exception(), Violation):
                    raise f.exception()
            raise bad

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def evidence(self, violations):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "trace_events": self.events, "samples": self.samples}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": violations,
              "assumptions": ["virtual clock (testing/synctest) and in-memory datagrams stand in for time and UDP",
                              "Art-Net tables in spec/ are taken from the protocol specification"]}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, "evidence", self.pid + ".json"), "w"), indent=1)


def goenv():
    e = dict(os.environ)
    e["GOFLAGS"], e["GOPROXY"], e["GOTOOLCHAIN"] = "-mod=mod", "off", "local"
    e.setdefault("HOME", "/root")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
    e.pop("GOWORK", None)
    return e


def run(cmd, what, timeout=300, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    if p.returncode:
        raise Broken(what + " failed:\n" + tail(p.stdout))
    return p.stdout


def tail(s, n=3000):
    return s if len(s) <= n else "..." + s[-n:]


def lib_panic(out):
    """Is this the crash of a goroutine in library code?  Returns the message."""
    m = re.search(r"^(panic: |fatal error: )(.*)$", out, re.M)
    if not m or "harness:" in m.group(2):
        return None
    rest = out[m.start():]
    g = re.search(r"^goroutine \d+ .*?:\n(.*?)(?:\n\n|\Z)", rest, re.S | re.M)
    if g and PKG in g.group(1):
        return m.group(0) + "\n" + tail(g.group(0), 1500)
    return None


def count_lines(p):
    with open(p, "rb") as f:
        return sum(1 for _ in f)


def line(p, n):
    with open(p) as f:
        for i, x in enumerate(f, 1):
            if i == n:
                return x.rstrip("\n")
    return ""
