"""Common machinery of the checks: building the harness, running TLC, evidence, verdicts."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CARGO_HOME_BIN = "/root/.cargo/bin"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def cargo_env(target):
    env = dict(os.environ)
    env.update(
        CARGO_TARGET_DIR=target,
        CARGO_NET_OFFLINE="true",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        HOME="/root",
        PATH=CARGO_HOME_BIN + ":" + env.get("PATH", ""),
        RUSTC_WRAPPER="",
        RUSTFLAGS="",
    )
    for v in list(env):
        if v.startswith("CARGO_PROFILE_") or v == "CARGO_INCREMENTAL":
            del env[v]
    return env


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.out = os.path.join(VERIF, "out", f"{prop}-{tier}")
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.tmp = os.path.join(self.out, "tmp")
        os.makedirs(self.tmp)
        self.spec = os.path.join(self.out, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)
        self.bin = None
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "steps": []}
        self.assumptions = []
        self.n = 0
        self.rng = random.Random(seed)
        self.start = time.time()

    def log(self, *a):
        print(f"[{time.time() - self.start:6.1f}s]", *a, flush=True)

    def dir(self, name):
        self.n += 1
        d = os.path.join(self.out, f"{self.n:02}-{name}")
        os.makedirs(d)
        return d

    def step(self, **kw):
        self.cov["steps"].append(kw)

    def sample(self, x):
        if len(self.cov["samples"]) < 4:
            s = x if isinstance(x, str) else json.dumps(x)
            self.cov["samples"].append(s[:2000])

    def violation(self, what, data):
        path = os.path.join(self.out, "replay.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, **data}, f, indent=1)
        raise Violation(what, path)

    # ---- the code under test
    def build(self, release=False):
        """release: as users have it: optimised, without debug assertions and checks for overflow"""
        self.bin = os.path.join(VERIF, "harness", "target", "release" if release else "debug", "rdx")
        target = os.path.join(VERIF, "harness", "target")
        env = cargo_env(target)
        # cargo trusts modification times: make it look at the crate again
        fp = os.path.join(target, "release" if release else "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("radixdb-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = subprocess.run(
            ["cargo", "build", "--offline", "--locked"] + (["--release"] if release else []),
            cwd=os.path.join(VERIF, "harness"),
            env=env,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
        )
        if r.returncode != 0:
            print(r.stdout[-6000:])
            raise ToolError("the harness does not build")
        self.log("built", "release" if release else "")

    def rdx(self, args, timeout, cwd=None, env=None):
        """runs the harness; returns (status, output) with status ok, hang, crash"""
        e = dict(os.environ)
        e["TMPDIR"] = self.tmp
        scratch = tempfile.mkdtemp(prefix="rdx-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else self.tmp)
        e["RDX_SCRATCH"] = scratch
        e.update(env or {})
        try:
            r = subprocess.run(
                [self.bin] + [str(a) for a in args],
                stdout=subprocess.PIPE,
                stderr=subprocess.PIPE,
                text=True,
                errors="replace",
                timeout=timeout,
                cwd=cwd or self.tmp,
                env=e,
            )
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b""
            return "hang", (o.decode(errors="replace") if isinstance(o, bytes) else o), "timeout"
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if r.returncode == 0:
            return "ok", r.stdout, r.stderr
        if r.returncode == 2:
            raise ToolError("harness: " + r.stderr[-2000:])
        if r.returncode == 4:
            return "hang", r.stdout, r.stderr
        return "crash", r.stdout, f"exit code {r.returncode}: {r.stderr[-2000:]}"

    # ---- TLC
    def tlc(self, name, module, cfg, env=None, workers=8, mem="8g", timeout=800, background=False):
        d = self.dir("tlc-" + name)
        path = os.path.join(d, name + ".cfg")
        with open(path, "w") as f:
            f.write(cfg)
        cmd = [
            "java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
            "-XX:TieredStopAtLevel=4", "-Xmx" + mem, "-Xss64m", f"-Djava.io.tmpdir={d}",
            "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
            "-metadir", os.path.join(d, "md"), "-config", path, os.path.join(self.spec, module + ".tla"),
        ]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        log = os.path.join(d, "log")
        p = subprocess.Popen(cmd, cwd=self.spec, env=e, stdout=open(log, "w"), stderr=subprocess.STDOUT)
        run = TlcRun(p, log, name, timeout, d)
        return run if background else run.wait()


class TlcRun:
    def __init__(self, p, log, name, timeout, d):
        self.p, self.logfile, self.name, self.timeout, self.d = p, log, name, timeout, d

    def wait(self):
        try:
            self.p.wait(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise ToolError(f"TLC {self.name}: timeout")
        s = open(self.logfile, errors="replace").read()
        shutil.rmtree(os.path.join(self.d, "md"), ignore_errors=True)
        for x in os.listdir(self.d):
            if x.startswith("tlc-") and os.path.isdir(os.path.join(self.d, x)):
                shutil.rmtree(os.path.join(self.d, x), ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", s)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        self.text = s
        self.ok = "Model checking completed. No error has been found." in s
        self.bad = None
        m = re.search(r"Error: (Invariant \S+ is violated|Deadlock reached|Action property .* is violated|Temporal properties were violated|.*is violated)", s)
        if m:
            self.bad = m.group(1)
            i = s.index(m.group(0))
            self.trace = s[i:i + 200000]
        elif not self.ok:
            raise ToolError(f"TLC {self.name} failed: " + tlc_error(s))
        return self


def tlc_error(s):
    i = s.find("Error:")
    return s[i:i + 1500] if i >= 0 else s[-1500:]


def main(plans):
    if len(sys.argv) < 2 or sys.argv[1] not in plans:
        print("usage: check.py", "|".join(plans))
        sys.exit(2)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(prop, tier, seed)
    code, violations = 0, 0
    for l in findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, l))
    try:
        ctx.build()
        plans[prop](ctx)
    except Violation as v:
        print(v.what[:3000])
        print(f"VIOLATION property={prop} replay={v.replay}", flush=True)
        code, violations = 1, 1
    except ToolError as e:
        print("ERROR", e, flush=True)
        code = 2
    except Exception:
        import traceback

        traceback.print_exc()
        code = 2
    if code != 2:
        if not ctx.cov["samples"]:
            ctx.cov["samples"] = ["none: the run ended at the first violation"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(
                {
                    "property": prop,
                    "tier": tier,
                    "seed": seed,
                    "level": "model_checking",
                    "coverage": ctx.cov,
                    "assumptions": ctx.assumptions,
                    "wall_s": round(time.time() - ctx.start, 1),
                    "violations": violations,
                },
                f,
                indent=1,
            )
    if code == 0:
        shutil.rmtree(ctx.out, ignore_errors=True)
    else:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        shutil.rmtree(ctx.spec, ignore_errors=True)
    ctx.log("exit", code)
    sys.exit(code)


def findings(prop):
    """known findings of a property: description of those that are listed and not fixed"""
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return []
    return [m.group(1) for l in open(p) if (m := re.match(r"finding: property=%s (.*)" % prop, l))]
