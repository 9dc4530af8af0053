"""Checks of the browser's file system: models, plans, recorded programs."""
import json, os, shutil, subprocess
from core import *
from maps import judge

CHUNKS = """CONSTANTS
  MaxLen = {len}
  MaxOps = {ops}
  MaxBreaks = {breaks}
SPECIFICATION Spec
INVARIANTS Atomic Finished OpenIsDone NoClash
PROPERTY Forward
CHECK_DEADLOCK FALSE
"""
FILES = """CONSTANT Files = {1, 2}
SPECIFICATION Spec
CONSTRAINT Small
INVARIANT Laws
PROPERTY Isolated
CHECK_DEADLOCK FALSE
"""
PLANS = "INIT Init\nNEXT Next\n"
TRACE = """CONSTANT Files = {1, 2, 3, 4, 5, 6}
SPECIFICATION TraceSpec
ALIAS Alias
CHECK_DEADLOCK TRUE
"""
STORE = """CONSTANTS
  Ids = {}
  Toks = {}
  Slots = {1,2,3}
SPECIFICATION TraceSpec
ALIAS Alias
INVARIANTS DurableKnown
CHECK_DEADLOCK TRUE
"""
HOME = os.path.join(VERIF, "browser")
BIN = os.path.join(HOME, "target", "debug", "cacherun")


def build(ctx):
    target = os.path.join(HOME, "target")
    fp = os.path.join(target, "debug", ".fingerprint")
    # cargo trusts modification times: make it look at the crates of /repo again
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("radixdb-", "sample-")) and not d.startswith("radixdb-shim"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HOME, env=cargo_env(target),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        raise ToolError("the harness for the browser does not build")
    ctx.log("built the file system of the browser")


def models(ctx):
    whole = "CacheChunks: whatever the plans of operations are interrupted by, a file has the contents before or after"
    bounds = [(4, 3, 2), (3, 4, 2)] if ctx.quick else [(4, 3, 2), (3, 4, 2), (5, 3, 3), (3, 5, 3), (4, 4, 2)]
    for name, module, cfg, what in [("chunks", "CacheChunks", CHUNKS.format(len=l, ops=o, breaks=b), f"{whole}; files of {l}, {o} operations, {b} interruptions") for l, o, b in bounds] + [
        ("files", "CacheFiles", FILES, "CacheFiles: laws of the contents of files"),
    ]:
        r = ctx.tlc(name, module, cfg, timeout=3000)
        if not r.ok:
            raise ToolError("the specification does not have its own properties: " + r.trace[:2000])
        ctx.cov["states"] += r.distinct
        ctx.cov["transitions"] += r.generated
        ctx.step(step="model", what=what, states=r.distinct, transitions=r.generated)
        ctx.log(name, r.distinct, r.generated)


def plans(ctx):
    """every short sequence of writes and truncations of a file, executed, with interruptions"""
    for ln, n in [(4, 3), (3, 4), (5, 3)] if ctx.quick else [(4, 4), (3, 5), (5, 4), (7, 3)]:
        p = os.path.join(ctx.dir("plans"), "plans.ndjson")
        r = ctx.tlc("plans", "CachePlans", PLANS, env={"LEN": ln, "N": n, "OUT": p}, workers=1, timeout=1200)
        if not os.path.exists(p):
            raise ToolError("no plans: " + r.text[-1000:])
        stats = run(ctx, "files", 0, 60 if ctx.quick else 600, 15 if ctx.quick else 100, p)
        ctx.step(step="plans", what=f"every sequence of {n} writes and truncations of a file of up to {ln} blocks", **stats)
        ctx.log("plans", ln, n, stats)


def traces(ctx):
    q = ctx.quick
    for what, count, s, sample in [("files", 3000, 25, 60), ("paging", 2500, 12, 40)]:
        stats = run(ctx, what, count if q else count * 40, s if q else s * 20, sample if q else sample * 10)
        if stats["executions"] == 0:
            raise ToolError("no executions")
        ctx.step(step="programs", what=what, **stats)
        ctx.log(what, stats)


def spec_of(what):
    return ("TraceStore", STORE) if what == "paging" else ("TraceCache", TRACE)


def run(ctx, what, count, seconds, sample, plans=None):
    """the same in eight processes"""
    ps, lines = [], open(plans).read().splitlines() if plans else []
    for w in range(8):
        d = ctx.dir(what)
        args = [what, "--seed", str(ctx.seed * 64 + w), "--count", str(count), "--sample", str(sample), "--seconds", str(seconds), "--out", d]
        if plans:
            q = os.path.join(d, "plans.ndjson")
            with open(q, "w") as f:
                f.write("\n".join(lines[w::8]) + "\n")
            args += ["--plans", q]
        ps.append((d, args, subprocess.Popen([BIN] + args, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "err"), "w"), cwd=d)))
    res = []
    try:
        for d, args, p in ps:
            res.append(p.wait(timeout=seconds + 150))
    except subprocess.TimeoutExpired:
        raise ToolError("the harness for the browser does not end")
    finally:
        for _, _, p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
    total, checked = {}, []
    for (d, args, p), r in zip(ps, res):
        if r == 2:
            raise ToolError("harness: " + open(os.path.join(d, "err")).read()[-2000:])
        if r == 0:
            for k, v in json.load(open(os.path.join(d, "stats.json"))).items():
                total[k] = total.get(k, 0) + v
    # what may be wrong first
    for kind in ["hang", "suspects.ndjson", "samples.ndjson"]:
        path = os.path.join(ctx.dir("judge"), kind + ".ndjson")
        with open(path, "w") as f:
            for (d, args, p), r in zip(ps, res):
                q = os.path.join(d, kind)
                if kind == "hang" and r == 4:
                    j = json.load(open(q))
                    last = j["ev"][-1]
                    last.update({"st": "hang", "fault": False})
                    for k, v in {"n": -1, "got": [], "views": [], "now": [], "id": 0, "tok": -1, "size": "fits", "files": [1], "idlen": 8, "slot": 0, "last": 0, "a": 0, "b": 0, "data": []}.items():
                        last.setdefault(k, v)
                    f.write(json.dumps(j) + "\n")
                elif kind != "hang" and r == 0:
                    t = open(q).read().splitlines()
                    f.write("".join(l + "\n" for l in t))
                    if kind.startswith("samples"):
                        checked += t
        module, cfg = spec_of(what)
        bad = judge(ctx, what, path, module=module, cfg=cfg)
        if bad:
            j = json.loads(open(path).read().splitlines()[bad[0] - 1])
            c = [BIN, "one", "--traceseed", j["seed"]] + (["--paging"] if what == "paging" else []) + (["--plan", json.dumps(j["plan"])] if "plan" in j else [])
            ctx.violation(f"an execution of the browser's file system is not a behaviour of the specification: {bad[1][:1500]}",
                          {"trace": j, "tlc": bad[1], "command": c})
    for (d, args, p), r in zip(ps, res):
        if r not in (0, 4):
            ctx.violation(f"the file system of the browser did not survive a run of generated operations (exit code {r})",
                          {"command": [BIN] + args, "detail": open(os.path.join(d, "err")).read()[-1000:]})
        if r == 4:
            raise ToolError("TLC accepts an operation that did not return")
    if checked:
        ctx.sample(min(checked[:200], key=len)[:1500])
    return {"executions": total.get("traces", 0), "operations": total.get("events", 0), "states_of_the_cache_looked_at": total.get("views", 0), "suspects": total.get("suspects", 0),
            "failing_calls": total.get("faults", 0), "checked_by_tlc": len(checked)}
