"""Checks of trees on stores at the level of bytes: the format, what is read, what is written."""
import json, os, re
from core import *
from maps import judge

STORED = """SPECIFICATION TraceSpec
ALIAS Alias
CHECK_DEADLOCK TRUE
"""

FORMAT = """CONSTANT MaxKeys = {n}
INIT Init
NEXT Next
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
"""


def format_laws(ctx):
    """reading undoes writing, for all small trees and policies; the examples of the documentation hold"""
    n = 2 if ctx.quick else 4
    r = ctx.tlc("format", "FormatLaws", FORMAT.format(n=n), timeout=3000)
    if not r.ok:
        raise ToolError("the specification of the format is wrong: " + r.trace[:2000])
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    ctx.step(step="model", what="Format: every encoding of a map describes that map; documented examples", keys=n, states=r.distinct)
    ctx.log("format laws", r.distinct)


def run(ctx, name, args, seconds, prop=None):
    d = ctx.dir(name)
    st, o, e = ctx.rdx(args + ["--out", d], seconds + 120)
    if st != "ok":
        abandoned(ctx, d, args, st, e, prop)
    stats = json.load(open(os.path.join(d, "stats.json")))
    ctx.log(name, {k: v for k, v in stats.items() if k != "ops"})
    p = os.path.join(d, "samples.ndjson")
    if stats["traces"] == 0:
        raise ToolError("no executions")
    bad = judged(ctx, name, p, prop)
    if bad:
        j = json.loads(open(p).read().splitlines()[bad[0] - 1])
        ctx.violation(f"an execution of the tree is not a behaviour of the specification: {bad[1][:1500]}", {"trace": j, "tlc": bad[1], "command": args})
    with open(p) as f:
        lines = f.read().splitlines()
    ctx.sample(min(lines[:50], key=len)[:1500])
    return stats


def judged(ctx, name, path, prop):
    """as judge, in parts: the traces are large"""
    prop = prop or ctx.prop
    lines = open(path).read().splitlines()
    size = 1500
    for i in range(0, len(lines), size):
        q = path + f".{i}"
        with open(q, "w") as f:
            f.write("\n".join(lines[i:i + size]) + "\n")
        bad = judge_prop(ctx, name, q, prop)
        os.unlink(q)
        if bad:
            return bad[0] + i, bad[1]
    return None


def judge_prop(ctx, name, path, prop):
    os.environ["PROP"] = prop
    return judge(ctx, name, path, module="TraceStored", cfg=STORED)


def abandoned(ctx, d, args, st, detail, prop):
    profile = args[args.index("--profile") + 1]
    for t in range(8):
        p = os.path.join(d, f"current-{t}")
        b = open(p, "rb").read() if os.path.exists(p) else b""
        if len(b) < 16 or not any(b[:8]):
            continue
        a = ["stored", "--profile", profile, "--traceseed", int.from_bytes(b[:8], "little")]
        if "--plans" in args:
            a += ["--plan", open(args[args.index("--plans") + 1]).read().splitlines()[int.from_bytes(b[8:16], "little")]]
        st1, o, e = ctx.rdx(a, 60)
        if st1 == "ok":
            continue
        evs, begun = [], None
        for l in o.splitlines():
            if l.startswith("begin "):
                begun = l[6:]
            elif l.startswith("end "):
                evs.append(json.loads(l[4:]))
                begun = None
        if begun is None:
            continue
        ev = json.loads(begun)
        ev.update({"st": st1, "res": [], "reads": [], "writes": []})
        p = os.path.join(d, "abandoned.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps({"profile": profile, "seed": "0", "ev": evs + [ev]}) + "\n")
        bad = judge_prop(ctx, "abandoned", p, prop or ctx.prop)
        if bad:
            ctx.violation(f"the code did not return from an operation ({st1}): {begun[:500]}", {"trace": evs + [ev], "tlc": bad[1], "command": a, "detail": e[-500:]})
    ctx.violation(f"the code did not survive a run of generated operations ({st}, not reproduced in isolation)", {"detail": detail[-1000:], "command": args})


def plans(ctx):
    """encodings written by the specification, read by the code"""
    n = 60 if ctx.quick else 600
    for batch in range(1 if ctx.quick else 4):
        d = ctx.dir("plans")
        runs = []
        for s in range(8):
            rows = os.path.join(d, f"rows{s}")
            with open(rows, "w") as f:
                for _ in range(n):
                    f.write(json.dumps([ctx.rng.randrange(10**6) for _ in range(24)]) + "\n")
            runs.append(ctx.tlc("plans", "FormatPlans", "INIT Init\nNEXT Next\n", env={"ROWS": rows, "OUT": os.path.join(d, f"{s}.nd")}, workers=1, mem="3g", background=True))
        f = os.path.join(d, "plans.nd")
        k = 0
        with open(f, "w") as o:
            for s, r in enumerate(runs):
                if not r.wait().ok:
                    raise ToolError("FormatPlans failed")
                for l in open(os.path.join(d, f"{s}.nd")):
                    o.write(l)
                    k += 1
                os.unlink(os.path.join(d, f"{s}.nd"))
        stats = run(ctx, "encodings", ["storeds", "--profile", ctx.prop, "--seed", ctx.seed * 10 + batch, "--plans", f, "--seconds", 100], 100)
        ctx.cov["transitions"] += k
        ctx.step(step="encodings", encodings=k, executed=stats["traces"], operations=stats["events"], operations_by_kind=stats["ops"])
        os.unlink(f)


def traces(ctx, count=None, batches=None):
    for b in range(batches or (1 if ctx.quick else 10)):
        stats = run(ctx, "stored", ["storeds", "--profile", ctx.prop, "--seed", ctx.seed * 100 + b, "--count", count or (1500 if ctx.quick else 6000), "--seconds", 60], 60)
        ctx.step(step="traces", executions=stats["traces"], operations=stats["events"], checked_by_tlc=stats["traces"], operations_by_kind=stats["ops"])
