"""Checks of the blob stores: model of the file, plans, recorded executions with crashes and losses of power."""
import json, os, re
from core import *
from maps import judge

STORE = """CONSTANTS
  Ids = {}
  Toks = {}
  Slots = {1,2,3}
SPECIFICATION TraceSpec
ALIAS Alias
INVARIANTS DurableKnown
CHECK_DEADLOCK TRUE
"""

FILE = """CONSTANTS
  PS = {ps}
  LS = {ls}
  Chunk = {chunk}
  MaxWrites = {w}
  MaxFaults = {f}
  MaxSyncs = {s}
  MaxCells = {c}
SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Readable CrashSafe PowerSafe Mapped IdsInPage
{props}
CHECK_DEADLOCK FALSE
"""


def file_model(ctx):
    """the algorithm of the file store has the properties, and refines the contract, for all histories within bounds"""
    runs = [dict(ps=4, ls=1, chunk=2, w=3, f=2, s=1, c=16, props="PROPERTIES Refines")]
    if not ctx.quick:
        runs = [
            dict(ps=4, ls=1, chunk=2, w=4, f=2, s=1, c=20, props="PROPERTIES Refines"),
            dict(ps=6, ls=2, chunk=3, w=3, f=2, s=2, c=24, props="PROPERTIES Refines"),
            dict(ps=5, ls=1, chunk=5, w=4, f=2, s=1, c=24, props=""),
        ]
    for b in runs:
        r = ctx.tlc("file", "PagedFile", FILE.format(**b), timeout=3000)
        if not r.ok:
            raise ToolError("the model of the file store does not have its properties: " + r.trace[:2000])
        ctx.cov["states"] += r.distinct
        ctx.cov["transitions"] += r.generated
        ctx.step(step="model", what="PagedFile: all writes, failures, crashes, losses of power; refines BlobStore", bounds=b, states=r.distinct, transitions=r.generated)
        ctx.log("file model", r.distinct, r.generated)


def run(ctx, name, args, seconds):
    d = ctx.dir(name)
    st, o, e = ctx.rdx(args + ["--out", d], seconds + 120)
    if st != "ok":
        abandoned(ctx, d, args, st, e)
    stats = json.load(open(os.path.join(d, "stats.json")))
    ctx.log(name, stats)
    for what in ["suspects", "samples"]:
        p = os.path.join(d, what + ".ndjson")
        bad = judge(ctx, what, p, module="TraceStore", cfg=STORE)
        if bad:
            j = json.loads(open(p).read().splitlines()[bad[0] - 1])
            ctx.violation(f"an execution of the store is not a behaviour of the specification: {bad[1][:1500]}", {"trace": j, "tlc": bad[1], "command": args})
    lines = open(os.path.join(d, "samples.ndjson")).read().splitlines()
    if stats["suspects"] == 0 and not lines:
        raise ToolError("no executions")
    ctx.sample(lines[ctx.rng.randrange(len(lines))][:1500])
    return stats, len(lines)


def abandoned(ctx, d, args, st, detail):
    profile = args[args.index("--profile") + 1]
    for t in range(8):
        p = os.path.join(d, f"current-{t}")
        b = open(p, "rb").read() if os.path.exists(p) else b""
        if len(b) < 16 or not any(b[:8]):
            continue
        s = int.from_bytes(b[:8], "little")
        if "--plans" in args:
            ops = json.loads(open(args[args.index("--plans") + 1]).read().splitlines()[int.from_bytes(b[8:16], "little")])
            a = ["store", "--profile", profile, "--traceseed", s, "--plan", json.dumps(ops), "--ps", args[args.index("--ps") + 1]]
        else:
            a = ["store", "--profile", profile, "--traceseed", s]
        st1, o, e = ctx.rdx(a, 60)
        if st1 == "ok":
            continue
        evs = [json.loads(l) for l in o.splitlines() if l.startswith('{"op"')]
        p = os.path.join(d, "abandoned.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps({"profile": profile, "seed": str(s), "ev": evs + [{"op": st1, "st": st1}]}) + "\n")
        bad = judge(ctx, "abandoned", p, module="TraceStore", cfg=STORE)
        ctx.violation(f"the code did not return from an operation ({st1}): {bad[1][:800]}", {"trace": evs, "command": a, "detail": e[-500:]})
    ctx.violation(f"the code did not survive a run of generated operations ({st}, not reproduced in isolation)", {"detail": detail[-1000:], "command": args})


def plans(ctx):
    """every sequence of writes at the places where pages end"""
    for ps, n in [(8, 3), (16, 3), (32, 3)] if ctx.quick else [(8, 5), (16, 4), (24, 4), (32, 4), (64, 4)]:
        d = ctx.dir(f"plans-{ps}")
        f = os.path.join(d, "plans.nd")
        r = ctx.tlc("plans", "StorePlans", "INIT Init\nNEXT Next\n", env={"PS": ps, "N": n, "OUT": f}, workers=1)
        if not r.ok:
            raise ToolError("StorePlans failed")
        stats, k = run(ctx, f"plans-{ps}", ["stores", "--profile", ctx.prop, "--seed", ctx.seed, "--plans", f, "--ps", ps, "--seconds", 30 if ctx.quick else 300, "--sample", 600 if ctx.quick else 4000], 300)
        ctx.cov["transitions"] += stats["planned"]
        ctx.step(step="plans", page_size=ps, length=n, planned=stats["planned"], executed=stats["traces"], views=stats["views"], checked_by_tlc=k, ids_not_predicted=stats["id_drift"])
        os.unlink(f)


def giant(ctx):
    """a blob whose length does not fit into 32 bits"""
    st, o, e = ctx.rdx(["giant"], 300)
    if st != "ok":
        ctx.violation(f"the code did not survive the write of a blob of more than 4 GB ({st})", {"detail": e[-1000:], "command": ["giant"]})
    if not o.strip():
        ctx.step(step="giant", skipped="no memory")
        return
    p = os.path.join(ctx.dir("giant"), "giant.ndjson")
    with open(p, "w") as f:
        f.write(o)
    bad = judge(ctx, "giant", p, module="TraceStore", cfg=STORE)
    if bad:
        ctx.violation(f"a blob of more than 4 GB is neither rejected nor read back: {bad[1][:1500]}", {"trace": json.loads(o), "tlc": bad[1], "command": ["giant"]})
    ctx.step(step="giant", bytes=2**32 + 1, operations=len(json.loads(o)["ev"]))


def store_traces(ctx):
    seconds = 15 if ctx.quick else 300
    stats, k = run(ctx, "stores", ["stores", "--profile", ctx.prop, "--seed", ctx.seed, "--count", 60000 if ctx.quick else 3000000, "--sample", 2500 if ctx.quick else 30000, "--seconds", seconds], seconds)
    ctx.step(step="traces", executions=stats["traces"], operations=stats["events"], injected_faults=stats["faults"],
             states_of_the_file_opened=stats["views"], checked_by_tlc=k, ids_not_predicted_by_the_model=stats["id_drift"])
    ctx.assumptions[:] = [
        "a crash of the process leaves the file as the completed system calls left it; write calls in the first 512 bytes (header) are not split",
        "a loss of power keeps every byte as of some moment since the last fsync or fdatasync that returned successfully; the first 4096 bytes change in sectors of 512, the others also in smaller pieces; lost parts read as zeros",
    ]
