"""Checks of blobs and slices: model, recorded programs."""
import json, os
from core import *
from maps import judge

MODEL = """CONSTANT Slots = {slots}
SPECIFICATION Spec
INVARIANTS Valid SliceBytes Nested RefOfSlice Ordered
PROPERTY Stable
CHECK_DEADLOCK FALSE
"""
TRACE = """CONSTANT Slots = {1, 2, 3, 4}
SPECIFICATION TraceSpec
INVARIANT Valid
ALIAS Alias
CHECK_DEADLOCK TRUE
"""


def model(ctx):
    r = ctx.tlc("model", "Blobs", MODEL.format(slots="{1, 2, 3}"), timeout=3000)
    if not r.ok:
        raise ToolError("the model of blobs does not have its properties: " + r.trace[:2000])
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    ctx.step(step="model", what="Blobs: slices of slices are slices, nothing changes under a view, the order is total", states=r.distinct)
    ctx.log("model of blobs", r.distinct)


def traces(ctx, count, seconds, batches=1):
    for b in range(batches):
        d = ctx.dir("blobs")
        st, o, e = ctx.rdx(["blobs", "--seed", ctx.seed * 100 + b, "--count", count, "--seconds", seconds, "--out", d], seconds + 120)
        if st != "ok":
            abandoned(ctx, d, st, e)
        stats = json.load(open(os.path.join(d, "stats.json")))
        p = os.path.join(d, "samples.ndjson")
        bad = judge(ctx, "blobs", p, module="TraceBlobs", cfg=TRACE)
        lines = open(p).read().splitlines()
        if bad:
            j = json.loads(lines[bad[0] - 1])
            ctx.violation(f"a use of blobs is not a behaviour of the specification: {bad[1][:1500]}",
                          {"trace": j, "tlc": bad[1], "command": ["blob", "--traceseed", j["seed"]]})
        if stats["traces"] == stats["grids"]:
            raise ToolError("no executions")
        ctx.sample(min(lines[stats["grids"]:][:50], key=len)[:1500])
        ctx.step(step="programs", executions=stats["traces"], grids_of_slices=stats["grids"], operations=stats["events"], checked_by_tlc=len(lines))
        ctx.log("blobs", stats)


def abandoned(ctx, d, st, detail):
    """the process ended, or an operation did not return"""
    p = os.path.join(d, "current-0")
    b = open(p, "rb").read() if os.path.exists(p) else b""
    if len(b) >= 8 and any(b[:8]):
        a = ["blob", "--traceseed", int.from_bytes(b[:8], "little")]
        st1, o, e = ctx.rdx(a, 60)
        if st1 != "ok":
            evs = [json.loads(l[4:]) for l in o.splitlines() if l.startswith("end {")]
            # whatever operation it was: none of them ends like this
            evs.append({"op": "world", "st": st1, "obs": evs[-1]["obs"] if evs else [[]] * 4})
            q = os.path.join(d, "abandoned.ndjson")
            with open(q, "w") as f:
                f.write(json.dumps({"seed": str(a[-1]), "ev": evs}) + "\n")
            bad = judge(ctx, "abandoned", q, module="TraceBlobs", cfg=TRACE)
            if bad:
                ctx.violation(f"a program that uses blobs did not end ({st1})", {"trace": evs, "command": a, "detail": e[-1000:], "tlc": bad[1]})
    ctx.violation(f"the code did not survive a run of programs that use blobs ({st}, not reproduced)", {"detail": detail[-1000:]})
