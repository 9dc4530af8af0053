"""Checks of the use of memory: model of counted nodes, recorded allocations, uses and frees."""
import glob, json, os

from conc import merged
from core import *
from maps import judge

HEAP = """CONSTANT Blocks = {}
SPECIFICATION TraceSpec
INVARIANT Separate
ALIAS Alias
CHECK_DEADLOCK TRUE
"""


def traces(ctx, what, count, seconds, sample):
    d = ctx.dir("heap-" + what)
    args = ["heap", "--what", what, "--seed", ctx.seed, "--count", count, "--seconds", seconds, "--sample", sample, "--out", d]
    st, o, e = ctx.rdx(args, seconds + 120)
    suspects = merged(d, "suspects")
    if st != "ok" and not suspects:
        abandoned(ctx, what, d, st, e)
    for name in ["suspects", "samples"]:
        lines = merged(d, name)
        p = os.path.join(d, name + ".ndjson")
        with open(p, "w") as f:
            f.writelines(l + "\n" for l in lines)
        bad = judge(ctx, f"{what}-{name}", p, module="TraceHeap", cfg=HEAP)
        if bad:
            j = json.loads(lines[bad[0] - 1])
            ctx.violation(f"the use of memory in an execution ({what}) is not a behaviour of the specification: {bad[1][:1500]}",
                          {"trace": j, "tlc": bad[1], "command": ["heaptrial", "--what", what, "--traceseed", j["seed"]]})
    if st != "ok":
        abandoned(ctx, what, d, st, e)
    tot = {}
    for f in glob.glob(os.path.join(d, "stats-*.json")):
        for k, v in json.load(open(f)).items():
            tot[k] = tot.get(k, 0) + v
    if not lines:
        raise ToolError("no executions")
    ctx.log("heap", what, tot, len(lines))
    ctx.sample(min(lines[:40], key=len)[:1500])
    ctx.step(step="memory", what=what, executions=tot["trials"], operations=tot["events"], blocks=tot["blocks"], every_access_watched=tot["fenced"],
             checked_by_tlc=len(lines))


def abandoned(ctx, what, d, st, detail):
    """an access ended the process, or it did not return"""
    for t in range(8):
        p = os.path.join(d, f"current-{t}")
        b = open(p, "rb").read() if os.path.exists(p) else b""
        if len(b) < 8 or not any(b[:8]):
            continue
        a = ["heaptrial", "--what", what, "--traceseed", int.from_bytes(b[:8], "little")]
        st1, o, e = ctx.rdx(a, 60)
        if st1 == "ok":
            continue
        evs = [json.loads(l[4:]) for l in o.splitlines() if l.startswith("end {")]
        begun = [l for l in o.splitlines() if l.startswith("begin ")]
        if not evs or not evs[-1]["bad"]:
            evs.append({"op": st1, "h": [], "bad": [[st1, 0]]})
        p = os.path.join(d, "abandoned.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps({"what": what, "seed": str(a[-1]), "ev": evs}) + "\n")
        bad = judge(ctx, "abandoned", p, module="TraceHeap", cfg=HEAP)
        if bad:
            ctx.violation(f"an execution ({what}) did not end ({st1}): {evs[-1]['bad']} in {(begun or ['?'])[-1][:300]}",
                          {"trace": evs, "command": a, "detail": e[-1000:], "tlc": bad[1]})
    ctx.violation(f"the code did not survive a run of observed executions ({st}, not reproduced)", {"detail": detail[-1000:]})
