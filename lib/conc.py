"""Checks of concurrent use: models of locking and sharing, recorded executions under a scheduler."""
import glob, json, os
from core import *
from maps import judge

SHARED = """CONSTANTS
  Threads = {}
  Ids = {}
  Toks = {}
SPECIFICATION TraceSpec
ALIAS Alias
CHECK_DEADLOCK TRUE
"""
LOCKED = """CONSTANTS
  Threads = {threads}
  Ids = {ids}
  Toks = {{0, 1}}
  Variant = "none"
SPECIFICATION Spec
INVARIANTS Written OwnIds
PROPERTIES Refines Kept
CHECK_DEADLOCK FALSE
"""
NODES = """CONSTANTS
  Threads = {threads}
  Depth = {depth}
  Vals = {{0, 1}}
  MaxNodes = 10
  MaxEdits = {edits}
  Variant = "none"
SPECIFICATION Spec
INVARIANTS Alone NoDangling NoLeak
CHECK_DEADLOCK FALSE
"""


def models(ctx, runs=None):
    default = [("LockedStore", LOCKED, dict(threads="{1, 2}", ids="{1, 2, 3}")),
            ("SharedNodes", NODES, dict(threads="{1, 2}", depth=2, edits=3)),
            ("SharedNodes", NODES, dict(threads="{1, 2, 3}", depth=2, edits=1))]
    if not ctx.quick:
        default = [("LockedStore", LOCKED, dict(threads="{1, 2, 3}", ids="{1, 2, 3, 4}")),
                ("SharedNodes", NODES, dict(threads="{1, 2}", depth=3, edits=2)),
                ("SharedNodes", NODES, dict(threads="{1, 2, 3}", depth=3, edits=1))]
    for m, cfg, b in runs or default:
        r = ctx.tlc("model", m, cfg.format(**b), timeout=3000)
        if not r.ok:
            raise ToolError(f"the model {m} does not have its properties: " + r.trace[:2000])
        ctx.cov["states"] += r.distinct
        ctx.cov["transitions"] += r.generated
        ctx.step(step="model", what={"LockedStore": "critical sections of the stores, all interleavings; refines SharedStore",
                                     "SharedNodes": "counted nodes shared by trees of different threads, all interleavings"}[m], bounds=b, states=r.distinct, transitions=r.generated)
        ctx.log("model", m, r.distinct)


def traces(ctx, what, count, seconds, sample):
    module, kw = ("TraceShared", dict(cfg=SHARED, field="n")) if what == "stores" else ("TraceMap", {})
    d = ctx.dir("conc-" + what)
    args = ["conc", "--what", what, "--seed", ctx.seed, "--count", count, "--seconds", seconds, "--sample", sample, "--out", d]
    st, o, e = ctx.rdx(args, seconds + 120)
    suspects = merged(d, "suspects")
    if st != "ok" and not suspects:
        abandoned(ctx, what, d, module, kw, st, e)
    for name in ["suspects", "samples"]:
        lines = merged(d, name)
        p = os.path.join(d, name + ".ndjson")
        with open(p, "w") as f:
            f.writelines(l + "\n" for l in lines)
        bad = judge(ctx, f"{what}-{name}", p, module=module, **kw)
        if bad:
            j = json.loads(lines[bad[0] - 1])
            ctx.violation(f"a concurrent execution ({what}) is not a behaviour of the specification: {bad[1][:1500]}", {"trace": j, "tlc": bad[1], "command": ["conctrial", "--what", what, "--traceseed", j["seed"]]})
    if st != "ok":
        abandoned(ctx, what, d, module, kw, st, e)
    tot = {}
    for f in glob.glob(os.path.join(d, "stats-*.json")):
        for k, v in json.load(open(f)).items():
            tot[k] = tot.get(k, 0) + v
    if not lines:
        raise ToolError("no executions")
    ctx.log("conc", what, tot, len(lines))
    ctx.sample(min(lines[:40], key=len)[:1500])
    ctx.step(step="threads", what=what, executions=tot["trials"], operations=tot["events"], scheduling_points=tot["points"], switches=tot["switches"],
             not_controlled=tot["uncontrolled"], checked_by_tlc=len(lines))


def merged(d, name):
    return [l for f in sorted(glob.glob(os.path.join(d, name + "-*.nd"))) for l in open(f).read().splitlines()]


def abandoned(ctx, what, d, module, kw, st, detail):
    """the code crashed or did not return"""
    for t in range(8):
        p = os.path.join(d, f"current-{t}")
        b = open(p, "rb").read() if os.path.exists(p) else b""
        if len(b) < 8 or not any(b[:8]):
            continue
        a = ["conctrial", "--what", what, "--traceseed", int.from_bytes(b[:8], "little")]
        for _ in range(3):
            st1, o, e = ctx.rdx(a, 40)
            if st1 != "ok":
                p = os.path.join(d, "abandoned.ndjson")
                if what == "stores":
                    ev = [{"t": 1, "e": "call", "op": "unknown", "st": st1, "id": 0, "tok": 0, "big": False}, {"t": 1, "e": "ret"}]
                else:
                    ev = [{"op": "unknown", "st": st1}]
                with open(p, "w") as f:
                    f.write(json.dumps({"kind": "mem", "seed": str(a[-1]), "ev": ev}) + "\n")
                bad = judge(ctx, "abandoned", p, module=module, **kw)
                ctx.violation(f"a concurrent execution did not end ({st1})", {"command": a, "detail": e[-1000:], "tlc": bad and bad[1]})
    ctx.violation(f"the code did not survive a run of concurrent executions ({st}, not reproduced)", {"detail": detail[-1000:]})
