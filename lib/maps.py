"""Checks of the tree operations: laws, bounded model, vectors and traces."""
import json, os, subprocess, random, re
from core import *

LAWS = """CONSTANTS
  U <- {u}
  V = {v}
  Arg <- {arg}
INIT Init
NEXT Next
INVARIANTS Laws{prop}
CHECK_DEADLOCK FALSE
"""


def laws(ctx, prop=None):
    """the specification has the property, for all pairs of maps over a small universe"""
    prop = prop or ctx.prop
    u, v, arg = ("U4", "{0, 1}", "Arg4") if ctx.quick else ("U5", "{0, 1, 2}", "Arg5")
    r = ctx.tlc("laws", "Laws", LAWS.format(u=u, v=v, arg=arg, prop=prop))
    if not r.ok:
        raise ToolError("the specification does not satisfy its own law: " + r.trace[:2000])
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    ctx.step(step="laws", what=f"Laws{prop} for all pairs of maps", universe=u, values=v, states=r.distinct)
    ctx.log("laws", r.distinct)


MC = """CONSTANTS
  Handles = {{1, 2}}
  Iters = {{1}}
  Vals = {{1}}
  K <- KSmall
  V = {v}
  MaxVer = 1
SPECIFICATION Spec
CONSTRAINT Bound
VIEW View
INVARIANTS TypeOK LoadExact
PROPERTIES VersionsImmutable Isolation SnapshotsStable
CHECK_DEADLOCK FALSE
"""


def bounded_model(ctx):
    v = "{0}" if ctx.quick else "{0, 1}"
    r = ctx.tlc("model", "MCMap", MC.format(v=v))
    if not r.ok:
        raise ToolError("the specification does not have its own properties: " + r.trace[:2000])
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    ctx.step(step="model", what="RadixMap, all programs over 2 trees, 1 iterator, 1 value, 1 version", values=v, states=r.distinct, transitions=r.generated)
    ctx.log("model", r.distinct, r.generated)


NODES = """CONSTANTS
  U <- {u}
  V = {v}
  Big = {{1}}
  Long = 2
  Fuel = {fuel}
INIT Init
NEXT Next
INVARIANTS {inv}
CHECK_DEADLOCK FALSE
"""


def node_model(ctx, *inv):
    """the algorithms on nodes do what MapOps says, whatever is in the store and whichever read fails"""
    fuel = "{0, 1, 2, 3, 4, 5, 6, 7}"
    runs = [dict(u="U3", v="{0, 1}", fuel=fuel), dict(u="U4b", v="{1}", fuel=fuel)]
    if not ctx.quick:
        runs = [dict(u="U4", v="{0, 1}", fuel=fuel), dict(u="U4b", v="{0, 1}", fuel=fuel), dict(u="U5", v="{1}", fuel=fuel), dict(u="U3", v="{0, 1, 2}", fuel=fuel)]
    for b in runs:
        r = ctx.tlc("nodes", "RadixTreeMC", NODES.format(inv=" ".join(inv), **b), timeout=3000)
        if not r.ok:
            raise ToolError("the algorithms of RadixTree do not do what MapOps says: " + r.trace[:2000])
        ctx.cov["states"] += r.distinct
        ctx.cov["transitions"] += r.generated
        ctx.step(step="model", what="RadixTree: %s for all pairs of trees, forms and failing reads" % ", ".join(inv), bounds=b, states=r.distinct, transitions=r.generated)
        ctx.log("node model", " ".join(inv), r.distinct, r.generated)


# ---------------------------------------------------------------- vectors
BRANCHY = [[], [0], [0, 0], [0, 1], [1], [1, 0], [1, 1]]
CHAIN = [[], [0], [0, 0], [0, 0, 0], [0, 0, 1], [0, 0, 0, 1], [1, 0, 0]]
WIDE = [[0], [1], [2], [0, 0], [0, 1], [0, 2], [1, 0, 0]]


def random_universe(rng, n):
    keys = set()
    while len(keys) < n:
        if keys and rng.random() < 0.6:
            k = list(rng.choice(sorted(keys)))
            if rng.random() < 0.4 and k:
                k = k[: rng.randrange(len(k) + 1)]
            k += [rng.randrange(3) for _ in range(rng.randrange(1, 3))]
        else:
            k = [rng.randrange(3) for _ in range(rng.randrange(0, 4))]
        if len(k) <= 5:
            keys.add(tuple(k))
    return [list(k) for k in sorted(keys)]


def vectors(ctx, kinds, eq=False, detonly=False, attonly=False, universes=None, reps=None):
    n = 7 if ctx.quick else 8
    if universes is None:
        universes = [BRANCHY, CHAIN] if ctx.quick else [BRANCHY, CHAIN, WIDE]
        for _ in range(1 if ctx.quick else 4):
            universes.append(random_universe(ctx.rng, 6 if ctx.quick else n))
    for kind in kinds:
        us = universes
        if kind == "table":
            # every set of accepted values: smaller universes
            us = [u if len(u) <= 6 else u[:5] + u[6:] if ctx.quick else u for u in universes]
            us = [u[:7] for u in us]
        if kind == "group":
            us = [u[:7] for u in us]
        for i, u in enumerate(us):
            one_vectors(ctx, kind, u, eq, detonly, attonly, reps or (2 if ctx.quick else 5), i)


def one_vectors(ctx, kind, u, eq, detonly, attonly, reps, i):
    d = ctx.dir(f"vec-{kind}-{i}")
    up = os.path.join(d, "universe.json")
    json.dump(u, open(up, "w"))
    runs = []
    shards = 8
    for s in range(shards):
        runs.append(
            ctx.tlc(
                f"vec-{kind}", "Vectors", "INIT Init\nNEXT Next\n",
                env={"UNIVERSE": up, "KIND": kind, "SHARD": s, "SHARDS": shards, "OUT": os.path.join(d, f"{s}.nd")},
                workers=1, mem="3g", background=True,
            )
        )
    f = os.path.join(d, "all.nd")
    with open(f, "w") as o:
        for s, r in enumerate(runs):
            if not r.wait().ok:
                raise ToolError("Vectors failed")
            o.write(open(os.path.join(d, f"{s}.nd")).read())
            os.unlink(os.path.join(d, f"{s}.nd"))
    lines = sum(1 for _ in open(f))
    ctx.cov["transitions"] += lines
    args = ["vectors", "--kind", kind, "--file", f, "--universe", up, "--seed", ctx.seed * 100 + i, "--reps", reps,
            "--eq", int(eq), "--detonly", int(detonly), "--attonly", int(attonly), "--out", d]
    st, o, e = ctx.rdx(args, 600)
    if st != "ok":
        # do it again: what was in progress?
        cur = {}
        for t in range(8):
            p = os.path.join(d, f"current-{t}")
            if os.path.exists(p):
                cur[t] = open(p, errors="replace").read().strip()
        allv = open(f).read().splitlines()
        vs = [allv[int(c)][:4000] for c in cur.values() if c.isdigit() and int(c) < len(allv)]
        ctx.violation(
            f"replaying {kind} vectors: the code did not return ({st})",
            {"how": st, "detail": e[-500:], "universe": u, "in_progress": vs, "command": args},
        )
    stats = json.load(open(os.path.join(d, "vstats.json")))
    if stats["fails"]:
        fails = [json.loads(l) for l in open(os.path.join(d, "fails.ndjson"))]
        allv = open(f).read().splitlines()
        v = fails[0].get("vector", -1)
        ctx.violation(
            f"{kind} vector: specification and code differ: {json.dumps(fails[0])[:1500]}",
            {"universe": u, "fails": fails[:5], "vector": json.loads(allv[v]) if v >= 0 else None, "command": args},
        )
    ctx.cov["traces_validated_against_impl"] += stats["vectors"]
    ctx.step(step="vectors", kind=kind, universe=u, vectors=stats["vectors"], operations_replayed=stats["operations"])
    rnd = random.Random(ctx.seed)
    with open(f) as fh:
        for k, l in enumerate(fh):
            if k == min(lines - 1, 37 + rnd.randrange(50)):
                ctx.sample({"vector": kind, "universe": u, "expected": l.strip()[:900]})
                break
    os.unlink(f)
    ctx.log("vectors", kind, i, stats)


# ---------------------------------------------------------------- traces
TRACE = """CONSTANTS
  Handles = {1,2,3,4,5,6}
  Iters = {1,2,3}
  Vals = {1,2,3}
SPECIFICATION TraceSpec
INVARIANT Conforms
ALIAS Alias
CHECK_DEADLOCK TRUE
"""


def judge(ctx, name, path, module="TraceMap", cfg=TRACE, mem="8g", field="t"):
    """lets TLC check a file of executions; returns (line number, TLC output) of one it rejects"""
    n = sum(1 for _ in open(path))
    if n == 0:
        return None
    r = ctx.tlc("trace-" + name, module, cfg, env={"TRACE": path}, mem=mem)
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    if r.ok:
        ctx.cov["traces_validated_against_impl"] += n
        return None
    ts = re.findall(r"/\\ %s = (\d+)" % field, r.trace) or re.findall(r"\b%s \|-> (\d+)" % field, r.trace)
    if not ts:
        raise ToolError("cannot read the verdict of TLC: " + r.trace[:1000])
    states = re.split(r"\nState \d+: ", r.trace)
    return int(ts[-1]), r.bad + "\n" + states[-1][:6000]


EMPTY_EVENT = {"fault": False, "res": [], "calls": [], "after": 0, "obs": []}


def abandoned(ctx, profile, d, st, detail):
    """the code crashed or did not return: find the execution and hand it to TLC"""
    seeds = set()
    for t in range(8):
        p = os.path.join(d, f"current-{t}")
        if os.path.exists(p):
            b = open(p, "rb").read()
            if len(b) >= 8 and any(b[:8]):
                seeds.add(int.from_bytes(b[:8], "little"))
    if os.path.exists(os.path.join(d, "hang")):
        seeds = {int(open(os.path.join(d, "hang")).read())} | seeds
    for s in sorted(seeds):
        st1, o, e = ctx.rdx(["one", "--profile", profile, "--traceseed", s], 60)
        if st1 == "ok":
            continue
        evs, begun = [], None
        for l in o.splitlines():
            if l.startswith("begin "):
                begun = l[6:]
            elif l.startswith("end "):
                evs.append(json.loads(l[4:]))
                begun = None
        if begun is None:
            continue
        ev = json.loads(begun)
        ev.update(EMPTY_EVENT)
        ev["st"] = st1
        evs.append(ev)
        p = os.path.join(d, "abandoned.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps({"profile": profile, "seed": str(s), "ev": evs}) + "\n")
        bad = judge(ctx, "abandoned", p)
        if bad:
            ctx.violation(
                f"the code did not return from an operation ({st1}): {begun[:500]}",
                {"trace": json.loads(open(p).read()), "tlc": bad[1], "detail": e[-500:],
                 "command": ["one", "--profile", profile, "--traceseed", str(s)]},
            )
    ctx.violation(
        f"the code did not survive a run of generated operations ({st}, not reproduced in isolation)",
        {"detail": detail[-1000:], "seeds": [str(s) for s in seeds], "profile": profile},
    )


def chain(ctx):
    """keys that are prefixes of each other, in one line"""
    n = 120 if ctx.quick else 200
    args = ["chain", "--n", n, "--seed", ctx.seed]
    st, o, e = ctx.rdx(args, 120)
    evs = [json.loads(l[4:]) for l in o.splitlines() if l.startswith("end ")]
    begun = [l[6:] for l in o.splitlines() if l.startswith("begin ")]
    if st != "ok":
        if len(begun) != len(evs) + 1:
            raise ToolError("chain: " + e)
        evs.append({**json.loads(begun[-1]), **EMPTY_EVENT, "st": st})
    p = os.path.join(ctx.dir("chain"), "chain.ndjson")
    with open(p, "w") as f:
        f.write(json.dumps({"ev": evs}) + "\n")
    bad = judge(ctx, "chain", p)
    if bad:
        ctx.violation(
            f"a tree of {n} keys that are prefixes of each other does not behave like the specification: {bad[1][:800]}",
            {"tlc": bad[1], "detail": e[-500:], "command": args},
        )
    # how it ends when there are very many of them: see known-findings.txt
    st, o, e = ctx.rdx(["deep", "--n", 20000], 120)
    ctx.step(step="chain", keys=n, operations=len(evs), twenty_thousand="overflows the stack" if "overflowed its stack" in e else st)
    ctx.log("chain", len(evs), st)


def traces(ctx, profile=None, count=None, sample=None, seconds=None):
    profile = profile or ctx.prop
    count = count or (60000 if ctx.quick else 2000000)
    sample = sample or (2000 if ctx.quick else 20000)
    seconds = seconds or (12 if ctx.quick else 240)
    d = ctx.dir("traces-" + profile)
    args = ["many", "--profile", profile, "--seed", ctx.seed, "--count", count, "--sample", sample, "--seconds", seconds, "--out", d]
    st, o, e = ctx.rdx(args, seconds + 120)
    if st != "ok":
        abandoned(ctx, profile, d, st, e)
    stats = json.load(open(os.path.join(d, "stats.json")))
    ctx.log("traces", profile, {k: v for k, v in stats.items() if k != "ops"})
    for name in ["suspects", "samples"]:
        p = os.path.join(d, name + ".ndjson")
        bad = judge(ctx, name, p)
        if bad:
            l = open(p).read().splitlines()[bad[0] - 1]
            j = json.loads(l)
            ev = j["ev"][-1] if name == "suspects" else {}
            ctx.violation(
                f"an execution of the code is not a behaviour of the specification: {bad[1][:1500]}",
                {"trace": j, "tlc": bad[1], "last_event": ev},
            )
    lines = open(os.path.join(d, "samples.ndjson")).read().splitlines()
    ctx.sample(lines[ctx.rng.randrange(len(lines))][:1500])
    ctx.step(step="traces", profile=profile, executions=stats["traces"], operations=stats["events"], injected_faults=stats["faults"],
             checked_by_tlc=len(lines), screened_only=stats["traces"] - len(lines), operations_by_kind=stats["ops"])
    ctx.log("checked by TLC", len(lines))
