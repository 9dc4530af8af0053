#!/usr/bin/env python3
"""check.py <property>: decides one property of radixdb; see DESIGN.md"""
import os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from core import main
from maps import *
import stores, stored, conc, heap, blobs, cache


def simple(kinds, *inv):
    def plan(ctx):
        laws(ctx)
        node_model(ctx, *inv)
        vectors(ctx, kinds)
        traces(ctx)
        optimised(ctx, traces)
    return plan


def optimised(ctx, *steps):
    """the same with the code as users build it, where overflows wrap and debug assertions are gone"""
    if ctx.quick:
        return
    ctx.build(release=True)
    ctx.step(step="build", what="optimised, without checks for overflow and debug assertions")
    for s in steps:
        s(ctx)


def c01(ctx):
    simple(["edit"], "QueriesOK", "EditsOK")(ctx)
    chain(ctx)


def c07(ctx):
    laws(ctx)
    node_model(ctx, "QueriesOK", "EditsOK", "CombineOK", "PruneOK", "NewOK")
    us = [BRANCHY, CHAIN] if ctx.quick else [BRANCHY, CHAIN, WIDE, random_universe(ctx.rng, 8)]
    vectors(ctx, ["combine", "prune"], eq=True, detonly=True, universes=us[: 1 if ctx.quick else 9])
    vectors(ctx, ["edit"], eq=True, universes=us)
    traces(ctx)
    optimised(ctx, traces)


def c08(ctx):
    bounded_model(ctx)
    vectors(ctx, ["combine"], universes=[BRANCHY[:6]] if ctx.quick else None)
    traces(ctx)
    optimised(ctx, traces)


def c09(ctx):
    bounded_model(ctx)
    vectors(ctx, ["edit"], attonly=True)
    traces(ctx)
    optimised(ctx, traces)


def c10(ctx):
    node_model(ctx, "QueriesOK", "CombineOK", "PruneOK", "NewOK")
    us = [BRANCHY[:6], random_universe(ctx.rng, 6)] if ctx.quick else None
    vectors(ctx, ["combine", "prune", "pred", "group", "query", "edit"], attonly=True, universes=us)
    traces(ctx)
    optimised(ctx, traces)


def c15(ctx):
    bounded_model(ctx)
    node_model(ctx, "EditsOK", "CombineOK", "PruneOK", "NewOK")
    traces(ctx, count=120000 if ctx.quick else 5000000, seconds=25 if ctx.quick else 400)
    optimised(ctx, traces)


def store_plan(ctx):
    stores.file_model(ctx)
    stores.plans(ctx)
    stores.store_traces(ctx)
    optimised(ctx, stores.store_traces)


def c12(ctx):
    store_plan(ctx)
    stores.giant(ctx)
    # what is not a tree is not opened
    stored.traces(ctx, 600 if ctx.quick else 6000, 1)


def stored_plan(ctx):
    stored.format_laws(ctx)
    stored.plans(ctx)
    stored.traces(ctx)
    optimised(ctx, stored.traces)


def c16(ctx):
    conc.models(ctx)
    s = 25 if ctx.quick else 400

    def run(ctx):
        conc.traces(ctx, "stores", 40000 if ctx.quick else 10**6, s, 4000 if ctx.quick else 40000)
        conc.traces(ctx, "trees", 20000 if ctx.quick else 10**6, s, 1000 if ctx.quick else 10000)

    run(ctx)
    optimised(ctx, run)
    ctx.assumptions[:] = [
        "threads change places where memory is allocated or freed, at system calls, and where they wait for or wake each other; a tenth of the executions runs freely with random delays",
    ]


def c19(ctx):
    n = ctx.quick
    conc.models(ctx, [("SharedNodes", conc.NODES, b) for b in
                      ([dict(threads="{1}", depth=2, edits=4), dict(threads="{1, 2}", depth=2, edits=3)] if n else
                       [dict(threads="{1}", depth=3, edits=4), dict(threads="{1, 2}", depth=3, edits=2), dict(threads="{1, 2, 3}", depth=2, edits=2)])])

    def run(ctx):
        for what, count, s in [("trees", 40000, 20), ("panics", 40000, 15), ("stores", 10000, 8), ("stored", 10000, 8), ("blobs", 10000, 8)]:
            heap.traces(ctx, what, count if n else count * 50, s if n else s * 15, 600 if n else 6000)

    run(ctx)
    optimised(ctx, run)
    ctx.assumptions[:] = [
        "reads of freed memory are noticed in the executions in which every block ends at a guard page, writes to it also in the others, when the memory is next looked at",
        "allocations by other parts of the process than the threads that use the interface are not followed",
    ]


def c20(ctx):
    n = ctx.quick
    blobs.model(ctx)
    blobs.traces(ctx, 6000 if n else 20000, 20 if n else 60, 1 if n else 10)
    # the same programs with every block at a guard page or never used again
    heap.traces(ctx, "blobs", 10000 if n else 500000, 8 if n else 200, 600 if n else 6000)
    # where overflows are not noticed
    ctx.build(release=True)
    blobs.traces(ctx, 4000 if n else 20000, 10 if n else 60, 1 if n else 10)
    ctx.assumptions[:] = [
        "callers of Blob::owned_new keep the promise that the owner keeps the bytes where they are",
    ]


def c18(ctx):
    cache.build(ctx)
    cache.models(ctx)
    cache.plans(ctx)
    cache.traces(ctx)
    ctx.assumptions[:] = [
        "the stand-ins for the browser (/verif/browser/stubs) do what browsers do: entries of a cache are put, deleted and listed one at a time, by their URL, in the order in which they were put",
        "a process that goes away leaves the cache as it was after one of the changes it made",
        "file names do not have the segments '.' and '..'",
    ]


PLANS = {
    "C01": c01,
    "C02": simple(["query"], "QueriesOK"),
    "C03": simple(["group"], "QueriesOK"),
    "C04": simple(["combine"], "CombineOK", "NewOK"),
    "C05": simple(["pred"], "PredsOK"),
    "C06": simple(["prune", "table"], "PruneOK"),
    "C07": c07,
    "C08": c08,
    "C09": c09,
    "C10": c10,
    "C11": stored_plan,
    "C12": c12,
    "C13": store_plan,
    "C14": store_plan,
    "C15": c15,
    "C16": c16,
    "C17": stored_plan,
    "C18": c18,
    "C19": c19,
    "C20": c20,
}

if __name__ == "__main__":
    main(PLANS)
