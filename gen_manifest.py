#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, sys
sys.path.insert(0, "lib")
NOTE = {
 "C01": "TLC proves the map laws for all maps over a small universe, all edits of those maps are replayed on the real tree in several byte encodings and representations, and random edit histories recorded from the real code are validated step by step against RadixMap. Assumes that behaviour depends on keys only through order and prefix relations and byte lengths (the encodings vary these).",
 "C02": "as C01, for every prefix query on every map over small universes, plus recorded histories.",
 "C03": "every map over small universes with every predicate on its branch points is replayed; recorded histories with named predicates are validated by TLC.",
 "C04": "every pair of maps over small universes with seven combiners, functional and in place, is replayed on the real code; recorded histories are validated by TLC including the calls of the combiner.",
 "C05": "every pair of maps over small universes with five predicates is replayed; recorded histories validated by TLC including the calls of the predicate.",
 "C06": "every pair of maps over small universes, with every set of accepted values, is replayed on the real code; recorded histories validated by TLC.",
 "C07": "results of all operations on small maps are compared (equality, is_leaf, prefix, value) with trees of the same content that were built differently; recorded histories with equality and shape events are validated by TLC.",
 "C08": "TLC checks on the bounded RadixMap model that no action changes another tree, iterator, value or version; recorded histories of the real code observe all trees, iterators and values that share structure after every operation and are validated by TLC.",
 "C09": "bounded model (versions immutable, loading exact) plus replay of all small maps in attached, reattached, loaded, partially loaded and re-persisted form over several stores, plus recorded histories validated by TLC.",
 "C10": "every operation on every pair of small maps in all stored representations over several stores (id lengths 4 to 126 bytes), plus recorded histories on attached trees validated by TLC.",
 "C11": "TLC checks on the Format specification that every encoding of a small map describes that map and that the documented examples are right; encodings written by TLC (short data stored indirectly, absent record sizes, superfluous nodes, many id lengths) are opened by the real code; every blob a recorded execution writes is decoded by TLC and must be the canonical, compact encoding of the content the specification predicts.",
 "C12": "recorded histories of the in-memory and the file store (all page sizes, lengths at page boundaries, reopening, malformed ids, blobs kept while the store is dropped) are validated by TLC against the BlobStore contract; TLC generated plans enumerate all short sequences of boundary lengths; the PagedFile model of the file layout is model checked and refines the contract.",
 "C13": "TLC checks the PagedFile model (every step of a write may be the last one or fail) and that it refines the BlobStore contract; the real store runs under system call interposition, every state its file goes through is opened again with the real code, read, written to and read again, and TLC validates what it finds; failing and partial file operations are injected, several crashes follow each other.",
 "C14": "as C13 with losses of power: the file after the loss is an arbitrary mixture (per sector or smaller piece, and size) of its states since the last fsync that succeeded; TLC validates that everything synced is found.",
 "C16": "TLC checks that the locking of the stores refines the sequential contract and that counted nodes keep trees of different threads apart, for all interleavings of the models; the real stores and trees run with two to four threads under a scheduler of our own that decides at every allocation, file operation and futex call which thread goes on, and TLC searches, for every recorded execution, an order of the calls that the SharedStore specification allows, and validates the history of each thread's trees against RadixMap on its own.",
 "C18": "TLC checks a model of the chunks that make up a file in the browser's cache, with every operation cut short anywhere, twice, and laws of the contents; the crate of /repo/browser is compiled unchanged against stand-ins for the browser, runs every short sequence of writes and truncations (written by TLC) and random programs with failing calls, every state of the cache on the way is opened by a fresh instance, written to and opened again, and TLC validates the recorded executions against CacheFiles (the paging file: BlobStore).",
 "C19": "TLC checks for all interleavings of a model of counted nodes that none dangles, leaks or is freed twice; generated programs on trees, values, iterators, blobs and stores (also with panics in callbacks, failing stores and malformed blobs) run on the real code with an allocator of our own, in part with every block at a guard page; TLC validates the recorded sequences of allocations, uses and frees against the Heap specification, by which all is freed once and not used afterwards.",
 "C20": "TLC checks the model of views into memory (slices of slices, stability, total order); all slices of small blobs and of their slices, and generated programs that make blobs from fourteen kinds of memory, slice, compare, send and drop them while their origins change, are recorded with the bytes of all blobs after every operation and validated by TLC against Blobs, and their use of memory against Heap.",
 "C17": "every call to the store is recorded with its bytes; TLC decodes each persisted version, derives from it which blobs lie on, below and beside the path of each operation, and checks all reads and writes of the execution against that, also for trees loaded from encodings that TLC wrote.",
 "C15": "every recorded execution injects store failures (the n-th read or write of an operation fails, or one of the calls of its callback); TLC validates that the error is reported, that every key has its old or its new value and that the repeated operation gives the regular result.",
}
TECH = "TLA+ specification checked by TLC; replay of TLC generated vectors on the code and TLC validation of traces recorded from the code"
extra = json.load(open("manifest-extra.json")) if len(sys.argv) > 1 else {}
checks = [
    {
        "property": p,
        "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "technique": TECH,
        "level": "model_checking",
        "level_note": n,
    }
    for p, n in sorted(NOTE.items())
]
claimed = set(NOTE)
NA = {
}
PENDING = "planned: the specification of this part is still being written"
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
json.dump(
    {
        "version": 1,
        "setup_cmd": "cd harness && CARGO_TARGET_DIR=target cargo build --offline --locked && CARGO_TARGET_DIR=target cargo build --offline --locked --release && (cd ../browser && CARGO_TARGET_DIR=target cargo build --offline --locked || true)",
        "checks": checks,
        "not_applicable": [{"property": i, "reason": NA.get(i, PENDING)} for i in ids if i not in claimed],
    },
    open("MANIFEST.json", "w"),
    indent=1,
)
