#!/usr/bin/env python3
"""Changes of the specification that have to be noticed: each breaks an algorithm or a definition, and TLC has to
find that a property of the specification fails. Not a check; run by hand: tools/vacuity.py [module]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import maps, stores, stored, conc, blobs, cache
from core import JARS


def nodes(*inv):
    return maps.NODES.format(u="U4b", v="{1}", fuel="{0, 1, 2, 3, 4, 5}", inv=" ".join(inv))


def laws(p):
    return maps.LAWS.format(u="U4", v="{0, 1}", arg="Arg4", prop=p)


FILE = stores.FILE.format(ps=4, ls=1, chunk=2, w=3, f=2, s=1, c=16, props="PROPERTIES Refines")
LOCKED = conc.LOCKED.format(threads="{1, 2}", ids="{1, 2, 3}")
SHARED = conc.NODES.format(threads="{1, 2}", depth=2, edits=3)
FORMAT = stored.FORMAT.format(n=2)
MCMAP = maps.MC.format(v="{0}")
BLOBS = blobs.MODEL.format(slots="{1, 2, 3}")
CHUNKS = cache.CHUNKS.format(len=4, ops=3, breaks=2)
CHUNKS4 = cache.CHUNKS.format(len=3, ops=4, breaks=2)
FILES = cache.FILES
ALL = nodes("QueriesOK", "EditsOK", "CombineOK", "PruneOK", "NewOK", "PredsOK")

# module with the model, configuration, file to change, old text, new text
CHANGES = [
    # node level
    ("RadixTreeMC", ALL, "RadixTree", "ELSE [ok |-> FALSE, f |-> r.f, c |-> d \\o Tail(ac)]", "ELSE [ok |-> FALSE, f |-> r.f, c |-> d]"),
    ("RadixTreeMC", ALL, "RadixTree", "c == Canon(r.a, r.f)\n", "c == IF r.ok THEN Canon(r.a, r.f) ELSE r\n"),
    ("RadixTreeMC", ALL, "RadixTree", "b == IF merge THEN", "b == IF FALSE THEN"),
    ("RadixTreeMC", ALL, "RadixTree", "d == IF IsNil(r.a) THEN done ELSE done \\o <<r.a>>", "d == done \\o <<r.a>>"),
    ("RadixTreeMC", ALL, "RadixTree", "IF First(@[1]) < First(c.n) THEN @ \\o <<c.n>> ELSE <<c.n>> \\o @", "@ \\o <<c.n>>"),
    ("RadixTreeMC", ALL, "RadixTree", "ELSE IF same THEN down(Result(TRUE, c.f, [a EXCEPT !.v = None, !.vl = FALSE]))", "ELSE IF same THEN down(Result(TRUE, c.f, a))"),
    ("RadixTreeMC", ALL, "RadixTree", "IF op \\in {\"inner\", \"retain\"} THEN [a EXCEPT !.c = <<>>] ELSE a)", "a)"),
    ("RadixTreeMC", ALL, "RadixTree", "IF op \\in {\"inner\", \"retain\"} THEN done ELSE done \\o <<ac[1]>>", "IF op = \"inner\" THEN done ELSE done \\o <<ac[1]>>"),
    ("RadixTreeMC", ALL, "RadixTree", "IF r.ok THEN Node(SubSeq(a.p, 1, k), None, \"mem\", <<child>>) ELSE a]", "IF r.ok THEN Node(SubSeq(a.p, 1, k), a.v, \"mem\", <<child>>) ELSE a]"),
    ("RadixTreeMC", ALL, "RadixTree", "r == Then(Rd(a.vl, f), b.vl)\n    IN  Result(r.ok, r.f, IF r.ok THEN [a EXCEPT !.v = Combiner(g, a.v, b.v), !.vl = FALSE] ELSE a", "r == Then(Rd(a.vl, f), b.vl)\n    IN  Result(r.ok, r.f, IF r.ok THEN [a EXCEPT !.v = Combiner(g, a.v, b.v), !.vl = FALSE] ELSE [a EXCEPT !.v = None]"),
    ("RadixTreeMC", ALL, "RadixTree", "av == n = Len(a.p) /\\ HasValue(a)\n        bv == n = Len(b.p) /\\ HasValue(b)\n        take", "av == HasValue(a)\n        bv == n = Len(b.p) /\\ HasValue(b)\n        take"),
    ("RadixTreeMC", ALL, "RadixTree", "av /\\ (bv => Pred2(g, a.v, b.v))", "av /\\ ~bv"),
    ("RadixTreeMC", ALL, "RadixTree", "r.how = \"prefix\" \\/ (r.how", "(r.how"),
    ("RadixTreeMC", ALL, "RadixTree", "THEN <<[n EXCEPT !.p = here, !.pl = FALSE]>>", "THEN <<n>>"),
    ("RadixTreeMC", ALL, "RadixTree", "IN [ok |-> r.ok, f |-> r.f, n |-> [n EXCEPT !.p = Drop(@, k), !.pl = FALSE]]", "IN [ok |-> r.ok, f |-> r.f, n |-> n]"),
    # meaning of the operations
    ("Laws", laws("C01"), "MapOps", "IF j = k THEN v ELSE m[j]]", "IF j = k /\\ j \\notin DOMAIN m THEN v ELSE m[j]]"),
    ("Laws", laws("C01"), "MapOps", "Restrict(m, {k \\in DOMAIN m : ~Pref(p, k)})", "Restrict(m, {k \\in DOMAIN m : k = p \\/ ~Pref(p, k)})"),
    ("Laws", laws("C02"), "MapOps", "m[p \\o Drop(k, Len(s))]", "m[p \\o Drop(k, Len(s))] + 1"),
    ("Laws", laws("C02"), "MapOps", "MaxKey(DOMAIN m) IN", "MinKey(DOMAIN m) IN"),
    ("Laws", laws("C03"), "MapOps", "THEN Restrict(m, {h[i]})", "THEN Restrict(m, Below(m, h[i]))"),
    ("Laws", laws("C04"), "MapOps", "ELSE IF k \\notin DOMAIN a THEN b[k]", "ELSE IF k \\notin DOMAIN a THEN None"),
    ("Laws", laws("C05"), "MapOps", "k \\notin DOMAIN b \\/ Pred2(p, a[k], b[k])", "k \\in DOMAIN b /\\ Pred2(p, a[k], b[k])"),
    ("Laws", laws("C06"), "MapOps", "Covered(b, p, k) == \\E q \\in DOMAIN b : Pref(q, k)", "Covered(b, p, k) == \\E q \\in DOMAIN b : q = k"),
    ("Laws", laws("C07"), "MapOps", "IsLeaf(m) == Cardinality(DOMAIN m) <= 1", "IsLeaf(m) == Cardinality(DOMAIN m) <= 2"),
    # trees, clones, iterators, versions
    ("MCMap", MCMAP, "RadixMap", "Reattach(h)      == Att(h) /\\ ver' = Append(ver, [st", "Reattach(h)      == Att(h) /\\ ver' = Append(<<>>, [st"),
    ("MCMap", MCMAP, "RadixMap", "Attach(h, s, g)  == Det(h) /\\ Bind(g, \"att\", s, M(h))", "Attach(h, s, g)  == Det(h) /\\ tree' = [tree EXCEPT ![h].kind = \"att\", ![g] = tree[h]] /\\ UNCHANGED <<iter, val, ver>>"),
    # file
    ("PagedFile", FILE, "PagedFile", "/\\ pc' = \"len\"\n", "/\\ pc' = \"hdr\"\n"),
    ("PagedFile", FILE, "PagedFile", "IF n = 0\n              THEN", "IF TRUE\n              THEN"),
    ("PagedFile", FILE, "PagedFile", "Open(f, h) == /\\ hdr' = h /\\ file' = Resize(f, h)", "Open(f, h) == /\\ hdr' = h /\\ file' = f"),
    ("PagedFile", FILE, "PagedFile", "Open(f, h) == /\\ hdr' = h /\\ file' = Resize(f, h) /\\ lastId' = h", "Open(f, h) == /\\ hdr' = Len(f) /\\ file' = f /\\ lastId' = Len(f)"),
    ("PagedFile", FILE, "PagedFile", "/\\ snaps' = <<[f |-> file, h |-> hdr]>>\n        /\\ durable'", "/\\ snaps' = snaps\n        /\\ durable'"),
    ("PagedFile", FILE, "PagedFile", "Page(Len(file) + n + LS) # Page(Len(file))", "Page(Len(file) + n) # Page(Len(file))"),
    ("PagedFile", FILE, "PagedFile", "/\\ hdr' = Len(file) /\\ Note(file, hdr')\n          /\\ pc' = \"ret\"", "/\\ hdr' = Len(file) + 1 /\\ Note(file, hdr')\n          /\\ pc' = \"ret\""),
    # sharing
    ("LockedStore", LOCKED.replace('"none"', '"id before lock"'), "LockedStore", "", ""),
    ("LockedStore", LOCKED.replace('"none"', '"id after lock"'), "LockedStore", "", ""),
    ("LockedStore", LOCKED, "LockedStore", "/\\ last' = end\n", "/\\ last' = last\n"),
    ("LockedStore", LOCKED, "LockedStore", "IF i <= last /\\ i \\in DOMAIN file", "IF FALSE"),
    ("SharedNodes", SHARED.replace('"none"', '"in place"'), "SharedNodes", "", ""),
    ("SharedNodes", SHARED.replace('"none"', '"no count"'), "SharedNodes", "", ""),
    ("SharedNodes", SHARED, "SharedNodes", "/\\ rc' = [rc EXCEPT ![n] = @ - 1]", "/\\ rc' = [rc EXCEPT ![n] = IF last THEN 0 ELSE @]"),
    # format
    ("FormatLaws", FORMAT, "Format", "IdOf(f, n) == Drop(f.data, n)", "IdOf(f, n) == Drop(f.data, 1)"),
    ("FormatLaws", FORMAT, "Format", "prefix(p) == IF hasUp(p) THEN Drop(p, Len(up(p))) ELSE p", "prefix(p) == p"),
    ("FormatLaws", FORMAT, "Format", "n < Len(b) /\\ a[n + 1] < b[n + 1]", "n < Len(b) /\\ a[n + 1] > b[n + 1]"),
    # views
    ("Blobs", BLOBS, "Blobs", "[] b[1] = \"exc\" -> b[2] + 1\n", "[] b[1] = \"exc\" -> b[2]\n"),
    ("Blobs", BLOBS, "Blobs", "[] b[1] = \"inc\" -> b[2] + 1 [] b[1] = \"exc\" -> b[2]\n", "[] b[1] = \"inc\" -> b[2] [] b[1] = \"exc\" -> b[2]\n"),
    ("Blobs", BLOBS, "Blobs", "View(v.m, v.s + Begin(lo), End", "View(v.m, Begin(lo), End"),
    ("Blobs", BLOBS, "Blobs", "/\\ End(hi, v.n) <= v.n", ""),
    ("Blobs", BLOBS, "Blobs", "p.n = 0 \\/ (v.n > 0 /\\", "(v.n > 0 /\\"),
    ("Blobs", BLOBS, "Blobs", "IF a[1] < b[1] THEN -1 ELSE 1", "-1"),
    ("Blobs", BLOBS, "Blobs", "/\\ m \\in DOMAIN mem => mem[m] = b\n", ""),
    # files in the browser's cache
    ("CacheChunks", CHUNKS, "CacheChunks", "Map(Delete, ByOffset(R))", "Map(Delete, Ascending(R))"),
    ("CacheChunks", CHUNKS, "CacheChunks", "/\\ todo' = o /\\ plan' = OpenPlan(chunks)", "/\\ todo' = o /\\ plan' = <<>>"),
    ("CacheChunks", CHUNKS, "CacheChunks", "WritePlan(C, n, Zeros(o.off - n) \\o o.data) ELSE", "WritePlan(C, o.off, o.data) ELSE"),
    ("CacheChunks", CHUNKS, "CacheChunks", "lv == Above(R)\n", "lv == 0\n"),
    ("CacheChunks", CHUNKS, "CacheChunks", "IF End(c) > b THEN <<Rewrite(lv, b, End(c))>> ELSE <<>>", "<<>>"),
    ("CacheChunks", CHUNKS, "CacheChunks", "<<Put(Chunk(lv, off, data))>>\n        \\o Map(Delete, Ascending({c \\in R : Inside(c)}))", "Map(Delete, Ascending({c \\in R : Inside(c)}))\n        \\o <<Put(Chunk(lv, off, data))>>"),
    ("CacheChunks", CHUNKS4, "CacheChunks", "THEN <<Delete(c)>> \\o Tidy", "THEN Tidy"),
    ("CacheChunks", CHUNKS, "CacheChunks", "Map(Re, SortRuns(Runs(I \\ covered)))", "<<>>"),
    ("CacheFiles", FILES, "CacheFiles", "IF off > Len(c) THEN c \\o Zeros(off - Len(c)) ELSE c", "c"),
    ("CacheFiles", FILES, "CacheFiles", "(n \\div 256) % 256, n % 256>>", "(n \\div 256) % 256, n % 2>>"),
    ("CacheFiles", FILES, "CacheFiles", "ELSE files[f]]\nDone", "ELSE <<>>]\nDone"),
]


def run(i):
    m, cfg, f, old, new = CHANGES[i]
    d = tempfile.mkdtemp(prefix="vacuity")
    try:
        s = os.path.join(d, "spec")
        shutil.copytree(os.path.join(ROOT, "spec"), s)
        p = os.path.join(s, f + ".tla")
        text = open(p).read()
        if old and text.count(old) < 1:
            return i, "NO SUCH TEXT"
        open(p, "w").write(text.replace(old, new, 1) if old else text)
        c = os.path.join(d, "c.cfg")
        open(c, "w").write(cfg)
        r = subprocess.run(["java", "-XX:+UseSerialGC", "-Xmx3g", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "2",
                            "-metadir", os.path.join(d, "md"), "-config", c, p.replace(f + ".tla", m + ".tla")], cwd=s, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
        o = r.stdout
        if "No error has been found" in o:
            return i, "NOT NOTICED"
        k = o.find("Error:")
        return i, o[k:k + 100].replace("\n", " ")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    todo = [i for i, c in enumerate(CHANGES) if len(sys.argv) < 2 or c[2] == sys.argv[1] or c[0] == sys.argv[1]]
    bad = 0
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(run, todo):
            bad += r in ("NOT NOTICED", "NO SUCH TEXT")
            print("%-12s %-70s %s" % (CHANGES[i][2], repr((CHANGES[i][4] or CHANGES[i][1][-90:-30]))[:70], r), flush=True)
    sys.exit(1 if bad else 0)
