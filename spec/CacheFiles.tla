------------------------------ MODULE CacheFiles ------------------------------
(* The file system of the browser crate (browser/src/web_cache_fs.rs,         *)
(* sync_fs.rs, vfs.rs) as its users see it: files with contents, in           *)
(* directories. How they are kept is in CacheChunks.                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Files
VARIABLES files,   \* file -> contents; a file that was never written to is empty
          made     \* files that may exist although they are empty
vars == <<files, made>>

Init == files = [f \in Files |-> <<>>] /\ made = {}
Min2(a, b) == IF a < b THEN a ELSE b
Zeros(n) == [i \in 1..n |-> 0]
(* a gap before the written data is filled with 0; writing nothing changes nothing *)
Over(c, off, data) ==
    IF data = <<>> THEN c
    ELSE LET g == IF off > Len(c) THEN c \o Zeros(off - Len(c)) ELSE c
         IN  SubSeq(g, 1, off) \o data \o SubSeq(g, off + Len(data) + 1, Len(g))
Cut(c, n) == SubSeq(c, 1, Min2(n, Len(c)))
(* items with their length in front, in four bytes *)
Prefix(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Item(data) == Prefix(Len(data)) \o data
ItemLen(c, i) == c[i + 1] * 16777216 + c[i + 2] * 65536 + c[i + 3] * 256 + c[i + 4]
\* without numbers that are too large
HasItem(c, i) == i + 4 <= Len(c) /\ c[i + 1] < 64 /\ ItemLen(c, i) <= Len(c) - i - 4
ItemAt(c, i) == SubSeq(c, i + 5, i + 4 + ItemLen(c, i))

(* what the operations make of the contents of one file *)
Becomes(c, op, a, data) ==
    CASE op = "write" -> Over(c, a, data)
      [] op = "truncate" -> Cut(c, a)
      [] op = "append" -> c \o Item(data)
      [] op \in {"delete", "deletedir"} -> <<>>
      [] OTHER -> c
After(fs, op, a, data) == [f \in Files |-> IF f \in fs THEN Becomes(files[f], op, a, data) ELSE files[f]]
Done(fs, op, a, data) ==
    /\ files' = After(fs, op, a, data)
    /\ made' = IF op \in {"delete", "deletedir"} THEN made \ fs ELSE made \cup fs
(* an operation that was cut short has happened or has not, to every file for itself *)
CutShort(fs, op, a, data) ==
    /\ files' \in {[f \in Files |-> IF f \in S THEN After(fs, op, a, data)[f] ELSE files[f]] : S \in SUBSET fs}
    /\ made' = made \cup fs
Same == UNCHANGED vars

(* answers *)
ReadOK(c, a, b, got) == b <= Len(c) /\ got = SubSeq(c, a + 1, b)
PartOK(c, a, b, got) == got = SubSeq(c, a + 1, Min2(b, Len(c)))
ExistsOK(f, n) == (files[f] # <<>> => n = 1) /\ (files[f] = <<>> /\ f \notin made => n = 0)

------------------------------------------------------------------------------
Data == {<<1>>, <<2, 3>>}
Next == \E f \in Files, a \in 0..3, d \in Data, op \in {"write", "truncate", "append", "delete"} :
            Done({f}, op, a, d) \/ CutShort({f}, op, a, d)
Spec == Init /\ [][Next]_vars
Small == \A f \in Files : Len(files[f]) <= 3
(* laws *)
Laws == \A f \in Files :
    LET c == files[f]
    IN  /\ \A d \in Data : Over(c, Len(c), d) = c \o d
        /\ \A n \in 0..8 : Len(Cut(c, n)) <= n /\ \A d \in Data : n <= Len(c) => Cut(Over(c, n, d), n) = Cut(c, n)
        /\ \A d \in Data : LET e == Becomes(c, "append", 0, d) IN HasItem(e, Len(c)) /\ ItemAt(e, Len(c)) = d
        /\ \A d \in Data, a \in 0..3 : LET e == Over(c, a, d) IN ReadOK(e, a, a + Len(d), d) /\ Len(e) >= Len(c)
Isolated == [][Cardinality({f \in Files : files'[f] # files[f]}) <= 1]_vars
==============================================================================
