------------------------------ MODULE PagedFile ------------------------------
(* The algorithm of src/store/paged_file_store.rs, one step per operation on  *)
(* the file: padding to a page, data, length, committed size in the header.   *)
(* At any step the process may end, the file operation may fail, or the power *)
(* may go and leave an arbitrary mixture of unsynced modifications. TLC       *)
(* checks that this refines BlobStore.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS PS,         \* page size, in cells
          LS,         \* size of a length, in cells (4 bytes in the code)
          Chunk,      \* padding is written in pieces of this size
          MaxWrites, MaxFaults, MaxSyncs, MaxCells

VARIABLES file,       \* data area: sequence of cells
          hdr,        \* committed size in the header
          snaps,      \* states of the file since the last sync, oldest first: the file system may
                      \* have written back any mixture of them
          pc, len, tok, \* write in progress
          lastId, pages, \* memory of the process: last id, mapped pages
          writes, faults, syncs, \* bounds
          blobs, last, durable, maybe, held

fvars == <<file, hdr, snaps, pc, len, tok, lastId, pages, writes, faults, syncs>>
bvars == <<blobs, last, durable, maybe, held>>
vars == <<fvars, bvars>>

MaxLen == PS - 2 * LS
Lens == 0..MaxLen

\* cells: 0 zero, -(n+1) first cell of the length n, -1000 rest of a length, 100*t+j cell j of content t
LenCells(n) == [i \in 1..LS |-> IF i = 1 THEN -(n + 1) ELSE -1000]
DataCells(t, n) == [i \in 1..n |-> 100 * t + i]
Zeros(n) == [i \in 1..n |-> 0]
Page(off) == off \div PS
Min(a, b) == IF a < b THEN a ELSE b

Bad == -2
(* the content of the blob that ends at id in a data area f. A length that is zero reads as an empty blob *)
Decode(f, id) ==
    IF id < LS \/ id > Len(f) THEN Bad
    ELSE LET c == f[id - LS + 1]
             n == IF c = 0 THEN 0 ELSE IF c < 0 /\ c > -1000 THEN -c - 1 ELSE -1
         IN  IF n < 0 \/ id < LS + n THEN Bad
             ELSE IF n = 0 THEN 0
             ELSE LET t == f[id - LS - n + 1] \div 100
                  IN  IF \A j \in 1..n : f[id - LS - n + j] = 100 * t + j THEN t ELSE Bad
(* truncating or extending to a size *)
Resize(f, n) == [i \in 1..n |-> IF i <= Len(f) THEN f[i] ELSE 0]

(* Inner::bytes: pages before the page of the last id are mapped, which needs a file that is long enough *)
ReadNow(id) ==
    IF ~(id > 0 /\ id <= lastId) THEN Bad
    ELSE IF Page(id - 1) < Page(lastId)
         THEN IF (Page(id - 1) + 1) * PS > Len(file) THEN Bad ELSE Decode(file, id)
         ELSE Decode(file, id)

Init == /\ file = <<>> /\ hdr = 0 /\ snaps = <<[f |-> <<>>, h |-> 0]>>
        /\ pc = "idle" /\ len = 0 /\ tok = 0 /\ lastId = 0 /\ pages = {}
        /\ writes = 0 /\ faults = 0 /\ syncs = 0
        /\ blobs = <<>> /\ last = 0 /\ durable = {} /\ maybe = {} /\ held = <<>>

Note(f, h) == snaps' = IF snaps[Len(snaps)] = [f |-> f, h |-> h] THEN snaps ELSE Append(snaps, [f |-> f, h |-> h])
SameBlobs == UNCHANGED bvars
Bounds == UNCHANGED <<writes, faults, syncs>>

(* Inner::append *)
Begin == /\ pc = "idle" /\ writes < MaxWrites
         /\ \E n \in Lens :
              /\ len' = n
              /\ tok' = IF n = 0 THEN 0 ELSE writes + 1
              /\ pc' = IF Page(Len(file) + n + LS) # Page(Len(file)) THEN "pad" ELSE "data"
         /\ writes' = writes + 1
         /\ UNCHANGED <<file, hdr, snaps, lastId, pages, faults, syncs>> /\ SameBlobs
(* close_page writes the padding in chunks, then maps the page *)
PadEnd == (Page(Len(file) - 1) + 1) * PS
Pad == /\ pc = "pad"
       /\ LET end == IF Len(file) % PS = 0 /\ Len(file) > 0 THEN Len(file) ELSE PadEnd
              n == Min(Chunk, end - Len(file))
          IN  IF n = 0
              THEN /\ pc' = "data" /\ pages' = pages \cup {end \div PS - 1}
                   /\ UNCHANGED <<file, hdr, snaps>>
              ELSE /\ file' = file \o Zeros(n) /\ Note(file \o Zeros(n), hdr) /\ UNCHANGED <<pc, hdr, pages>>
       /\ UNCHANGED <<len, tok, lastId>> /\ Bounds /\ SameBlobs
Data == /\ pc = "data"
        /\ file' = file \o DataCells(tok, len) /\ Note(file', hdr)
        /\ pc' = "len"
        /\ UNCHANGED <<hdr, len, tok, lastId, pages>> /\ Bounds /\ SameBlobs
Length == /\ pc = "len"
          /\ file' = file \o LenCells(len) /\ Note(file', hdr)
          /\ pc' = "hdr"
          /\ UNCHANGED <<hdr, len, tok, lastId, pages>> /\ Bounds /\ SameBlobs
Commit == /\ pc = "hdr"
          /\ hdr' = Len(file) /\ Note(file, hdr')
          /\ pc' = "ret"
          /\ UNCHANGED <<file, len, tok, lastId, pages>> /\ Bounds /\ SameBlobs
Return == /\ pc = "ret"
          /\ lastId' = Len(file) /\ pc' = "idle"
          /\ blobs' = [i \in DOMAIN blobs \cup {lastId'} |-> IF i = lastId' THEN tok ELSE blobs[i]]
          /\ last' = lastId' /\ maybe' = {}
          /\ UNCHANGED <<file, hdr, snaps, len, tok, pages, durable, held>> /\ Bounds

(* a file operation of the write fails, perhaps after having done a part of its work *)
IoError ==
    /\ pc \in {"pad", "data", "len", "hdr", "ret"} /\ faults < MaxFaults
    /\ faults' = faults + 1 /\ pc' = "idle"
    /\ maybe' = maybe \cup {tok}
    /\ \/ UNCHANGED <<file, snaps>>
       \/ pc = "data" /\ len > 1 /\ \E n \in 1..len - 1 :
              file' = file \o SubSeq(DataCells(tok, len), 1, n) /\ Note(file', hdr)
       \/ pc = "len" /\ \E n \in 1..LS - 1 : file' = file \o SubSeq(LenCells(len), 1, n) /\ Note(file', hdr)
       \/ pc = "pad" /\ Len(file) % PS # 0 /\ file' = file \o Zeros(1) /\ Note(file', hdr)
    /\ UNCHANGED <<hdr, len, tok, lastId, pages, writes, syncs, blobs, last, durable, held>>

Sync == /\ pc = "idle" /\ syncs < MaxSyncs /\ syncs' = syncs + 1
        /\ snaps' = <<[f |-> file, h |-> hdr]>>
        /\ durable' = DOMAIN blobs
        /\ UNCHANGED <<file, hdr, pc, len, tok, lastId, pages, writes, faults, blobs, last, maybe, held>>

(* Inner::new: the data area gets the committed size *)
Open(f, h) == /\ hdr' = h /\ file' = Resize(f, h) /\ lastId' = h /\ pages' = {} /\ pc' = "idle"
              /\ UNCHANGED <<len, tok, writes, syncs>>

Interrupted == IF pc = "idle" THEN maybe ELSE maybe \cup {tok}
CrashProcess ==
    /\ faults < MaxFaults /\ faults' = faults + 1
    /\ Open(file, hdr) /\ Note(Resize(file, hdr), hdr)
    /\ last' = hdr /\ maybe' = {}
    /\ blobs' = IF hdr = last THEN blobs
                ELSE [i \in DOMAIN blobs \cup {hdr} |-> IF i = hdr THEN Decode(file', hdr) ELSE blobs[i]]
    /\ UNCHANGED <<durable, held>>

(* loss of power: size and every cell are taken from some state since the last sync. Choices of cells are     *)
(* limited to some patterns here; PowerSafe below covers all of them                                          *)
CellIn(s, i) == IF i <= Len(s.f) THEN s.f[i] ELSE 0
Masks == {"old", "new", "odd", "even"}
Choose2(m, i) == IF m = "old" THEN 1 ELSE IF m = "new" THEN Len(snaps)
                 ELSE IF (i % 2 = 1) = (m = "odd") THEN 1 ELSE Len(snaps)
LosePower ==
    /\ faults < MaxFaults /\ faults' = faults + 1
    /\ \E h \in {snaps[s].h : s \in 1..Len(snaps)}, n \in {Len(snaps[1].f), Len(snaps[Len(snaps)].f)}, m \in Masks :
          LET img == [i \in 1..n |-> CellIn(snaps[Choose2(m, i)], i)]
          IN  /\ Open(img, h)
              /\ snaps' = <<[f |-> Resize(img, h), h |-> h]>>
              /\ last' = h
    /\ blobs' = [i \in DOMAIN blobs \cap durable |-> blobs[i]]
    /\ maybe' = {} /\ UNCHANGED <<durable, held>>

Next == Begin \/ Pad \/ Data \/ Length \/ Commit \/ Return \/ IoError \/ Sync \/ CrashProcess \/ LosePower
Spec == Init /\ [][Next]_vars

Small == Len(file) <= MaxCells
---------------------------------------------------------------------------
(* every blob is readable whenever no write is in progress (C12), also the live store after failures *)
Readable == pc = "idle" => \A id \in DOMAIN blobs : ReadNow(id) = blobs[id]
(* if the process ended now, opening the file would find every blob, and at its end the last one or the one in *)
(* progress, complete (C13)                                                                                   *)
CrashSafe ==
    LET f == Resize(file, hdr)
    IN  /\ \A id \in DOMAIN blobs : Decode(f, id) = blobs[id]
        /\ hdr = last \/ (hdr \notin DOMAIN blobs /\ Decode(f, hdr) \in Interrupted)
(* if the power went now, whatever was written back, every durable blob would be found (C14) *)
PowerSafe ==
    \A id \in durable :
        /\ \A s \in 1..Len(snaps) : snaps[s].h >= id
        /\ LET f == snaps[1].f
           IN  /\ Decode(f, id) = blobs[id]
               /\ \A s \in 1..Len(snaps) : SubSeq(Resize(snaps[s].f, id), 1, id) = SubSeq(f, 1, id)
(* mapped pages are inside of the file: no access behind its end *)
Mapped == \A p \in pages : (p + 1) * PS <= Len(file)
(* an id is never at a page boundary: the page of the last byte is the page of the id *)
IdsInPage == \A id \in DOMAIN blobs : Page(id - 1) = Page(id)

BS == INSTANCE BlobStore WITH Ids <- 1..MaxCells, Toks <- 0..MaxWrites, Slots <- {}
Refines == BS!BSpec
=============================================================================
