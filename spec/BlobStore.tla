------------------------------ MODULE BlobStore ------------------------------
(* The contract of a blob store (src/store/blob_store.rs), for the file store *)
(* (src/store/paged_file_store.rs) including crashes of the process and       *)
(* losses of power. Contents are abstract tokens, ids are numbers.            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ids, Toks, Slots

VARIABLES blobs,    \* id -> content of every blob whose write has returned
          last,     \* id of the last blob, 0 if there is none
          durable,  \* ids of the blobs that a sync that has returned covers
          maybe,    \* contents of the writes that failed or were interrupted since the last
                    \* write that returned: the file may or may not contain one of them
          held      \* slot -> content of a blob that was read and is kept

bvars == <<blobs, last, durable, maybe, held>>

With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Only(f, s) == [z \in DOMAIN f \cap s |-> f[z]]
NotHeld == -3

BInit == /\ blobs = <<>> /\ last = 0 /\ durable = {} /\ maybe = {}
         /\ held = [s \in Slots |-> NotHeld]

(* an id is new, unless it names the same content (content addressed stores) *)
Free(id, tok) == id \in DOMAIN blobs => blobs[id] = tok

WriteBlob(id, tok) ==
    /\ Free(id, tok)
    /\ blobs' = With(blobs, id, tok) /\ last' = id /\ maybe' = {}
    /\ UNCHANGED <<durable, held>>
(* a write that reports an error because of a failing file operation *)
WriteFails(tok) == maybe' = maybe \cup {tok} /\ UNCHANGED <<blobs, last, durable, held>>
(* a write that is rejected, a read, a query *)
NoChange == UNCHANGED bvars
SyncBlobs == durable' = DOMAIN blobs /\ UNCHANGED <<blobs, last, maybe, held>>
Hold(s, id) == id \in DOMAIN blobs /\ held' = [held EXCEPT ![s] = blobs[id]]
               /\ UNCHANGED <<blobs, last, durable, maybe>>

(* what opening a file again may find if writes of the contents mb were cut short *)
Found(l1, mb, b) ==
    \/ l1 = last /\ b = blobs
    \/ l1 \notin DOMAIN blobs /\ l1 # last /\ \E tok \in mb : b = With(blobs, l1, tok)
(* the process ends, the writes of mb (at most one in progress) being cut short *)
Crash(mb, l1) ==
    /\ Found(l1, maybe \cup mb, blobs')
    /\ last' = l1 /\ maybe' = {}
    /\ UNCHANGED <<durable, held>>
ReopenStore(l1) == Crash({}, l1)
(* the power goes: only what was durable is sure to be there *)
PowerLoss(l1) ==
    /\ blobs' = Only(blobs, durable)
    /\ last' = l1 /\ maybe' = {}
    /\ UNCHANGED <<durable, held>>

BNext == \/ \E id \in Ids, tok \in Toks : WriteBlob(id, tok)
         \/ \E tok \in Toks : WriteFails(tok)
         \/ SyncBlobs
         \/ \E l1 \in Ids \cup {0} :
               \/ ReopenStore(l1) \/ PowerLoss(l1)
               \/ \E tok \in Toks : Crash({tok}, l1)
         \/ \E s \in Slots, id \in Ids : Hold(s, id)
BSpec == BInit /\ [][BNext]_bvars

---------------------------------------------------------------------------
(* Properties *)
DurableKnown == durable \subseteq DOMAIN blobs
(* an id never changes its meaning while it is known *)
IdsImmutable == [][\A id \in DOMAIN blobs : id \in DOMAIN blobs' => blobs'[id] = blobs[id]]_bvars
(* nothing that is durable is ever lost *)
DurableKept == [][\A id \in durable : id \in DOMAIN blobs' /\ id \in durable']_bvars
=============================================================================
