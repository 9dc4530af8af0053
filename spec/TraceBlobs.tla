------------------------------ MODULE TraceBlobs ------------------------------
(* Checks recorded uses of blobs against Blobs. After each operation all      *)
(* blobs that there are have been looked at (obs).                            *)
EXTENDS Blobs, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<mem, slot, t, l>>
Ev == Traces[t].ev
TraceInit == Init /\ t \in 1..Len(Traces) /\ l = 1

Do(e) ==
    CASE e.op = "make" -> e.st = "ok" /\ MakeIn(e.i, e.m, e.b, e.s, e.n)
      [] e.op = "slice" -> (e.st = "ok" /\ Slice(e.i, e.j, e.lo, e.hi)) \/ (e.st = "panic" /\ SlicePanics(e.i, e.lo, e.hi))
      [] e.op = "sliceref" -> (e.st = "ok" /\ SliceRef(e.i, e.j, e.k, e.s, e.n)) \/ (e.st = "panic" /\ SliceRefPanics(e.i, e.k, e.s, e.n))
      [] e.op = "clone" -> e.st = "ok" /\ Copy(e.i, e.j)
      [] e.op = "toowned" -> e.st = "ok" /\ ToOwned(e.i, e.j)
      [] e.op = "drop" -> e.st = "ok" /\ Drop(e.i)
      \* order, partial order, equality, equality of hashes, found by its bytes in sets
      [] e.op = "compare" -> /\ e.st = "ok" /\ Look
                             /\ LET o == Order(Bytes(e.i), Bytes(e.k))
                                IN  /\ e.out[1] = o /\ e.out[2] = o /\ e.out[3] = (IF o = 0 THEN 1 ELSE 0)
                                    /\ o = 0 => e.out[4] = 1
                                    /\ e.out[5] = e.out[3] /\ e.out[6] = e.out[3]
      \* looked at by another thread, which drops its copy
      [] e.op = "send" -> e.st = "ok" /\ Look /\ e.out = Bytes(e.i)
      \* something happens to where the blobs came from
      [] e.op = "world" -> e.st = "ok" /\ Look

Seen(o) == \A i \in Slots : o[i] = IF InUse(i)' THEN <<Bytes(i)'>> ELSE <<>>
Step == /\ l <= Len(Ev)
        /\ Do(Ev[l])
        /\ Seen(Ev[l].obs)
        /\ l' = l + 1 /\ t' = t
Done == l > Len(Ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
Alias == [t |-> t, l |-> l, slot |-> slot, bytes |-> [i \in Slots |-> IF InUse(i) THEN Bytes(i) ELSE <<-1>>],
          event |-> IF l <= Len(Ev) THEN Ev[l] ELSE <<>>]
=============================================================================
