------------------------------ MODULE TraceHeap ------------------------------
(* Checks the memory events of recorded executions against Heap. An event is  *)
(* one operation of the program with what it did to memory, in order: b > 0   *)
(* allocates block b, -b frees it. Blocks that were allocated and freed once  *)
(* within the operation are left out. bad lists accesses to memory that does  *)
(* not belong to a block, or no longer, as hardware or guard bytes report it: *)
(* uses of blocks that are not live, which Heap does not allow. The last      *)
(* operation has dropped everything the program had.                          *)
EXTENDS Heap, Json, IOUtils, TLC, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<live, last, t, l>>
Ev == Traces[t].ev

TraceInit == HInit /\ t \in 1..Len(Traces) /\ l = 1

(* the sequence of Alloc and Free steps h is allowed from the state s and leads there *)
One(s, x) ==
    IF ~s.ok THEN s
    ELSE IF x > s.last THEN [s EXCEPT !.live = @ \cup {x}, !.last = x]
    ELSE IF -x \in s.live THEN [s EXCEPT !.live = @ \ {-x}]
    ELSE [s EXCEPT !.ok = FALSE]
Effect(h) == FoldLeft(One, [live |-> live, last |-> last, ok |-> TRUE], h)

Step == /\ l <= Len(Ev)
        /\ Ev[l].bad = <<>>
        /\ LET e == Effect(Ev[l].h)
           IN  /\ e.ok
               /\ live' = e.live /\ last' = e.last
               /\ Ev[l].op = "end" => e.live = {}
        /\ l' = l + 1 /\ t' = t
Done == l > Len(Ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars
Alias == [t |-> t, l |-> l, live |-> live, event |-> IF l <= Len(Ev) THEN Ev[l] ELSE <<>>]
=============================================================================
