--------------------------------- MODULE Heap ---------------------------------
(* Memory as a program sees it: blocks are allocated, used and freed. A block *)
(* is used only while it is allocated, it is freed once, and in the end none  *)
(* is left. Blocks are numbered in the order in which they are allocated, so  *)
(* that those up to the last one that are not live have been freed: no        *)
(* program may touch them again.                                              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Blocks
VARIABLES live,   \* blocks that are allocated
          last    \* the block that was allocated last
hvars == <<live, last>>
gone == (1..last) \ live

HInit == live = {} /\ last = 0
Alloc(b) == b > last /\ live' = live \cup {b} /\ last' = b
Use(b) == b \in live /\ UNCHANGED hvars
Free(b) == b \in live /\ live' = live \ {b} /\ last' = last
HNext == \E b \in Blocks : Alloc(b) \/ Use(b) \/ Free(b)
HSpec == HInit /\ [][HNext]_hvars
Separate == \A b \in live : b \in 1..last
=============================================================================
