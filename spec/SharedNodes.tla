----------------------------- MODULE SharedNodes -----------------------------
(* How trees in different threads share nodes: nodes are counted, and a       *)
(* thread changes a node in place only if it holds the only reference;        *)
(* otherwise it makes a copy (whose children are then shared) and gives up    *)
(* its reference to the old node. Every step of the counters is one atomic    *)
(* operation; all interleavings are explored. Each thread has one tree, a     *)
(* chain of Depth nodes, which all share in the beginning.                    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Depth, Vals, MaxNodes, MaxEdits, Variant

VARIABLES rc,       \* node -> count of references, 0: free
          val, kid, \* node -> its value, its child (0: none)
          root,     \* thread -> its tree (0: dropped)
          pc, at, up, new, old, level, want, \* thread -> progress of its edit
          edits,    \* thread -> number of edits so far
          ghost     \* thread -> the values in its tree according to its own edits only
vars == <<rc, val, kid, root, pc, at, up, new, old, level, want, edits, ghost>>
Nodes == 1..MaxNodes

Init == /\ rc = [n \in Nodes |-> IF n = 1 THEN Cardinality(Threads) ELSE IF n <= Depth THEN 1 ELSE 0]
        /\ val = [n \in Nodes |-> 0]
        /\ kid = [n \in Nodes |-> IF n < Depth THEN n + 1 ELSE 0]
        /\ root = [t \in Threads |-> 1]
        /\ pc = [t \in Threads |-> "idle"]
        /\ at = [t \in Threads |-> 0] /\ up = [t \in Threads |-> 0] /\ new = [t \in Threads |-> 0]
        /\ old = [t \in Threads |-> 0] /\ level = [t \in Threads |-> 0] /\ want = [t \in Threads |-> <<1, 0>>]
        /\ edits = [t \in Threads |-> 0]
        /\ ghost = [t \in Threads |-> [i \in 1..Depth |-> 0]]

Set(f, t, x) == [f EXCEPT ![t] = x]

(* edit: set the value at some level *)
Begin(t) == /\ pc[t] = "idle" /\ root[t] # 0 /\ edits[t] < MaxEdits
            /\ edits' = [edits EXCEPT ![t] = @ + 1]
            /\ \E i \in 1..Depth, v \in Vals :
                  /\ v # ghost[t][i]
                  /\ want' = Set(want, t, <<i, v>>)
                  /\ ghost' = [ghost EXCEPT ![t][i] = v]
            /\ at' = Set(at, t, root[t]) /\ up' = Set(up, t, 0) /\ level' = Set(level, t, 1)
            /\ pc' = Set(pc, t, "look")
            /\ UNCHANGED <<rc, val, kid, root, new, old>>
(* is this the only reference? *)
Look(t) == /\ pc[t] = "look"
           /\ IF rc[at[t]] = 1 \/ (Variant = "in place" /\ rc[at[t]] = 2)
              THEN pc' = Set(pc, t, "own") ELSE pc' = Set(pc, t, "copy")
           /\ UNCHANGED <<rc, val, kid, root, at, up, new, old, level, want, edits, ghost>>
Copy(t) == /\ pc[t] = "copy"
           /\ \E n \in Nodes :
                 /\ rc[n] = 0 /\ \A m \in 1..n - 1 : rc[m] # 0
                 /\ rc' = Set(rc, n, 1) /\ val' = Set(val, n, val[at[t]]) /\ kid' = Set(kid, n, kid[at[t]])
                 /\ new' = Set(new, t, n)
           /\ pc' = Set(pc, t, IF kid[at[t]] = 0 \/ Variant = "no count" THEN "link" ELSE "share")
           /\ UNCHANGED <<root, at, up, old, level, want, edits, ghost>>
Share(t) == /\ pc[t] = "share"
            /\ rc' = [rc EXCEPT ![kid[at[t]]] = @ + 1]
            /\ pc' = Set(pc, t, "link")
            /\ UNCHANGED <<val, kid, root, at, up, new, old, level, want, edits, ghost>>
Link(t) == /\ pc[t] = "link"
           /\ old' = Set(old, t, at[t])
           /\ IF up[t] = 0 THEN root' = Set(root, t, new[t]) /\ UNCHANGED kid
              ELSE kid' = Set(kid, up[t], new[t]) /\ UNCHANGED root
           /\ at' = Set(at, t, new[t])
           /\ pc' = Set(pc, t, "release")
           /\ UNCHANGED <<rc, val, up, new, level, want, edits, ghost>>
(* give up a reference; the last one frees the node and gives up its child *)
Release(t) == /\ pc[t] \in {"release", "drop"}
              /\ LET n == old[t] last == rc[n] = 1
                 IN  /\ rc' = [rc EXCEPT ![n] = @ - 1]
                     /\ old' = Set(old, t, IF last THEN kid[n] ELSE 0)
                     /\ pc' = Set(pc, t, IF last /\ kid[n] # 0 THEN pc[t]
                                         ELSE IF pc[t] = "drop" THEN "idle" ELSE "own")
              /\ UNCHANGED <<val, kid, root, at, up, new, level, want, edits, ghost>>
(* the node is not shared: change it, or go down *)
Own(t) == /\ pc[t] = "own"
          /\ IF level[t] = want[t][1]
             THEN val' = Set(val, at[t], want[t][2]) /\ pc' = Set(pc, t, "idle")
                  /\ at' = Set(at, t, 0) /\ up' = Set(up, t, 0) /\ level' = Set(level, t, 0)
             ELSE /\ level' = Set(level, t, level[t] + 1)
                  /\ up' = Set(up, t, at[t]) /\ at' = Set(at, t, kid[at[t]])
                  /\ pc' = Set(pc, t, "look")
                  /\ UNCHANGED val
          /\ new' = Set(new, t, 0) /\ old' = Set(old, t, 0)
          /\ UNCHANGED <<rc, kid, root, want, edits, ghost>>
Drop(t) == /\ pc[t] = "idle" /\ root[t] # 0
           /\ old' = Set(old, t, root[t]) /\ root' = Set(root, t, 0)
           /\ pc' = Set(pc, t, "drop")
           /\ UNCHANGED <<rc, val, kid, at, up, new, level, want, edits, ghost>>

Next == \E t \in Threads : Begin(t) \/ Look(t) \/ Copy(t) \/ Share(t) \/ Link(t) \/ Release(t) \/ Own(t) \/ Drop(t)
Spec == Init /\ [][Next]_vars

(* Properties *)
RECURSIVE Chain(_, _)
Chain(n, d) == IF n = 0 \/ d = 0 THEN <<>> ELSE <<val[n]>> \o Chain(kid[n], d - 1)
RECURSIVE Live(_, _)
Live(n, d) == n = 0 \/ d = 0 \/ (rc[n] > 0 /\ Live(kid[n], d - 1))
(* a thread sees the effects of its own edits, and nothing else *)
Alone == \A t \in Threads : pc[t] = "idle" /\ root[t] # 0 => Chain(root[t], Depth) = ghost[t]
(* no tree contains a node that has been freed *)
NoDangling == \A t \in Threads : root[t] # 0 => Live(root[t], Depth)
(* when nobody is at work, what is not freed is in use *)
Reach(t) == LET RECURSIVE R(_, _)
                R(n, d) == IF n = 0 \/ d = 0 THEN {} ELSE {n} \cup R(kid[n], d - 1)
            IN R(root[t], Depth)
NoLeak == (\A t \in Threads : pc[t] = "idle") => {n \in Nodes : rc[n] > 0} = UNION {Reach(t) : t \in Threads}
=============================================================================
