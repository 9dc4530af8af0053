-------------------------------- MODULE MCMap --------------------------------
(* Model checking of RadixMap: all programs over a small universe.            *)
EXTENDS RadixMap, TLC
CONSTANTS K, V, MaxVer

KSmall == {<<>>, <<0>>}
KLarge == {<<>>, <<0>>, <<1>>}
Fs == {"left", "right", "none", "diff"}
Ps == {"true", "odd"}
Next ==
    \/ \E g \in Handles : New(g) \/ NewAttached(g, 1)
    \/ \E g \in Handles, k \in K, v \in V : Single(g, k, v)
    \/ \E h, g \in Handles : CloneTree(h, g)
    \/ \E h \in Handles : DropTree(h) \/ IsEmptyTree(h) \/ Iterate(h) \/ IterateValues(h)
    \/ \E h \in Handles, k \in K, v \in V : Insert(h, k, v)
    \/ \E h \in Handles, k \in K :
          RemoveKey(h, k) \/ RemovePrefix(h, k) \/ Get(h, k) \/ ContainsKey(h, k) \/ HasPrefixOp(h, k)
          \/ ScanPrefix(h, k) \/ FirstEntryOp(h, k) \/ LastEntryOp(h, k)
    \/ \E h, g \in Handles, k \in K : FilterPrefix(h, k, <<>>, g)
    \/ \E h \in Handles : FirstValueOp(h) \/ LastValueOp(h) \/ Shape(h)
    \/ \E h \in Handles, d \in {"always", "never"} : GroupBy(h, d)
    \/ \E h, g \in Handles, d \in {"always", "never"} : \E i \in 1..Len(Groups(M(h), d)) : GroupTake(h, d, i, g)
    \/ \E a, b, g \in Handles, f \in Fs : OuterCombine(a, b, f, g) \/ InnerCombine(a, b, f, g) \/ LeftCombine(a, b, f, g)
    \/ \E a, b \in Handles, f \in Fs : OuterCombineWith(a, b, f) \/ InnerCombineWith(a, b, f) \/ LeftCombineWith(a, b, f)
    \/ \E a, b \in Handles, p \in Ps : Retain(a, b, p) \/ RemoveWith(a, b, p)
    \/ \E a, b \in Handles : InnerPred(a, b, "eq") \/ LeftPredOp(a, b, "eq") \/ Equal(a, b)
    \/ \E h, g \in Handles : Attach(h, 1, g) \/ Detach(h, g)
    \/ \E h \in Handles : Reattach(h)
    \/ \E i \in 1..Len(ver), g \in Handles : Load(i, g)
    \/ \E h \in Handles, i \in Iters, k \in K : IterNew(h, i, k)
    \/ \E i \in Iters : IterNext(i, 1) \/ IterNextValues(i, 1)
    \/ \E h \in Handles, k \in K, v \in Vals : ValTake(h, k, v)
    \/ \E v \in Vals : ValRead(v)

Bound == Len(ver) <= MaxVer
View == <<tree, iter, val, ver>>
Spec == Init /\ [][Next]_vars

(* snapshots: what an iterator or value still has to show does not depend on later edits *)
SnapshotsStable ==
    [][/\ \A i \in Iters : iter'[i] # iter[i] =>
              \/ Len(iter'[i]) <= Len(iter[i]) /\ iter'[i] = Drop(iter[i], Len(iter[i]) - Len(iter'[i]))
              \/ \E h \in Handles, k \in K : Live(h) /\ iter'[i] = Scan(M(h), k)
       /\ \A v \in Vals : val'[v] # val[v] => UNCHANGED <<tree, iter, ver>>]_vars
(* a reloaded version is the version *)
LoadExact == \A i \in 1..Len(ver) : Entries(ver[i].map) = Entries(FromPairs(Entries(ver[i].map)))
=============================================================================
