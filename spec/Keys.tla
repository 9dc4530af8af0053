-------------------------------- MODULE Keys --------------------------------
(* Byte strings, at the level of abstraction of the model: a key is a         *)
(* sequence of symbols (naturals). The conformance harness maps each symbol   *)
(* to a non-empty byte string by an order preserving, prefix free code, so    *)
(* "is a prefix of" and the lexicographic order carry over exactly.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Pref(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
ProperPref(p, k) == Len(p) < Len(k) /\ SubSeq(k, 1, Len(p)) = p

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LessFrom(a, b, i + 1)
(* strict lexicographic order *)
Less(a, b) == LessFrom(a, b, 1)

Drop(k, n) == SubSeq(k, n + 1, Len(k))

RECURSIVE CommonLen(_, _, _)
CommonLen(a, b, i) ==
    IF i < Len(a) /\ i < Len(b) /\ a[i + 1] = b[i + 1] THEN CommonLen(a, b, i + 1) ELSE i
(* longest common prefix of two keys *)
Lcp2(a, b) == SubSeq(a, 1, CommonLen(a, b, 0))

(* the smallest and the largest key of a non-empty finite set *)
MinKey(S) == CHOOSE k \in S : \A j \in S : j = k \/ Less(k, j)
MaxKey(S) == CHOOSE k \in S : \A j \in S : j = k \/ Less(j, k)
(* longest common prefix of a non-empty set of keys *)
Lcp(S) == Lcp2(MinKey(S), MaxKey(S))
SortKeys(S) == SetToSortSeq(S, Less)
=============================================================================
