------------------------------ MODULE FormatLaws ------------------------------
(* The format describes trees: reading any encoding of a map yields the map,  *)
(* and the examples of the documentation are encodings of what they say.      *)
EXTENDS Format, TLC, Json, IOUtils

AsStore(bs) == [id \in {bs[i][1] : i \in 1..Len(bs)} |-> (CHOOSE i \in 1..Len(bs) : bs[i][1] = id)]
StoreOf(bs) == LET ix == AsStore(bs) IN [id \in DOMAIN ix |-> bs[ix[id]][2]]

------------------------------------------------------------------------------
(* the examples *)
F(n, c) == [i \in 1..n |-> c]
Hello == <<5, 104, 101, 108, 108, 111, 6, 119, 111, 114, 108, 100, 33, 128>>
Id8(n) == <<0, 0, 0, 0, 0, 0, 0, n>>
NoBlobs == [x \in {} |-> <<>>]
Is(ns, m) == WellFormed(ns) /\ Canonical(ns) /\ Describes(ns, m)
ASSUME Is(Tree(NoBlobs, <<0, 0, 128>>), [k \in {<<>>} |-> <<>>])
ASSUME Is(Tree(NoBlobs, Hello), [k \in {<<104, 101, 108, 108, 111>>} |-> <<119, 111, 114, 108, 100, 33>>])
ASSUME LET bs == [i \in {Id8(1), Id8(2)} |-> IF i = Id8(1) THEN F(256, 97) ELSE F(256, 98)]
       IN  Is(Tree(bs, <<137, 97>> \o Id8(1) \o <<136>> \o Id8(2) \o <<128>>), [k \in {F(256, 97)} |-> F(256, 98)])
ASSUME LET bs == [i \in {Id8(1)} |-> <<1, 97, 0, 128, 1, 98, 0, 128>>]
           ns == Tree(bs, <<1, 97, 128, 137, 4>> \o Id8(1))
       IN  /\ Is(ns, [k \in {<<97, 97>>, <<97, 98>>} |-> <<>>]) /\ \A i \in 1..Len(ns) : ns[i].rs
\* not trees
ASSUME \A b \in {<<>>, <<0>>, <<0, 0>>, <<0, 0, 128, 0>>, <<128, 0, 128>>, <<0, 0, 0>>, <<0, 0, 1, 1>>, <<5, 1, 0, 128>>, <<0, 0, 129>>} : ~IsRoot(b)

------------------------------------------------------------------------------
(* all small trees in all policies *)
Long(n, c) == F(n, c)
Shapes == { <<>>, <<1>>, <<1, 2>>, <<1, 2, 3>>, <<1, 3>>, <<2>>, Long(128, 1), <<1>> \o Long(127, 7), Long(128, 1) \o <<5>> }
ValueOf(k, a) == IF k = <<>> THEN F(CHOOSE n \in {0, 127, 128} : n = a, 9) ELSE F(Len(k) % 3, k[1])
Policies == [pmin : {1, 3, 1000}, vmin : {0, 2, 1000}, rs : BOOLEAN, idlen : {1, 8}]
Extra(ks, c) == IF c = 0 THEN {} ELSE IF c = 1 THEN {<<>>} ELSE UNION {{SubSeq(k, 1, n) : n \in 0..(IF Len(k) > 3 THEN 3 ELSE Len(k))} : k \in ks}

CONSTANT MaxKeys
VARIABLES w, done
Init == /\ done = FALSE
        /\ w \in [ks : {S \in SUBSET Shapes : Cardinality(S) <= MaxKeys}, a : {0}, pol : {[pmin |-> 1000, vmin |-> 1000, rs |-> TRUE, idlen |-> 8]}, c : {0}]
Next == /\ ~done /\ done' = TRUE
        /\ w' \in [ks : {w.ks}, a : IF <<>> \in w.ks THEN {0, 127, 128} ELSE {0}, pol : Policies, c : 0..2]
M == [k \in w.ks |-> ValueOf(k, w.a)]
P == RadixPaths(w.ks) \cup (IF w.ks = {} THEN {} ELSE Extra(w.ks, w.c))
E == EncodeAll(M, P, w.pol)
ReadsBack ==
    LET s == StoreOf(E.blobs)
        ns == Tree(s, s[E.root])
    IN  /\ WellFormed(ns)
        /\ Describes(ns, M)
        /\ {ns[i].path : i \in 1..Len(ns)} = P
        /\ Canonical(ns) <=> P = RadixPaths(w.ks)
        /\ w.pol.rs => \A i \in 1..Len(ns) : ns[i].rs
        \* every blob is needed, and needed once
        /\ {r.id : r \in Refs(ns)} \cup {E.root} = DOMAIN s
        /\ Cardinality(Refs(ns)) + 1 = Cardinality(DOMAIN s)
=============================================================================
