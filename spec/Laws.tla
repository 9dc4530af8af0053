-------------------------------- MODULE Laws --------------------------------
(* The properties of single operations, in the words of the properties file,  *)
(* checked on every pair of maps over a small universe. MapOps computes the   *)
(* results; here they are characterised independently of how it computes them *)
EXTENDS MapOps, TLC
CONSTANTS U,      \* keys
          V,      \* values
          Arg     \* arguments: keys, prefixes, and keys outside the universe

U4 == {<<>>, <<0>>, <<0, 1>>, <<1>>}
U5 == {<<>>, <<0>>, <<0, 0>>, <<0, 1>>, <<1, 0>>}
Arg4 == U4 \cup {<<0, 0>>, <<0, 1, 0>>, <<2>>}
Arg5 == U5 \cup {<<1>>, <<0, 1, 0>>, <<2>>}

Maps == UNION {[S -> V] : S \in SUBSET U}
VARIABLES a, b, both
(* the second map is chosen in a second step, so that the work is spread over the workers *)
Init == a \in Maps /\ b = EmptyMap /\ both = FALSE
Next == ~both /\ a' = a /\ b' \in Maps /\ both' = TRUE

Fs == CombinerNames
InKeys(x) == {x[i][1] : i \in 1..Len(x)}
Sorted(x) == \A i \in 1..Len(x) - 1 : Less(x[i][1], x[i + 1][1])
Shows(x, m) == Sorted(x) /\ InKeys(x) = DOMAIN m /\ \A i \in 1..Len(x) : m[x[i][1]] = x[i][2]
Union(x, y) == [k \in DOMAIN x \cup DOMAIN y |-> IF k \in DOMAIN x THEN x[k] ELSE y[k]]
Disjoint(x, y) == DOMAIN x \cap DOMAIN y = {}

(* C01 *)
EntriesOK == Shows(Entries(a), a) /\ ValuesOf(a) = [i \in 1..Len(Entries(a)) |-> Entries(a)[i][2]]
CollectOK == FromPairs(Entries(a)) = a /\ FromPairs(Entries(b) \o Entries(a)) = Union(a, b)
EditOK == \A k \in Arg, j \in Arg, v \in V :
            /\ At(Put(a, k, v), j) = (IF j = k THEN v ELSE At(a, j))
            /\ At(Del(a, k), j) = (IF j = k THEN None ELSE At(a, j))
            /\ At(DelPrefix(a, k), j) = (IF Pref(k, j) THEN None ELSE At(a, j))
EditCommutes == \A k \in Arg, v \in V : Del(Put(a, k, v), k) = Del(a, k) /\ Put(Put(a, k, 0), k, v) = Put(a, k, v)
LawsC01 == IF both THEN CollectOK ELSE EntriesOK /\ EditOK /\ EditCommutes

(* C02 *)
LawsC02 == ~both => \A p \in Arg :
    /\ Scan(a, p) = SelectSeq(Entries(a), LAMBDA e : Pref(p, e[1]))
    /\ HasPrefix(a, p) <=> Scan(a, p) # <<>>
    /\ \A s \in {<<>>, <<1>>, <<2, 0>>} :
          Entries(Filter(a, p, s)) =
          [i \in 1..Len(Scan(a, p)) |-> <<s \o Drop(Scan(a, p)[i][1], Len(p)), Scan(a, p)[i][2]>>]
    /\ Union(DelPrefix(a, p), Filter(a, p, p)) = a /\ Disjoint(DelPrefix(a, p), Filter(a, p, p))
    /\ IF a = EmptyMap THEN FirstEntry(a, p) = <<>> /\ LastEntry(a, p) = <<>>
       ELSE LET x == Entries(a) IN
            /\ FirstEntry(a, p) = <<<<p \o x[1][1], x[1][2]>>>>
            /\ LastEntry(a, p) = <<<<p \o x[Len(x)][1], x[Len(x)][2]>>>>
            /\ FirstValue(a) = x[1][2] /\ LastValue(a) = x[Len(x)][2]

(* C03 *)
RECURSIVE Concat(_, _)
Concat(gs, i) == IF i > Len(gs) THEN <<>> ELSE Entries(gs[i]) \o Concat(gs, i + 1)
LawsC03 == ~both => \A d \in DescendNames :
    LET gs == Groups(a, d)
        asked == GroupAsked(a, d)
    IN  /\ Concat(gs, 1) = Entries(a)
        /\ \A i \in 1..Len(gs) : gs[i] # EmptyMap
        /\ \A n \in asked, q \in NodePaths(a) : ProperPref(q, n) => q \in asked /\ Descend(d, q)
        /\ \A n \in asked : ~Descend(d, n) => \E i \in 1..Len(gs) : DOMAIN gs[i] = Below(a, n)
        /\ \A n \in asked : Descend(d, n) /\ n \in DOMAIN a => \E i \in 1..Len(gs) : DOMAIN gs[i] = {n}

(* C04 *)
LawsC04 == both => \A f \in Fs :
    LET o == Outer(a, b, f)
        i == Inner(a, b, f)
        l == Left(a, b, f)
        onlyA == Restrict(a, DOMAIN a \ DOMAIN b)
        onlyB == Restrict(b, DOMAIN b \ DOMAIN a)
    IN  /\ DOMAIN i = {k \in DOMAIN a \cap DOMAIN b : Combiner(f, a[k], b[k]) # None}
        /\ \A k \in DOMAIN i : i[k] = Combiner(f, a[k], b[k])
        /\ l = Union(i, onlyA) /\ o = Union(l, onlyB)
        /\ Outer(a, EmptyMap, f) = a /\ Outer(EmptyMap, b, f) = b
        /\ Left(a, EmptyMap, f) = a /\ Left(EmptyMap, b, f) = EmptyMap
        /\ Inner(a, EmptyMap, f) = EmptyMap
        /\ Len(Calls(a, b)) = Cardinality(Common(a, b))
        /\ Outer(a, b, "left") = Union(a, b) /\ Outer(a, b, "right") = Union(b, a)

(* C05 *)
LawsC05 == both =>
    /\ Intersects(a, b, "true") <=> Inner(a, b, "left") # EmptyMap
    /\ Intersects(a, b, "ne") <=> Inner(a, b, "diff") # EmptyMap
    /\ ~Intersects(a, b, "false")
    /\ LeftPred(a, b, "ne") <=> Left(a, b, "diff") # EmptyMap
    /\ ~LeftPred(a, b, "false") <=> DOMAIN a \subseteq DOMAIN b
    /\ (a = b) <=> (~LeftPred(a, b, "ne") /\ ~LeftPred(b, a, "ne"))
    /\ \A p \in Pred2Names : Intersects(a, b, p) => LeftPred(a, b, p)

(* C06 *)
LawsC06 == both => \A p \in PredNames :
    LET r == RetainBy(a, b, p)
        x == RemoveBy(a, b, p)
        good == {q \in DOMAIN b : Pred1(p, b[q])}
    IN  /\ Union(r, x) = a /\ Disjoint(r, x)
        /\ DOMAIN r = UNION {Below(a, q) : q \in good}
        /\ RetainBy(a, a, "true") = a /\ RemoveBy(a, a, "true") = EmptyMap

(* C07 *)
LawsC07 == both =>
    /\ (Entries(a) = Entries(b)) <=> (a = b)
    /\ \A k \in DOMAIN a : Pref(RootPath(a), k)
    /\ Cardinality(DOMAIN a) > 1 => \A c \in 0..2 : \E k \in DOMAIN a : ~Pref(Append(RootPath(a), c), k)
    /\ IsLeaf(a) <=> \A k, j \in DOMAIN a : k = j
    /\ RootPath(a) \in NodePaths(a) \/ a = EmptyMap
=============================================================================
