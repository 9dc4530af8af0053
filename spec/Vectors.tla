------------------------------- MODULE Vectors -------------------------------
(* Enumerates all maps over a small universe of keys and writes the results   *)
(* that the specification gives for every operation, for replay on the code.  *)
(* Environment: UNIVERSE (JSON file with the list of keys), KIND, SHARD of    *)
(* SHARDS, OUT.                                                               *)
EXTENDS MapOps, Json, IOUtils, TLC

U == JsonDeserialize(IOEnv.UNIVERSE)
N == Len(U)
Kind == IOEnv.KIND
Shards == atoi(IOEnv.SHARDS)
Shard == atoi(IOEnv.SHARD)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Present(s) == {i \in 1..N : (s \div Pow2(i - 1)) % 2 = 1}
(* the values of the left and of the right map: some agree, some are empty *)
VA(i) == i % 3
VB(i) == (i \div 2) % 3
Idx(k) == CHOOSE i \in 1..N : U[i] = k
MapA(s) == [k \in {U[i] : i \in Present(s)} |-> VA(Idx(k))]
MapB(s) == [k \in {U[i] : i \in Present(s)} |-> VB(Idx(k))]
(* values that identify the key *)
MapI(s) == [k \in {U[i] : i \in Present(s)} |-> Idx(k)]
Vec(m) == [i \in 1..N |-> At(m, U[i])]
B(x) == IF x THEN 1 ELSE 0

Mine == SelectSeq([s \in 1..Pow2(N) |-> s - 1], LAMBDA s : s % Shards = Shard)
All == [s \in 1..Pow2(N) |-> s - 1]
(* arguments: the universe, every prefix of its keys, and keys just outside *)
Args == LET S == {U[i] : i \in 1..N}
            P == {<<>>} \cup UNION {{SubSeq(k, 1, n) : n \in 0..Len(k)} : k \in S}
            X == {Append(k, 0) : k \in S} \cup {Append(k, 2) : k \in P}
        IN  SortKeys(P \cup X)

CombinerList == <<"left", "right", "none", "sum", "diff", "odd", "zero">>
Pred2List == <<"true", "false", "eq", "ne", "lt">>
Pred1List == <<"true", "false", "odd", "even">>

Pair(s, t) ==
    LET a == MapA(s)
        b == MapB(t)
    IN  CASE Kind = "combine" ->
                [a |-> s, b |-> t, calls |-> Calls(a, b),
                 outer |-> [i \in 1..7 |-> Vec(Outer(a, b, CombinerList[i]))],
                 inner |-> [i \in 1..7 |-> Vec(Inner(a, b, CombinerList[i]))],
                 left  |-> [i \in 1..7 |-> Vec(Left(a, b, CombinerList[i]))]]
          [] Kind = "pred" ->
                [a |-> s, b |-> t, calls |-> Calls(a, b),
                 inner |-> [i \in 1..5 |-> B(Intersects(a, b, Pred2List[i]))],
                 left  |-> [i \in 1..5 |-> B(LeftPred(a, b, Pred2List[i]))]]
          [] Kind = "prune" ->
                [a |-> s, b |-> t,
                 retain |-> [i \in 1..4 |-> Vec(RetainBy(a, b, Pred1List[i]))],
                 remove |-> [i \in 1..4 |-> Vec(RemoveBy(a, b, Pred1List[i]))]]

(* pruning with every set of accepted values: retained keys for every subset t of b *)
Table(s, t) ==
    LET a == MapI(s)
        b == MapI(t)
        Cov(k, u) == \E q \in Dom(b) : Pref(q, k) /\ Idx(q) \in Present(u)
        Us == SelectSeq(All, LAMBDA u : Present(u) \subseteq Present(t))
    IN  [a |-> s, b |-> t,
         acc |-> [i \in 1..Len(Us) |->
                    [u |-> Us[i], retain |-> Vec(Restrict(a, {k \in Dom(a) : Cov(k, Us[i])}))]]]

(* grouping with every predicate on the branch points *)
GroupTab(s, D) ==
    LET m == MapI(s)
        P == NodePaths(m)
        Reached(n) == \A q \in P : ProperPref(q, n) => q \in D
        heads == SortKeys({n \in P : Reached(n) /\ (n \notin D \/ n \in Dom(m))})
    IN  [i \in 1..Len(heads) |->
            IF heads[i] \in D THEN Vec(Restrict(m, {heads[i]})) ELSE Vec(Restrict(m, Below(m, heads[i])))]
Grouping(s) ==
    LET P == NodePaths(MapI(s))
        Ds == SetToSeq(SUBSET P)
    IN  [a |-> s, paths |-> SortKeys(P),
         g |-> [i \in 1..Len(Ds) |-> [d |-> SetToSeq(Ds[i]), r |-> GroupTab(s, Ds[i])]]]

(* single key operations and prefix queries *)
Edit(s) ==
    LET m == MapA(s) IN
    [a |-> s, args |-> Args,
     insert |-> [i \in 1..Len(Args) |-> Entries(Put(m, Args[i], 5))],
     clear  |-> [i \in 1..Len(Args) |-> Entries(Put(m, Args[i], 0))],
     remove |-> [i \in 1..Len(Args) |-> Entries(Del(m, Args[i]))],
     removeprefix |-> [i \in 1..Len(Args) |-> Entries(DelPrefix(m, Args[i]))],
     get |-> [i \in 1..Len(Args) |-> At(m, Args[i])],
     shape |-> <<B(IsLeaf(m)), RootPath(m), RootValue(m)>>]
Subst == <<<<>>, <<0>>, <<1, 0>>, <<2>>>>
Query(s) ==
    LET m == MapA(s) IN
    [a |-> s, args |-> Args,
     has |-> [i \in 1..Len(Args) |-> B(HasPrefix(m, Args[i]))],
     scan |-> [i \in 1..Len(Args) |-> Scan(m, Args[i])],
     subst |-> Subst,
     filter |-> [i \in 1..Len(Args) |-> [j \in 1..Len(Subst) |-> Entries(Filter(m, Args[i], Subst[j]))]],
     firstentry |-> FirstEntry(m, <<1>>), lastentry |-> LastEntry(m, <<1>>),
     firstvalue |-> FirstValue(m), lastvalue |-> LastValue(m)]

Records ==
    CASE Kind \in {"combine", "pred", "prune"} ->
            [i \in 1..Len(Mine) * Len(All) |->
                Pair(Mine[((i - 1) \div Len(All)) + 1], All[((i - 1) % Len(All)) + 1])]
      [] Kind = "table" ->
            [i \in 1..Len(Mine) * Len(All) |->
                Table(Mine[((i - 1) \div Len(All)) + 1], All[((i - 1) % Len(All)) + 1])]
      [] Kind = "group" -> [i \in 1..Len(Mine) |-> Grouping(Mine[i])]
      [] Kind = "edit" -> [i \in 1..Len(Mine) |-> Edit(Mine[i])]
      [] Kind = "query" -> [i \in 1..Len(Mine) |-> Query(Mine[i])]

ASSUME ndJsonSerialize(IOEnv.OUT, Records)
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
