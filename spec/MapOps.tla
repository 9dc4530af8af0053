------------------------------- MODULE MapOps -------------------------------
(* The meaning of every public operation of RadixTree on finite maps from     *)
(* keys to values. A map is a function whose domain is a finite set of keys;  *)
(* values are natural number tokens, None stands for "no value".              *)
EXTENDS Keys

None == -1
EmptyMap == [k \in {} |-> 0]
Dom(m) == DOMAIN m
At(m, k) == IF k \in DOMAIN m THEN m[k] ELSE None

(* a map from candidate values: keys with candidate None are absent *)
Build(S, V(_)) == LET W == [k \in S |-> V(k)]
                  IN  Restrict(W, {k \in S : W[k] # None})

Entries(m) == LET s == SortKeys(DOMAIN m) IN [i \in 1..Len(s) |-> <<s[i], m[s[i]]>>]
ValuesOf(m) == LET s == SortKeys(DOMAIN m) IN [i \in 1..Len(s) |-> m[s[i]]]
(* collecting from a sequence of pairs: later pairs replace earlier ones *)
FromPairs(ps) ==
    [k \in {ps[i][1] : i \in 1..Len(ps)} |->
        LET i == CHOOSE i \in 1..Len(ps) : ps[i][1] = k /\ \A j \in i + 1..Len(ps) : ps[j][1] # k
        IN  ps[i][2]]

---------------------------------------------------------------------------
(* single key operations *)
Put(m, k, v) == [j \in DOMAIN m \cup {k} |-> IF j = k THEN v ELSE m[j]]
Del(m, k) == Restrict(m, DOMAIN m \ {k})
DelPrefix(m, p) == Restrict(m, {k \in DOMAIN m : ~Pref(p, k)})

(* prefix queries *)
Below(m, p) == {k \in DOMAIN m : Pref(p, k)}
HasPrefix(m, p) == Below(m, p) # {}
Scan(m, p) == Entries(Restrict(m, Below(m, p)))
Filter(m, p, s) ==
    [k \in {s \o Drop(j, Len(p)) : j \in Below(m, p)} |-> m[p \o Drop(k, Len(s))]]
FirstEntry(m, p) ==
    IF DOMAIN m = {} THEN <<>> ELSE LET k == MinKey(DOMAIN m) IN <<<<p \o k, m[k]>>>>
LastEntry(m, p) ==
    IF DOMAIN m = {} THEN <<>> ELSE LET k == MaxKey(DOMAIN m) IN <<<<p \o k, m[k]>>>>
FirstValue(m) == IF DOMAIN m = {} THEN None ELSE m[MinKey(DOMAIN m)]
LastValue(m) == IF DOMAIN m = {} THEN None ELSE m[MaxKey(DOMAIN m)]

---------------------------------------------------------------------------
(* Named combiners: what to store for a key that is in both maps (None: drop) *)
CombinerNames == {"left", "right", "none", "sum", "diff", "odd", "zero"}
Combiner(f, x, y) ==
    CASE f = "left"  -> x
      [] f = "right" -> y
      [] f = "none"  -> None
      [] f = "sum"   -> (x + y) % 16
      [] f = "diff"  -> IF x = y THEN None ELSE x
      [] f = "odd"   -> IF (x + y) % 2 = 1 THEN None ELSE y
      [] f = "zero"  -> 0
(* Named predicates on one and on two values *)
PredNames == {"true", "false", "odd", "even"}
Pred1(p, y) ==
    CASE p = "true"  -> TRUE
      [] p = "false" -> FALSE
      [] p = "odd"   -> y % 2 = 1
      [] p = "even"  -> y % 2 = 0
Pred2Names == {"true", "false", "eq", "ne", "lt"}
Pred2(p, x, y) ==
    CASE p = "true"  -> TRUE
      [] p = "false" -> FALSE
      [] p = "eq"    -> x = y
      [] p = "ne"    -> x # y
      [] p = "lt"    -> x < y

(* bulk operations *)
Common(a, b) == DOMAIN a \cap DOMAIN b
Outer(a, b, f) ==
    LET V(k) == IF k \notin DOMAIN b THEN a[k]
                ELSE IF k \notin DOMAIN a THEN b[k]
                ELSE Combiner(f, a[k], b[k])
    IN  Build(DOMAIN a \cup DOMAIN b, V)
Inner(a, b, f) == LET V(k) == Combiner(f, a[k], b[k]) IN Build(Common(a, b), V)
Left(a, b, f) ==
    LET V(k) == IF k \in DOMAIN b THEN Combiner(f, a[k], b[k]) ELSE a[k]
    IN  Build(DOMAIN a, V)
(* the calls a combiner receives, in key order *)
Calls(a, b) == LET s == SortKeys(Common(a, b)) IN [i \in 1..Len(s) |-> <<a[s[i]], b[s[i]]>>]
Intersects(a, b, p) == \E k \in Common(a, b) : Pred2(p, a[k], b[k])
LeftPred(a, b, p) == \E k \in DOMAIN a : k \notin DOMAIN b \/ Pred2(p, a[k], b[k])

Covered(b, p, k) == \E q \in DOMAIN b : Pref(q, k) /\ Pred1(p, b[q])
RetainBy(a, b, p) == Restrict(a, {k \in DOMAIN a : Covered(b, p, k)})
RemoveBy(a, b, p) == Restrict(a, {k \in DOMAIN a : ~Covered(b, p, k)})

---------------------------------------------------------------------------
(* The shape of the canonical radix tree of a map *)
(* branch points below p: keys, and longest common prefixes of two keys *)
NodePaths(m) == DOMAIN m \cup {Lcp2(a, b) : a, b \in DOMAIN m}
RootPath(m) == IF DOMAIN m = {} THEN <<>> ELSE Lcp(DOMAIN m)
RootValue(m) == At(m, RootPath(m))
IsLeaf(m) == Cardinality(DOMAIN m) <= 1

(* Named predicates on paths, for group_by *)
DescendNames == {"always", "never", "short", "even", "lastodd"}
Descend(d, p) ==
    CASE d = "always"  -> TRUE
      [] d = "never"   -> FALSE
      [] d = "short"   -> Len(p) < 2
      [] d = "even"    -> Len(p) % 2 = 0
      [] d = "lastodd" -> Len(p) = 0 \/ p[Len(p)] % 2 = 1
(* The groups, in order. A branch point is reached if the predicate holds at all shorter ones *)
GroupHeads(m, d) ==
    LET N == NodePaths(m)
        Reached(n) == \A q \in N : ProperPref(q, n) => Descend(d, q)
    IN  {n \in N : Reached(n) /\ (~Descend(d, n) \/ n \in DOMAIN m)}
Groups(m, d) ==
    LET h == SortKeys(GroupHeads(m, d))
    IN  [i \in 1..Len(h) |->
           IF Descend(d, h[i]) THEN Restrict(m, {h[i]}) ELSE Restrict(m, Below(m, h[i]))]
(* the branch points at which the predicate is evaluated *)
GroupAsked(m, d) ==
    LET N == NodePaths(m)
    IN  {n \in N : \A q \in N : ProperPref(q, n) => Descend(d, q)}
=============================================================================
