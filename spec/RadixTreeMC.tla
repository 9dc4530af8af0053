------------------------------ MODULE RadixTreeMC ------------------------------
(* For all pairs of small maps, each in all forms between "in memory" and "in *)
(* the store", with every possible failing read: the algorithms of RadixTree  *)
(* do what MapOps says, leave canonical trees, and after a failure every key  *)
(* has its old or its new value and doing it again gives the regular result.  *)
EXTENDS RadixTree, TLC
CONSTANTS U, V, Fuel

U3 == {<<0>>, <<0, 1>>, <<0, 1, 2, 2>>}
U4b == {<<0>>, <<0, 1>>, <<0, 1, 2, 2>>, <<0, 2>>}
U4 == {<<>>, <<0>>, <<0, 1, 0>>, <<1>>}
U5 == {<<>>, <<0, 0>>, <<0, 1>>, <<0, 1, 1>>, <<1, 0>>}
Q == {<<>>, <<0>>, <<0, 1>>, <<0, 0>>, <<0, 1, 0>>, <<0, 1, 1>>, <<1>>, <<1, 0>>, <<2>>}

Maps == UNION {[S -> V] : S \in SUBSET U}
(* the forms of a tree: in memory, in the store, and partly loaded *)
RECURSIVE Paths(_, _)
Paths(n, up) == {up \o n.p} \cup UNION {Paths(n.c[i], up \o n.p) : i \in 1..Len(n.c)}
Forms(m) == LET t == TreeOf(m)
                s == Stored(t)
                all == Paths(t, <<>>)
            IN  {t, s, Loaded(s, <<>>, all), Loaded(s, <<>>, {s.p})} \cup {Loaded(s, <<>>, {x \in all : Pref(x, k)}) : k \in DOMAIN m}
VARIABLES a, b, both
Init == a \in Maps /\ b = EmptyMap /\ both = FALSE
Next == ~both /\ a' = a /\ b' \in Maps /\ both' = TRUE

OldOrNew(old, new, m) == \A k \in DOMAIN old \cup DOMAIN new \cup DOMAIN m : At(m, k) \in {At(old, k), At(new, k)}
(* a tree after a failure is not always canonical, but all queries show its content, and it can be used *)
Usable(t) == LET m == Content(t)
             IN  /\ Pairs(t) = Entries(m)
                 /\ FirstIn(t, <<>>) = FirstEntry(m, <<>>) /\ LastIn(t, <<>>) = LastEntry(m, <<>>)
                 /\ \A k \in Q : HasBelow(t, k) = HasPrefix(m, k) /\ GetFrom(t, k) = At(m, k)
                 /\ \A k \in {<<0, 1>>, <<1, 0>>} :
                       /\ Content(InsertInto(t, k, 1, -1).a) = Put(m, k, 1)
                       /\ Content(RemoveFrom(t, k, -1).a) = Del(m, k)
(* one operation in place, without and with failures *)
Right(op, x, y, g, how, old, new) ==
    LET r == With(op, x, y, g, how, -1)
    IN  /\ r.ok /\ Canonical(r.a) /\ Content(r.a) = new
        /\ (how = "copy" /\ x = InMemory(x)) => r.a = InMemory(r.a)
        /\ \A f \in Fuel :
              LET e == With(op, x, y, g, how, f)
                  again == With(op, e.a, y, g, how, -1)
              IN  \/ e.ok /\ Canonical(e.a) /\ Content(e.a) = new
                  \/ /\ ~e.ok
                     /\ OldOrNew(old, new, Content(e.a)) /\ Usable(e.a)
                     \* doing it again, if that is meaningful: old values may already have been combined
                     /\ (op \in {"retain", "remove"} \/ g \in {"left", "right"} \/ (g = "none" /\ op # "outer")) => again.ok /\ Content(again.a) = new /\ Canonical(again.a)

Cs == {"left", "right", "none", "sum", "diff"}
Ps == {"true", "false", "odd"}
InPlace(test(_, _, _)) == \A x \in Forms(a), y \in {TreeOf(b), Stored(TreeOf(b))} :
    \A how \in IF x = TreeOf(a) /\ y # TreeOf(b) THEN {"copy"} ELSE {"same", "copy"} : test(x, y, how)
CombineOK == LET test(x, y, how) == \A g \in Cs : /\ Right("outer", x, y, g, how, a, Outer(a, b, g))
                                                 /\ Right("inner", x, y, g, how, a, Inner(a, b, g))
                                                 /\ Right("left", x, y, g, how, a, Left(a, b, g))
             IN  both => InPlace(test)
PruneOK == LET test(x, y, how) == \A g \in Ps : /\ Right("retain", x, y, g, how, a, RetainBy(a, b, g))
                                               /\ Right("remove", x, y, g, how, a, RemoveBy(a, b, g))
           IN  both => InPlace(test)
NewOK == both => \A x \in {TreeOf(a), Stored(TreeOf(a))}, y \in {TreeOf(b), Stored(TreeOf(b))} :
    \A g \in Cs, op \in {"outer", "inner", "left"} :
        LET new == TreeOf(CASE op = "outer" -> Outer(a, b, g) [] op = "inner" -> Inner(a, b, g) [] op = "left" -> Left(a, b, g))
        IN  \A f \in Fuel \cup {-1} : LET r == Combine(op, x, y, g, f) IN IF r.ok THEN r.n = new ELSE f >= 0
PredsOK == both => \A p \in Pred2Names :
    /\ Inters(TreeOf(a), TreeOf(b), p) = Intersects(a, b, p)
    /\ LeftOnly(TreeOf(a), TreeOf(b), p) = LeftPred(a, b, p)

EditsOK == ~both => \A x \in Forms(a), k \in Q :
    /\ \A v \in V : Right("outer", x, Single(k, v), "right", "same", a, Put(a, k, v))
    /\ Right("left", x, Single(k, 0), "none", "same", a, Del(a, k))
    /\ Right("remove", x, Single(k, 0), "true", "same", a, DelPrefix(a, k))
QueriesOK == ~both => \A x \in Forms(a) :
    /\ Canonical(x) /\ Content(x) = a /\ Pairs(x) = Entries(a)
    /\ DetachNode(x, -1).n = TreeOf(a)
    /\ FirstIn(x, <<9>>) = FirstEntry(a, <<9>>) /\ LastIn(x, <<9>>) = LastEntry(a, <<9>>)
    /\ \A k \in Q :
          /\ GetFrom(x, k) = At(a, k)
          /\ HasBelow(x, k) = HasPrefix(a, k)
          /\ ScanTree(x, k) = Scan(a, k)
          /\ \A s \in {<<>>, <<2, 0>>} : LET t == FilterTree(x, k, s) IN Canonical(t) /\ Content(t) = Filter(a, k, s)
    /\ \A d \in DescendNames :
          LET g == GroupTree(x, <<>>, d)
          IN  /\ \A i \in 1..Len(g) : Canonical(g[i])
              /\ [i \in 1..Len(g) |-> Content(g[i])] = (IF a = EmptyMap /\ ~Descend(d, <<>>) THEN <<EmptyMap>> ELSE Groups(a, d))
=============================================================================
