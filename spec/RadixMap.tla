------------------------------ MODULE RadixMap ------------------------------
(* State machine of a program that uses radixdb: a number of tree handles,    *)
(* iterators and values that may share structure, stores, and the versions    *)
(* that have been persisted. One action per public operation; the action      *)
(* parameters are the arguments, `out` is the result of the last operation.   *)
EXTENDS MapOps

CONSTANTS Handles,   \* tree handles
          Iters,     \* iterator slots
          Vals       \* slots for values that are kept

VARIABLES tree,      \* handle -> [kind, st, map]; kind is "none", "det"ached or "att"ached
          iter,      \* iterator slot -> what it still has to deliver
          val,       \* value slot -> token
          ver,       \* persisted versions, in order: [st, map]
          out        \* result of the last operation

vars == <<tree, iter, val, ver, out>>
NoTree == [kind |-> "none", st |-> 0, map |-> EmptyMap]

Init == /\ tree = [h \in Handles |-> NoTree]
        /\ iter = [i \in Iters |-> <<>>]
        /\ val = [v \in Vals |-> None]
        /\ ver = <<>>
        /\ out = <<>>

Live(h) == tree[h].kind # "none"
Det(h) == tree[h].kind = "det"
Att(h) == tree[h].kind = "att"
M(h) == tree[h].map

(* helper: operation that replaces the content of h *)
Update(h, m) == tree' = [tree EXCEPT ![h].map = m] /\ UNCHANGED <<iter, val, ver>>
(* helper: operation that binds a tree to handle g *)
Bind(g, k, s, m) == tree' = [tree EXCEPT ![g] = [kind |-> k, st |-> s, map |-> m]]
                    /\ UNCHANGED <<iter, val, ver>>
(* helper: operation that changes no tree *)
Query == UNCHANGED <<tree, iter, val, ver>>

---------------------------------------------------------------------------
(* constructing, cloning, dropping *)
New(g)          == Bind(g, "det", 0, EmptyMap) /\ out' = <<>>
NewAttached(g, s) == Bind(g, "att", s, EmptyMap) /\ out' = <<>>
Single(g, k, v) == Bind(g, "det", 0, Put(EmptyMap, k, v)) /\ out' = <<>>
Collect(g, ps)  == Bind(g, "det", 0, FromPairs(ps)) /\ out' = <<>>
CloneTree(h, g) == Live(h) /\ tree' = [tree EXCEPT ![g] = tree[h]]
                   /\ UNCHANGED <<iter, val, ver>> /\ out' = <<>>
DropTree(h)     == Live(h) /\ tree' = [tree EXCEPT ![h] = NoTree]
                   /\ UNCHANGED <<iter, val, ver>> /\ out' = <<>>

(* single key operations *)
Insert(h, k, v)    == Live(h) /\ Update(h, Put(M(h), k, v)) /\ out' = <<>>
RemoveKey(h, k)      == Live(h) /\ Update(h, Del(M(h), k)) /\ out' = <<>>
RemovePrefix(h, p) == Live(h) /\ Update(h, DelPrefix(M(h), p)) /\ out' = <<>>
Get(h, k)          == Live(h) /\ Query /\ out' = At(M(h), k)
ContainsKey(h, k)  == Live(h) /\ Query /\ out' = (k \in Dom(M(h)))
IsEmptyTree(h)     == Live(h) /\ Query /\ out' = (Dom(M(h)) = {})
Iterate(h)         == Live(h) /\ Query /\ out' = Entries(M(h))
IterateValues(h)   == Live(h) /\ Query /\ out' = ValuesOf(M(h))

(* prefix queries *)
HasPrefixOp(h, p)  == Live(h) /\ Query /\ out' = HasPrefix(M(h), p)
ScanPrefix(h, p)   == Live(h) /\ Query /\ out' = Scan(M(h), p)
FilterPrefix(h, p, s, g) == Live(h) /\ Bind(g, tree[h].kind, tree[h].st, Filter(M(h), p, s)) /\ out' = <<>>
FirstEntryOp(h, p) == Live(h) /\ Query /\ out' = FirstEntry(M(h), p)
LastEntryOp(h, p)  == Live(h) /\ Query /\ out' = LastEntry(M(h), p)
FirstValueOp(h)    == Live(h) /\ Query /\ out' = FirstValue(M(h))
LastValueOp(h)     == Live(h) /\ Query /\ out' = LastValue(M(h))

(* grouping: the contents of all groups, and the paths the predicate was asked for *)
GroupBy(h, d) ==
    /\ Live(h) /\ Query
    /\ LET gs == Groups(M(h), d)
       IN  out' = <<[i \in 1..Len(gs) |-> Entries(gs[i])], SortKeys(GroupAsked(M(h), d))>>
(* keep the i-th group *)
GroupTake(h, d, i, g) ==
    /\ Live(h) /\ i \in 1..Len(Groups(M(h), d))
    /\ Bind(g, tree[h].kind, tree[h].st, Groups(M(h), d)[i]) /\ out' = <<>>

(* bulk operations; the result of the functional ones is a detached tree, `out` lists the calls of the combiner *)
OuterCombine(h1, h2, f, g) == Live(h1) /\ Live(h2) /\ Bind(g, "det", 0, Outer(M(h1), M(h2), f)) /\ out' = Calls(M(h1), M(h2))
InnerCombine(h1, h2, f, g) == Live(h1) /\ Live(h2) /\ Bind(g, "det", 0, Inner(M(h1), M(h2), f)) /\ out' = Calls(M(h1), M(h2))
LeftCombine(h1, h2, f, g)  == Live(h1) /\ Live(h2) /\ Bind(g, "det", 0, Left(M(h1), M(h2), f)) /\ out' = Calls(M(h1), M(h2))
OuterCombineWith(h1, h2, f) == Live(h1) /\ Live(h2) /\ Update(h1, Outer(M(h1), M(h2), f)) /\ out' = Calls(M(h1), M(h2))
InnerCombineWith(h1, h2, f) == Live(h1) /\ Live(h2) /\ Update(h1, Inner(M(h1), M(h2), f)) /\ out' = Calls(M(h1), M(h2))
LeftCombineWith(h1, h2, f)  == Live(h1) /\ Live(h2) /\ Update(h1, Left(M(h1), M(h2), f)) /\ out' = Calls(M(h1), M(h2))
InnerPred(h1, h2, p) == Live(h1) /\ Live(h2) /\ Query /\ out' = Intersects(M(h1), M(h2), p)
LeftPredOp(h1, h2, p) == Live(h1) /\ Live(h2) /\ Query /\ out' = LeftPred(M(h1), M(h2), p)
Retain(h1, h2, p)    == Live(h1) /\ Live(h2) /\ Update(h1, RetainBy(M(h1), M(h2), p)) /\ out' = <<>>
RemoveWith(h1, h2, p) == Live(h1) /\ Live(h2) /\ Update(h1, RemoveBy(M(h1), M(h2), p)) /\ out' = <<>>

(* equality of detached trees, and the shape: is it a leaf, the root prefix and the root value *)
Equal(h1, h2) == Det(h1) /\ Det(h2) /\ Query /\ out' = (M(h1) = M(h2))
Shape(h) == Live(h) /\ Query
            /\ out' = <<IF IsLeaf(M(h)) THEN 1 ELSE 0, RootPath(M(h)), RootValue(M(h))>>

(* looking at a tree by printing it *)
Show(h) == Live(h) /\ Query /\ out' = <<>>

(* stores: attaching, persisting, loading, detaching *)
Attach(h, s, g)  == Det(h) /\ Bind(g, "att", s, M(h)) /\ out' = <<>>
Reattach(h)      == Att(h) /\ ver' = Append(ver, [st |-> tree[h].st, map |-> M(h)])
                    /\ UNCHANGED <<tree, iter, val>> /\ out' = Len(ver) + 1
Load(i, g)       == i \in 1..Len(ver) /\ Bind(g, "att", ver[i].st, ver[i].map) /\ out' = <<>>
Detach(h, g)     == Live(h) /\ Bind(g, "det", 0, M(h)) /\ out' = <<>>

(* iterators and values that outlive later modifications *)
IterNew(h, i, p)    == Live(h) /\ iter' = [iter EXCEPT ![i] = Scan(M(h), p)]
                       /\ UNCHANGED <<tree, val, ver>> /\ out' = <<>>
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
IterNext(i, n)      == iter' = [iter EXCEPT ![i] = Drop(@, Len(Take(@, n)))]
                       /\ UNCHANGED <<tree, val, ver>> /\ out' = Take(iter[i], n)
(* an iterator over the values only *)
IterNextValues(i, n) == LET r == Take(iter[i], n) IN
                       /\ iter' = [iter EXCEPT ![i] = Drop(@, Len(r))]
                       /\ UNCHANGED <<tree, val, ver>> /\ out' = [j \in 1..Len(r) |-> r[j][2]]
ValTake(h, k, v)    == Live(h) /\ val' = [val EXCEPT ![v] = At(M(h), k)]
                       /\ UNCHANGED <<tree, iter, ver>> /\ out' = <<>>
ValRead(v)          == Query /\ out' = val[v]

---------------------------------------------------------------------------
(* Properties *)
IsMap(m) == \A k \in DOMAIN m : m[k] # None
TypeOK == /\ \A h \in Handles : IsMap(M(h)) /\ tree[h].kind \in {"none", "det", "att"}
          /\ \A i \in 1..Len(ver) : IsMap(ver[i].map)
(* persisted versions never change, and are only ever added to *)
VersionsImmutable == [][IsPrefix(ver, ver')]_vars
(* no operation changes more than one tree, or a tree and an iterator *)
Isolation == [][/\ Cardinality({h \in Handles : tree'[h] # tree[h]}) <= 1
                /\ (iter' # iter => tree' = tree)
                /\ (\A i \in Iters : iter'[i] # iter[i] => \A j \in Iters \ {i} : iter'[j] = iter[j])]_vars
=============================================================================
