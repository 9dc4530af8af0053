------------------------------ MODULE TraceMap ------------------------------
(* Checks recorded executions of the real code against RadixMap. The file     *)
(* holds one execution per line: a sequence of events in order of execution.  *)
(* Every event is taken as the RadixMap action of the same name with the      *)
(* recorded arguments; the recorded result and the recorded content of every  *)
(* observed tree must be those of the specification.                          *)
EXTENDS RadixMap, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l       \* execution, position of the next event

tvars == <<tree, iter, val, ver, out, t, l>>
Ev == Traces[t].ev

TraceInit == Init /\ t \in 1..Len(Traces) /\ l = 1

Do(e) ==
    \/ e.op = "new" /\ New(e.g)
    \/ e.op = "newatt" /\ NewAttached(e.g, e.s)
    \/ e.op = "single" /\ Single(e.g, e.k, e.v)
    \/ e.op = "collect" /\ Collect(e.g, e.ps)
    \/ e.op = "clone" /\ CloneTree(e.h, e.g)
    \/ e.op = "drop" /\ DropTree(e.h)
    \/ e.op = "insert" /\ Insert(e.h, e.k, e.v)
    \/ e.op = "remove" /\ RemoveKey(e.h, e.k)
    \/ e.op = "removeprefix" /\ RemovePrefix(e.h, e.k)
    \/ e.op = "get" /\ Get(e.h, e.k)
    \/ e.op = "contains" /\ ContainsKey(e.h, e.k)
    \/ e.op = "isempty" /\ IsEmptyTree(e.h)
    \/ e.op = "iterate" /\ Iterate(e.h)
    \/ e.op = "values" /\ IterateValues(e.h)
    \/ e.op = "hasprefix" /\ HasPrefixOp(e.h, e.k)
    \/ e.op = "scan" /\ ScanPrefix(e.h, e.k)
    \/ e.op = "filter" /\ FilterPrefix(e.h, e.k, e.s, e.g)
    \/ e.op = "firstentry" /\ FirstEntryOp(e.h, e.k)
    \/ e.op = "lastentry" /\ LastEntryOp(e.h, e.k)
    \/ e.op = "firstvalue" /\ FirstValueOp(e.h)
    \/ e.op = "lastvalue" /\ LastValueOp(e.h)
    \/ e.op = "groupby" /\ GroupBy(e.h, e.d)
    \/ e.op = "grouptake" /\ GroupTake(e.h, e.d, e.i, e.g)
    \/ e.op = "outer" /\ OuterCombine(e.h, e.h2, e.f, e.g)
    \/ e.op = "inner" /\ InnerCombine(e.h, e.h2, e.f, e.g)
    \/ e.op = "left" /\ LeftCombine(e.h, e.h2, e.f, e.g)
    \/ e.op = "outerwith" /\ OuterCombineWith(e.h, e.h2, e.f)
    \/ e.op = "innerwith" /\ InnerCombineWith(e.h, e.h2, e.f)
    \/ e.op = "leftwith" /\ LeftCombineWith(e.h, e.h2, e.f)
    \/ e.op = "innerpred" /\ InnerPred(e.h, e.h2, e.p)
    \/ e.op = "leftpred" /\ LeftPredOp(e.h, e.h2, e.p)
    \/ e.op = "retain" /\ Retain(e.h, e.h2, e.p)
    \/ e.op = "removewith" /\ RemoveWith(e.h, e.h2, e.p)
    \/ e.op = "equal" /\ Equal(e.h, e.h2)
    \/ e.op = "shape" /\ Shape(e.h)
    \/ e.op = "show" /\ Show(e.h)
    \/ e.op = "attach" /\ Attach(e.h, e.s, e.g)
    \/ e.op = "reattach" /\ Reattach(e.h)
    \/ e.op = "load" /\ Load(e.i, e.g)
    \/ e.op = "detach" /\ Detach(e.h, e.g)
    \/ e.op = "iternew" /\ IterNew(e.h, e.i, e.k)
    \/ e.op = "iternext" /\ IterNext(e.i, e.n)
    \/ e.op = "viternew" /\ IterNew(e.h, e.i, <<>>)
    \/ e.op = "viternext" /\ IterNextValues(e.i, e.n)
    \/ e.op = "valtake" /\ ValTake(e.h, e.k, e.i)
    \/ e.op = "valread" /\ ValRead(e.i)

---------------------------------------------------------------------------
(* An operation during which a call of the store failed. It has to report an  *)
(* error. An operation in place may have taken effect for some keys; all      *)
(* others change nothing. An iterator has delivered a part of what it should, *)
(* and is finished.                                                           *)
InPlace == {"insert", "remove", "removeprefix", "outerwith", "innerwith", "leftwith", "retain", "removewith"}
NewMap(e) ==
    LET m == M(e.h)
    IN  CASE e.op = "insert" -> Put(m, e.k, e.v)
          [] e.op = "remove" -> Del(m, e.k)
          [] e.op = "removeprefix" -> DelPrefix(m, e.k)
          [] e.op = "outerwith" -> Outer(m, M(e.h2), e.f)
          [] e.op = "innerwith" -> Inner(m, M(e.h2), e.f)
          [] e.op = "leftwith" -> Left(m, M(e.h2), e.f)
          [] e.op = "retain" -> RetainBy(m, M(e.h2), e.p)
          [] e.op = "removewith" -> RemoveBy(m, M(e.h2), e.p)
          [] OTHER -> m
(* every key has its old or its new value *)
OldOrNew(old, new, m) ==
    \A k \in Dom(old) \cup Dom(new) \cup Dom(m) : At(m, k) \in {At(old, k), At(new, k)}
Observed(e, h) == LET i == CHOOSE i \in 1..Len(e.obs) : e.obs[i][1] = h IN FromPairs(e.obs[i][2])
ContentsOf(gs) == [i \in 1..Len(gs) |-> Entries(gs[i])]
PartOf(e) ==
    CASE e.op = "iterate" -> IsPrefix(e.res, Entries(M(e.h)))
      [] e.op = "scan" -> e.res = <<>> \/ IsPrefix(e.res, Scan(M(e.h), e.k))
      [] e.op = "values" -> e.res = <<>> \/ IsPrefix(e.res, ValuesOf(M(e.h)))
      [] e.op = "groupby" -> IsPrefix(e.res[1], ContentsOf(Groups(M(e.h), e.d)))
      [] e.op = "iternext" -> IsPrefix(e.res, Take(iter[e.i], e.n))
      [] e.op = "viternext" ->
            IsPrefix(e.res, LET r == Take(iter[e.i], e.n) IN [j \in 1..Len(r) |-> r[j][2]])
      [] OTHER -> TRUE
Failed(e) ==
    /\ e.fault
    /\ PartOf(e)
    /\ out' = <<>>
    /\ IF e.op \in InPlace
       THEN /\ OldOrNew(M(e.h), NewMap(e), Observed(e, e.h))
            /\ Update(e.h, Observed(e, e.h))
       ELSE IF e.op \in {"iternext", "viternext"}
       THEN iter' = [iter EXCEPT ![e.i] = <<>>] /\ UNCHANGED <<tree, val, ver>>
       ELSE Query

Step == /\ l <= Len(Ev)
        /\ IF Ev[l].st = "err" THEN Failed(Ev[l]) ELSE Do(Ev[l])
        /\ l' = l + 1 /\ t' = t
Done == l > Len(Ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars

(* an observed list of entries is exactly the map, in ascending order *)
Shows(m, es) ==
    /\ Len(es) = Cardinality(DOMAIN m)
    /\ \A i \in 1..Len(es) : es[i][1] \in DOMAIN m /\ m[es[i][1]] = es[i][2]
    /\ \A i \in 1..Len(es) - 1 : Less(es[i][1], es[i + 1][1])

(* the predicate given to a relational predicate is only called with values of common keys *)
CallsOK(e) ==
    e.op \in {"innerpred", "leftpred"} =>
        \A i \in 1..Len(e.calls) :
            \E k \in Common(M(e.h), M(e.h2)) : e.calls[i] = <<M(e.h)[k], M(e.h2)[k]>>

SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(a) :
          Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
Combining == {"outer", "inner", "left", "outerwith", "innerwith", "leftwith"}
ResultOK(e) ==
    CASE e.op \in Combining -> SameBag(e.res, out)
      [] e.op = "groupby" ->
            \* groups without entries do not count; the predicate is asked for reachable branch points only
            /\ SelectSeq(e.res[1], LAMBDA x : x # <<>>) = out[1]
            /\ out[2] = <<>> \/ ToSet(e.res[2]) \subseteq ToSet(out[2])
      [] OTHER -> e.res = out

(* the last event agrees with the specification *)
Conforms ==
    l > 1 =>
        LET e == Ev[l - 1]
        IN  /\ e.st \in {"ok", "err"}
            /\ (e.st = "err") = e.fault
            /\ e.after = 0
            /\ e.st = "ok" => ResultOK(e) /\ CallsOK(e)
            /\ \A i \in 1..Len(e.obs) : Shows(M(e.obs[i][1]), e.obs[i][2])

Alias == [t |-> t, l |-> l, expected |-> out, trees |-> tree,
          event |-> IF l > 1 THEN Ev[l - 1] ELSE <<>>]
=============================================================================
