------------------------------ MODULE TraceStored ------------------------------
(* Checks recorded executions of one tree on one store, with every call the   *)
(* tree makes to the store, against StoredTree and Format. PROP selects which *)
(* answers are judged: C11 the bytes and the content, C17 reads and writes,   *)
(* C12 what may be opened.                                                    *)
EXTENDS StoredTree, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Is11 == Prop = "C11"
Is17 == Prop = "C17"

VARIABLES t, l, pend, odd, vers
tvars == <<m, blobs, refs, touched, t, l, pend, odd, vers>>
Ev == Traces[t].ev

(* pend: blobs written since the tree was last persisted; vers: contents of the
   persisted versions; odd: the tree was opened from an encoding that is not canonical *)
TraceInit == SInit /\ t \in 1..Len(Traces) /\ l = 1 /\ pend = <<>> /\ odd = FALSE /\ vers = NoFun

Edits == {"insert", "remove", "removeprefix", "outerwith", "innerwith", "leftwith", "retain", "removewith"}
Lookups == {"get", "contains", "hasprefix"}
Ranges == {"scan"}
Ends == {"firstentry", "lastentry", "firstvalue", "lastvalue"}
Keys == Sorted(DOMAIN m)
KeysUnder(p) == SelectSeq(Keys, LAMBDA k : IsPrefixOf(p, k))
Pairs(ks) == [i \in 1..Len(ks) |-> <<ks[i], m[ks[i]]>>]
FirstN(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)

WithBlobs(ws) == WithAll(blobs, ws)
PersistNodes(e, bs) == Tree(bs, bs[e.id])

(* the answers the specification gives *)
ResultOK(e) ==
    CASE e.op = "get" -> e.res = IF e.k \in DOMAIN m THEN <<m[e.k]>> ELSE <<>>
      [] e.op = "contains" -> e.res = (e.k \in DOMAIN m)
      [] e.op = "hasprefix" -> e.res = (\E k \in DOMAIN m : IsPrefixOf(e.k, k))
      [] e.op = "scan" -> e.res = Pairs(KeysUnder(e.k))
      [] e.op = "iter" -> e.res = Pairs(FirstN(Keys, e.n))
      [] e.op = "firstentry" -> e.res = Pairs(FirstN(Keys, 1))
      [] e.op = "lastentry" -> e.res = Pairs(IF Keys = <<>> THEN <<>> ELSE <<Keys[Len(Keys)]>>)
      [] e.op = "firstvalue" -> e.res = IF Keys = <<>> THEN <<>> ELSE <<m[Keys[1]]>>
      [] e.op = "lastvalue" -> e.res = IF Keys = <<>> THEN <<>> ELSE <<m[Keys[Len(Keys)]]>>
      [] e.op = "detach" -> e.res = Pairs(Keys)
      [] OTHER -> TRUE

ReadsOK(e) ==
    CASE e.op \in Lookups -> ReadsWithin(e.reads, LAMBDA r : OnPath(r, e.k)) /\ BlocksOnce(e.reads)
      [] e.op = "scan" -> ReadsWithin(e.reads, LAMBDA r : OnOrBelow(r, e.k)) /\ BlocksOnce(e.reads)
      [] e.op \in Ends -> LET at == IF e.op \in {"firstentry", "firstvalue"} THEN 1 ELSE Len(Keys)
                          IN  IF Keys = <<>> THEN ReadsWithin(e.reads, LAMBDA r : r.root)
                              ELSE ReadsWithin(e.reads, LAMBDA r : OnPath(r, Keys[at]) \/ (r.kind = "c" /\ r.path = Keys[at])) /\ BlocksOnce(e.reads)
      [] e.op = "iter" -> /\ e.n < Len(Keys) => ReadsWithin(e.reads, LAMBDA r : IF e.n = 0 THEN r.root /\ r.kind = "p" ELSE NotBeyond(r, Keys[e.n]))
                          /\ BlocksOnce(e.reads)
      [] e.op \in Edits -> ReadsWithin(e.reads, LAMBDA r : Beside(r, touched \cup Touch(e)))
      [] e.op = "open" -> e.reads = <<e.id>>
      [] OTHER -> TRUE
WritesOK(e) == e.op \notin Edits \cup {"persist", "side", "preload", "badopen"} => e.writes = <<>>

PersistOK(e) ==
    LET ws == pend \o e.writes
        bs == WithBlobs(e.writes)
    IN  /\ e.id \in DOMAIN bs
        /\ LET ns == PersistNodes(e, bs)
           IN  CASE Is11 -> WellFormed(ns) /\ Describes(ns, m) /\ (~odd => Canonical(ns)) /\ Compact(ns, ws)
                 [] Is17 -> Incremental(ns, e.id, ws)
                 [] OTHER -> TRUE
SideOK(e) ==
    LET bs == WithBlobs(e.writes)
        ns == PersistNodes(e, bs)
    IN  Is11 => WellFormed(ns) /\ Describes(ns, OfPairs(e.b)) /\ Canonical(ns) /\ Compact(ns, e.writes)

AnswerOK(e) ==
    CASE e.op = "badopen" -> e.st \in {"ok", "err"} /\ (~IsRoot(e.bytes) => e.st = "err")
      [] e.op = "persist" -> e.st = "ok" /\ PersistOK(e)
      [] e.op = "side" -> e.st = "ok" /\ SideOK(e)
      [] OTHER -> /\ e.st = "ok"
                  /\ Is11 => ResultOK(e)
                  /\ Is17 => ReadsOK(e) /\ WritesOK(e)

Keep == UNCHANGED <<m, blobs, refs, touched, pend, odd, vers>>
Do(e) ==
    CASE e.op \in Edits -> /\ m' = After(e) /\ touched' = touched \cup Touch(e)
                           /\ pend' = pend \o e.writes /\ blobs' = WithBlobs(e.writes) /\ UNCHANGED <<refs, odd, vers>>
      [] e.op = "preload" -> LET bs == WithAll(NoFun, e.blobs)
                                 ns == Tree(bs, bs[e.id])
                             IN  /\ Assert(WellFormed(ns), <<"bad plan", e>>)
                                 /\ blobs' = bs /\ refs' = Refs(ns) /\ m' = [k \in KeysOf(ns) |-> ns[MapOf(ns)[k]].value[1]]
                                 /\ touched' = {} /\ pend' = <<>> /\ odd' = ~Canonical(ns) /\ vers' = Set1(NoFun, e.id, m')
      [] e.op = "persist" -> LET bs == WithBlobs(e.writes)
                             IN  /\ blobs' = bs /\ refs' = refs \cup Refs(PersistNodes(e, bs))
                                 /\ touched' = {} /\ pend' = <<>> /\ vers' = Set1(vers, e.id, m) /\ UNCHANGED <<m, odd>>
      [] e.op = "side" -> LET bs == WithBlobs(e.writes)
                          IN  /\ blobs' = bs /\ refs' = refs \cup Refs(PersistNodes(e, bs))
                              /\ UNCHANGED <<m, touched, pend, odd, vers>>
      [] e.op = "open" -> /\ m' = vers[e.id] /\ touched' = {} /\ pend' = <<>> /\ UNCHANGED <<blobs, refs, odd, vers>>
      [] OTHER -> Keep

Step == /\ l <= Len(Ev)
        /\ AnswerOK(Ev[l]) = TRUE
        /\ Do(Ev[l])
        /\ l' = l + 1 /\ t' = t
Done == l > Len(Ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars

Alias == [t |-> t, l |-> l, m |-> m, touched |-> touched, refs |-> refs,
          result |-> l <= Len(Ev) /\ Ev[l].st = "ok" => ResultOK(Ev[l]),
          reads |-> l <= Len(Ev) /\ Ev[l].st = "ok" => ReadsOK(Ev[l]) /\ WritesOK(Ev[l]),
          event |-> IF l <= Len(Ev) THEN Ev[l] ELSE <<>>]
=============================================================================
