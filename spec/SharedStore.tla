----------------------------- MODULE SharedStore -----------------------------
(* One blob store used by several threads: every call takes effect at one     *)
(* moment between its invocation and its return. A state of the store is a    *)
(* record [blobs: id -> content, last: id of the last blob written or 0].     *)
(* A call, together with its answer, is a record with                         *)
(*   op   "write", "read", "last", "count", "sync"                            *)
(*   st   "ok" or "err"                                                       *)
(*   id   id written or read; or the last id; or the number of blobs          *)
(*   tok  content written or read                                             *)
(*   big  the content does not fit into the store                             *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Ids, Toks

Put1(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Nothing == [blobs |-> <<>>, last |-> 0]

(* the states after call e with the given answer took effect in state s: none *)
(* if the answer is wrong. gaps: numbers within the file that are not ids may *)
(* be answered with anything                                                  *)
Effects(s, e, gaps) ==
    CASE e.op = "write" /\ e.st = "ok" ->
            IF e.id > 0 /\ e.id \notin DOMAIN s.blobs /\ ~e.big
            THEN {[blobs |-> Put1(s.blobs, e.id, e.tok), last |-> e.id]} ELSE {}
      [] e.op = "write" /\ e.st = "err" -> IF e.big THEN {s} ELSE {}
      [] e.op = "read" /\ e.st = "ok" ->
            IF e.id \in DOMAIN s.blobs
            THEN IF s.blobs[e.id] = e.tok THEN {s} ELSE {}
            ELSE IF gaps /\ e.id < s.last THEN {s} ELSE {}
      [] e.op = "read" /\ e.st = "err" -> IF e.id \notin DOMAIN s.blobs THEN {s} ELSE {}
      [] e.op = "last" /\ e.st = "ok" -> IF e.id = s.last THEN {s} ELSE {}
      [] e.op = "count" /\ e.st = "ok" -> IF e.id = Cardinality(DOMAIN s.blobs) THEN {s} ELSE {}
      [] e.op = "sync" /\ e.st = "ok" -> {s}
      [] OTHER -> {}

---------------------------------------------------------------------------
VARIABLES store,   \* state of the store
          calls    \* thread -> its call: what \in {"idle", "called", "done"}, the call with its answer

svars == <<store, calls>>

None == [op |-> "none", st |-> "ok", id |-> 0, tok |-> 0, big |-> FALSE]
Idle == [what |-> "idle", e |-> None]
\* calls that a thread may make; what is not known yet is 0
Requests == {[None EXCEPT !.op = "write", !.tok = x] : x \in Toks}
            \cup {[None EXCEPT !.op = "read", !.id = i] : i \in Ids}
            \cup {[None EXCEPT !.op = "last"]}
(* the same call with an answer *)
Answers(e) ==
    CASE e.op = "write" -> {[e EXCEPT !.id = i] : i \in Ids}
      [] e.op = "read" -> {[e EXCEPT !.tok = x] : x \in Toks} \cup {[e EXCEPT !.st = "err"]}
      [] e.op = "last" -> {[e EXCEPT !.id = i] : i \in Ids \cup {0}}

SInit == store = Nothing /\ calls = [t \in Threads |-> Idle]
Invoke(t, e) == /\ calls[t].what = "idle"
                /\ calls' = [calls EXCEPT ![t] = [what |-> "called", e |-> e]]
                /\ UNCHANGED store
Effect(t) == /\ calls[t].what = "called"
             /\ \E a \in Answers(calls[t].e) :
                   /\ store' \in Effects(store, a, FALSE)
                   /\ calls' = [calls EXCEPT ![t] = [what |-> "done", e |-> a]]
Return(t) == /\ calls[t].what = "done"
             /\ calls' = [calls EXCEPT ![t] = Idle]
             /\ UNCHANGED store
SNext == \E t \in Threads : (\E e \in Requests : Invoke(t, e)) \/ Effect(t) \/ Return(t)
SSpec == SInit /\ [][SNext]_svars

(* Properties *)
(* what a thread is told it has written is there, and stays there *)
Written == \A t \in Threads :
              calls[t].what = "done" /\ calls[t].e.op = "write" =>
                 calls[t].e.id \in DOMAIN store.blobs /\ store.blobs[calls[t].e.id] = calls[t].e.tok
(* no two threads are given the same id *)
OwnIds == \A t, u \in Threads :
             t # u /\ calls[t].what = "done" /\ calls[u].what = "done"
               /\ calls[t].e.op = "write" /\ calls[u].e.op = "write" => calls[t].e.id # calls[u].e.id
Kept == [][\A id \in DOMAIN store.blobs : id \in DOMAIN store'.blobs /\ store'.blobs[id] = store.blobs[id]]_svars
=============================================================================
