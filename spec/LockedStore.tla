----------------------------- MODULE LockedStore -----------------------------
(* How the stores of radixdb serve several threads (mem_store.rs,             *)
(* paged_file_store.rs): every call is a critical section. Writing a blob     *)
(* takes several steps: the id is determined by the state of the store        *)
(* (file size or largest key), the data becomes readable, the last id is set. *)
(* A reader finds data that is in the file and not beyond the last id.        *)
(* Variants that give up the lock in between are wrong, and are found to be.  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Ids, Toks, Variant

VARIABLES lock,     \* thread that holds the lock, or 0
          file,     \* id -> content in the file
          end,      \* largest id in the file
          last,     \* last id
          pc,       \* thread -> what it does next
          req,      \* thread -> its call
          ans       \* thread -> its answer
vars == <<lock, file, end, last, pc, req, ans>>
ASSUME 0 \notin Threads

\* the store as its users see it
Committed == [id \in {i \in DOMAIN file : i <= last} |-> file[id]]
abstract == [blobs |-> Committed, last |-> last]
Call(t) == IF pc[t] = "idle" THEN [what |-> "idle", e |-> [op |-> "none", st |-> "ok", id |-> 0, tok |-> 0, big |-> FALSE]]
           ELSE IF pc[t] \in {"unlock", "return"} THEN [what |-> "done", e |-> ans[t]]
           ELSE [what |-> "called", e |-> req[t]]
S == INSTANCE SharedStore WITH store <- abstract, calls <- [t \in Threads |-> Call(t)]

Init == /\ lock = 0 /\ file = <<>> /\ end = 0 /\ last = 0
        /\ pc = [t \in Threads |-> "idle"]
        /\ req = [t \in Threads |-> S!None] /\ ans = [t \in Threads |-> S!None]

To(t, x) == pc' = [pc EXCEPT ![t] = x]
Begin(t) == /\ pc[t] = "idle"
            /\ \E e \in S!Requests : req' = [req EXCEPT ![t] = e] /\ ans' = [ans EXCEPT ![t] = e]
            /\ To(t, "lock")
            /\ UNCHANGED <<lock, file, end, last>>
Lock(t) == /\ pc[t] = "lock" /\ lock = 0
           /\ lock' = t
           /\ To(t, CASE req[t].op = "write" -> "id" [] req[t].op = "read" -> "read" [] OTHER -> "last")
           /\ UNCHANGED <<file, end, last, req, ans>>
Id(t) == /\ pc[t] = "id"
         /\ end + 1 \in Ids
         /\ ans' = [ans EXCEPT ![t].id = end + 1]
         /\ IF Variant = "id before lock" THEN lock' = 0 /\ To(t, "relock") ELSE To(t, "data") /\ UNCHANGED lock
         /\ UNCHANGED <<file, end, last, req>>
Relock(t) == /\ pc[t] = "relock" /\ lock = 0 /\ lock' = t /\ To(t, "data")
             /\ UNCHANGED <<file, end, last, req, ans>>
Data(t) == /\ pc[t] = "data"
           /\ file' = S!Put1(file, ans[t].id, req[t].tok)
           /\ end' = IF end < ans[t].id THEN ans[t].id ELSE end
           /\ To(t, "commit")
           /\ UNCHANGED <<lock, last, req, ans>>
Commit(t) == /\ pc[t] = "commit"
             /\ last' = end
             /\ To(t, IF Variant = "id after lock" THEN "unlock first" ELSE "unlock")
             /\ UNCHANGED <<lock, file, end, req, ans>>
Read(t) == /\ pc[t] = "read"
           /\ LET i == req[t].id
              IN ans' = [ans EXCEPT ![t] = IF i <= last /\ i \in DOMAIN file
                                           THEN [@ EXCEPT !.tok = file[i]] ELSE [@ EXCEPT !.st = "err"]]
           /\ To(t, "unlock")
           /\ UNCHANGED <<lock, file, end, last, req>>
Last(t) == /\ pc[t] = "last"
           /\ ans' = [ans EXCEPT ![t].id = last]
           /\ To(t, "unlock")
           /\ UNCHANGED <<lock, file, end, last, req>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = 0 /\ To(t, "return")
             /\ UNCHANGED <<file, end, last, req, ans>>
\* the id is looked up when the lock has been released
UnlockFirst(t) == /\ pc[t] = "unlock first" /\ lock' = 0 /\ To(t, "look")
                  /\ UNCHANGED <<file, end, last, req, ans>>
Look(t) == /\ pc[t] = "look" /\ ans' = [ans EXCEPT ![t].id = last] /\ To(t, "return")
           /\ UNCHANGED <<lock, file, end, last, req>>
Finish(t) == /\ pc[t] = "return" /\ To(t, "idle")
             /\ req' = [req EXCEPT ![t] = S!None] /\ ans' = [ans EXCEPT ![t] = S!None]
             /\ UNCHANGED <<lock, file, end, last>>

Next == \E t \in Threads : \/ Begin(t) \/ Lock(t) \/ Id(t) \/ Relock(t) \/ Data(t) \/ Commit(t)
                           \/ Read(t) \/ Last(t) \/ Unlock(t) \/ UnlockFirst(t) \/ Look(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars

Refines == S!SSpec
Written == S!Written
OwnIds == S!OwnIds
Kept == S!Kept
Sym == {}
=============================================================================
