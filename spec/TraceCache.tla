------------------------------ MODULE TraceCache ------------------------------
(* Checks recorded executions of the browser's file system against CacheFiles.*)
(* Every event has views: what a new process finds in a file when it opens    *)
(* the state the cache was in after one of the changes the operation made,    *)
(* and after appending something to it.                                       *)
EXTENDS CacheFiles, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<files, made, t, l>>
Ev == Traces[t].ev
Range(s) == {s[i] : i \in 1..Len(s)}
Probe == 6
Changing == {"write", "truncate", "append", "delete", "deletedir"}

TraceInit == Init /\ t \in 1..Len(Traces) /\ l = 1

(* e.now: what is in these files after an operation that was cut short *)
Do(e) ==
    IF e.op \notin Changing THEN files' = files /\ made' = made \cup Range(e.files)
    ELSE IF e.st = "ok" THEN Done(Range(e.files), e.op, e.a, e.data)
    ELSE /\ e.st = "err"
         /\ CutShort(Range(e.files), e.op, e.a, e.data)
         /\ \A i \in 1..Len(e.files) : files'[e.files[i]] = e.now[i]

AnswerOK(e) ==
    LET f == e.files[1]
        c == files[f]
    IN  IF e.st = "err" THEN
            \/ e.fault
            \/ e.op = "read" /\ e.b > Len(c)
            \/ e.op = "closed"
            \/ e.op = "blob" /\ ~HasItem(c, e.a)
        ELSE /\ e.st = "ok"
             /\ CASE e.op = "append" -> e.n = Len(c)
                  [] e.op = "blob" -> HasItem(c, e.a) /\ e.got = ItemAt(c, e.a)
                  [] e.op = "read" -> ReadOK(c, e.a, e.b, e.got)
                  [] e.op = "part" -> PartOK(c, e.a, e.b, e.got)
                  [] e.op = "length" -> e.n = Len(c)
                  [] e.op = "exists" -> ExistsOK(f, e.n)
                  \* nothing works any more once the file system was shut down
                  [] e.op = "closed" -> FALSE
                  \* if there was something to delete
                  [] e.op = "delete" -> e.n # -1 => ExistsOK(f, e.n)
                  [] OTHER -> TRUE
ViewOK(e, v) ==
    /\ v.got \in {files[v.f], After(Range(e.files), e.op, e.a, e.data)[v.f]}
    /\ v.probed => v.then = Append(v.got, Probe)
ViewsOK(e) == \A i \in 1..Len(e.views) : ViewOK(e, e.views[i])

Step == /\ l <= Len(Ev)
        /\ (AnswerOK(Ev[l]) /\ ViewsOK(Ev[l])) = TRUE
        /\ Do(Ev[l])
        /\ l' = l + 1 /\ t' = t
Finished == l > Len(Ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Step \/ Finished]_tvars

Alias == [t |-> t, l |-> l, files |-> files, made |-> made,
          answer |-> l <= Len(Ev) => AnswerOK(Ev[l]), views |-> l <= Len(Ev) => ViewsOK(Ev[l]),
          event |-> IF l <= Len(Ev) THEN Ev[l] ELSE <<>>]
==============================================================================
