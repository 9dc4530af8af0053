------------------------------ MODULE TraceStore ------------------------------
(* Checks recorded executions of real blob stores against BlobStore. Events   *)
(* may carry views: what the code finds when it opens a state the file was in *)
(* while the operation ran (k = "c": the process ended there; k = "p": the    *)
(* power went and left some mixture), before and after writing to it again.   *)
EXTENDS BlobStore, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
tvars == <<blobs, last, durable, maybe, held, t, l>>
Ev == Traces[t].ev
Err == -1

TraceInit == BInit /\ t \in 1..Len(Traces) /\ l = 1

Opened(e, mb) ==
    IF e.last = last THEN Crash(mb, last)
    ELSE /\ Crash(mb, e.last) /\ blobs'[e.last] = e.found

Do(e) ==
    \/ e.op = "write" /\ e.st = "ok" /\ WriteBlob(e.id, e.tok)
    \/ e.op = "write" /\ e.st = "err" /\ e.fault /\ WriteFails(e.tok)
    \/ e.op = "write" /\ e.st = "err" /\ ~e.fault /\ e.size # "fits" /\ NoChange
    \/ e.op = "read" /\ e.st = "ok" /\ e.slot = 0 /\ NoChange
    \/ e.op = "read" /\ e.st = "ok" /\ e.slot # 0 /\ Hold(e.slot, e.id)
    \/ e.op = "read" /\ e.st = "err" /\ e.fault /\ NoChange
    \/ e.op = "badread" /\ NoChange
    \/ e.op = "last" /\ NoChange
    \/ e.op = "held" /\ NoChange
    \/ e.op = "look" /\ NoChange
    \/ e.op = "sync" /\ e.st = "ok" /\ SyncBlobs
    \/ e.op = "sync" /\ e.st = "err" /\ e.fault /\ NoChange
    \/ e.op = "tryopen" /\ NoChange
    \/ e.op = "open" /\ e.st = "ok" /\ Opened(e, {})
    \/ e.op = "open" /\ e.st = "err" /\ e.fault /\ NoChange
    \/ e.op = "crash" /\ e.st = "ok" /\ Opened(e, IF e.tok = Err THEN {} ELSE {e.tok})
    \/ e.op = "power" /\ e.st = "ok" /\ PowerLoss(e.last)

\* sequences of pairs <<id, content>>
Reads(rs, id, tok) == \E i \in 1..Len(rs) : rs[i][1] = id /\ rs[i][2] = tok
AllRead(f, rs) == \A id \in DOMAIN f : Reads(rs, id, f[id])
(* the contents after writing some more *)
RECURSIVE Written(_, _)
Written(f, ps) ==
    IF ps = <<>> THEN f
    ELSE LET p == ps[1] IN Written(With(f, p[2], p[3]), Tail(ps))
RECURSIVE AllWritten(_, _)
AllWritten(f, ps) ==
    IF ps = <<>> THEN TRUE
    ELSE LET p == ps[1]
                 IN  /\ p[1] = "ok"
                     /\ p[2] \in DOMAIN f => f[p[2]] = p[3]
                     /\ AllWritten(With(f, p[2], p[3]), Tail(ps))
Usable(f, v) ==
    /\ AllRead(f, v.reads)
    /\ AllWritten(f, v.probes)
    /\ AllRead(Written(f, v.probes), v.after)
ViewOK(v, mb) ==
    /\ v.st = "ok"
    /\ IF v.k = "p" THEN Usable(Only(blobs, durable), v)
       ELSE \/ v.last = last /\ Usable(blobs, v)
            \/ v.last \notin DOMAIN blobs /\ v.last # last
               /\ \E tok \in mb : Usable(With(blobs, v.last, tok), v)
InProgress(e) == IF e.op = "write" THEN maybe \cup {e.tok} ELSE maybe
ViewsOK(e) == "views" \in DOMAIN e => \A i \in 1..Len(e.views) : ViewOK(e.views[i], InProgress(e))

(* pages are aligned, and a file has a whole header or nothing yet *)
CanOpen(ps, len) == ps > 0 /\ ps % 8 = 0 /\ (len = 0 \/ len >= 4096)
(* the answer of the next event is the one the contract asks for *)
AnswerOK(e) ==
    CASE e.op = "read" /\ e.st = "ok" -> e.id \in DOMAIN blobs /\ e.tok = blobs[e.id]
      [] e.op = "badread" -> /\ e.st \in {"ok", "err"}
                             /\ (e.idlen # 8 \/ e.id = 0 \/ e.id > last) => e.st = "err"
      [] e.op = "last" -> e.id = last \/ (maybe # {} /\ e.id \notin DOMAIN blobs)
      [] e.op = "held" -> e.tok = held[e.slot]
      [] e.op = "write" -> e.st = "ok" => e.size # "big" /\ e.idlen = 8
      \* some other file: of some length, and with some page size
      [] e.op = "tryopen" -> IF CanOpen(e.ps, e.len) THEN e.st = "ok" ELSE e.st = "err" /\ e.same
      [] OTHER -> TRUE

Step == /\ l <= Len(Ev)
        /\ (AnswerOK(Ev[l]) /\ ViewsOK(Ev[l])) = TRUE
        /\ Do(Ev[l])
        /\ l' = l + 1 /\ t' = t
Done == l > Len(Ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars

Alias == [t |-> t, l |-> l, blobs |-> blobs, last |-> last, durable |-> durable, maybe |-> maybe,
          answer |-> l <= Len(Ev) => AnswerOK(Ev[l]), views |-> l <= Len(Ev) => ViewsOK(Ev[l]),
          event |-> IF l <= Len(Ev) THEN Ev[l] ELSE <<>>]
=============================================================================
