----------------------------- MODULE TraceShared -----------------------------
(* Checks recorded concurrent executions of real stores against SharedStore.  *)
(* The events are calls (which already carry their answer) and returns, in    *)
(* the order in which they happened. There has to be a moment for every call  *)
(* between the two at which it took effect with this answer: cfgs is the set  *)
(* of all states the store could be in, with the calls that have taken effect *)
(* and not returned.                                                          *)
EXTENDS SharedStore, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES n, l, pending, cfgs
tvars == <<store, calls, n, l, pending, cfgs>>
Ev == Traces[n].ev
Gaps == Traces[n].kind # "mem"

TraceInit == /\ SInit /\ n \in 1..Len(Traces) /\ l = 1
             /\ pending = <<>>
             /\ cfgs = {[s |-> Nothing, done |-> {}]}

More(cs) == cs \cup UNION {UNION {{[s |-> s1, done |-> c.done \cup {t}] : s1 \in Effects(c.s, pending[t], Gaps)}
                                   : t \in DOMAIN pending \ c.done} : c \in cs}
RECURSIVE Closure(_)
Closure(cs) == LET m == More(cs) IN IF m = cs THEN cs ELSE Closure(m)

Step == /\ l <= Len(Ev)
        /\ LET e == Ev[l]
           IN  IF e.e = "call"
               THEN /\ e.t \notin DOMAIN pending
                    /\ pending' = Put1(pending, e.t, e)
                    /\ cfgs' = cfgs
               ELSE /\ cfgs' = {[c EXCEPT !.done = @ \ {e.t}] : c \in {c \in Closure(cfgs) : e.t \in c.done}}
                    /\ cfgs' # {}
                    /\ pending' = [t \in DOMAIN pending \ {e.t} |-> pending[t]]
        /\ l' = l + 1
        /\ UNCHANGED <<store, calls, n>>
Done == l > Len(Ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Step \/ Done]_tvars

Alias == [n |-> n, l |-> l, pending |-> pending, states |-> cfgs,
          event |-> IF l <= Len(Ev) THEN Ev[l] ELSE <<>>]
=============================================================================
