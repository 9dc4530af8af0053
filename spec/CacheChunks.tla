----------------------------- MODULE CacheChunks -----------------------------
(* How the browser's file system keeps a file in a store in which only single *)
(* entries can be put and deleted: as chunks with a level, an offset and      *)
(* data. An operation is a plan of puts and deletes, and the host may go away *)
(* or refuse between any two of them.                                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxLen,    \* of a file
          MaxOps,    \* operations
          MaxBreaks  \* interruptions and failures

VARIABLES chunks,    \* the entries of the store
          plan,      \* the steps of the running operation that are still to do
          todo,      \* an operation whose plan is made when the file is in order again
          old, new,  \* the contents before and after the running operation
          ops, breaks
vars == <<chunks, plan, todo, old, new, ops, breaks>>

Chunk(lv, off, data) == [lv |-> lv, off |-> off, data |-> data]
End(c) == c.off + Len(c.data)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Levels(C) == {c.lv : c \in C}
Above(C) == IF C = {} THEN 0 ELSE Max(Levels(C)) + 1
(* the later one of two chunks hides the earlier one *)
Before(a, b) ==
    \/ a.lv < b.lv
    \/ a.lv = b.lv /\ a.off < b.off
    \/ a.lv = b.lv /\ a.off = b.off /\ Len(a.data) < Len(b.data)
RECURSIVE Ascending(_)
Ascending(C) ==
    IF C = {} THEN <<>>
    ELSE LET c == CHOOSE x \in C : \A y \in C \ {x} : Before(x, y) IN <<c>> \o Ascending(C \ {c})
RECURSIVE ByOffset(_)
ByOffset(C) ==
    IF C = {} THEN <<>>
    ELSE LET c == CHOOSE x \in C : \A y \in C : x.off <= y.off IN <<c>> \o ByOffset(C \ {c})
Holds(c, i) == c.off <= i /\ i < End(c)
ByteAt(C, i) ==
    LET H == {c \in C : Holds(c, i)}
        c == CHOOSE x \in H : \A y \in H \ {x} : Before(y, x)
    IN  c.data[i - c.off + 1]
Bytes(C, a, b) == [i \in 1..(b - a) |-> ByteAt(C, a + i - 1)]
(* a file ends at the first gap *)
Length(C) == Min({i \in 0..(2 * MaxLen) : \A c \in C : ~Holds(c, i)})
Content(C) == Bytes(C, 0, Length(C))

Put(c) == [k |-> "put", c |-> c]
Rewrite(lv, a, b) == [k |-> "rewrite", lv |-> lv, a |-> a, b |-> b]
Delete(c) == [k |-> "delete", c |-> c]
Apply(C, s) ==
    CASE s.k = "put" -> C \cup {s.c}
      [] s.k = "rewrite" ->
            \* an entry with the same level, offset and length is replaced
            {c \in C : ~(c.lv = s.lv /\ c.off = s.a /\ End(c) = s.b)} \cup {Chunk(s.lv, s.a, Bytes(C, s.a, s.b))}
      [] s.k = "delete" -> C \ {s.c}
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))

Overlap(c, a, b) == ~(End(c) <= a \/ b <= c.off)
WritePlan(C, off, data) ==
    LET b == off + Len(data)
        R == {c \in C : Overlap(c, off, b)}
        lv == Above(R)
        Inside(c) == off <= c.off /\ End(c) <= b
        Cut(c) == (IF c.off < off THEN <<Rewrite(lv, c.off, off)>> ELSE <<>>)
                  \o (IF End(c) > b THEN <<Rewrite(lv, b, End(c))>> ELSE <<>>)
                  \o <<Delete(c)>>
    IN  <<Put(Chunk(lv, off, data))>>
        \o Map(Delete, Ascending({c \in R : Inside(c)}))
        \o Cat(Map(Cut, Ascending({c \in R : ~Inside(c)})))
TruncatePlan(C, n) ==
    LET R == {c \in C : End(c) > n}
        s == Min({c.off : c \in R})
    IN  IF R = {} THEN <<>>
        ELSE (IF s < n THEN <<Rewrite(Above(R), s, n)>> ELSE <<>>)
             \o Map(Delete, ByOffset(R))      \* ascending: the first one ends the file
(* brings a file in order: no chunk hides another one, and nothing lies behind the end *)
Runs(S) == {<<a, b>> \in S \X S : a <= b /\ a - 1 \notin S /\ b + 1 \notin S /\ \A i \in a..b : i \in S}
RECURSIVE SortRuns(_)
SortRuns(R) == IF R = {} THEN <<>>
               ELSE LET r == CHOOSE x \in R : \A y \in R : x[1] <= y[1] IN <<r>> \o SortRuns(R \ {r})
RECURSIVE Tidy(_, _, _, _)
Tidy(s, covered, len, lv) ==
    IF s = <<>> THEN <<>>
    ELSE LET c == s[Len(s)]
             I == c.off .. (End(c) - 1)
             rest == SubSeq(s, 1, Len(s) - 1)
             Re(r) == Rewrite(lv, r[1], r[2] + 1)
         IN  IF c.off >= len \/ I = {} THEN <<Delete(c)>> \o Tidy(rest, covered, len, lv)
             ELSE (IF I \cap covered = {} THEN <<>> ELSE Map(Re, SortRuns(Runs(I \ covered))) \o <<Delete(c)>>)
                  \o Tidy(rest, covered \cup I, len, lv)
OpenPlan(C) == Tidy(Ascending(C), {}, Length(C), Above(C))

(* what an operation does to the contents; a gap before the written data is filled with 0 *)
Zeros(n) == [i \in 1..n |-> 0]
Over(f, off, data) ==
    LET g == IF off > Len(f) THEN f \o Zeros(off - Len(f)) ELSE f
        b == off + Len(data)
    IN  SubSeq(g, 1, off) \o data \o SubSeq(g, b + 1, Len(g))
Cut(f, n) == SubSeq(f, 1, IF n < Len(f) THEN n ELSE Len(f))
After(f, o) == IF o.k = "write" THEN Over(f, o.off, o.data) ELSE Cut(f, o.off)
PlanOf(C, o) ==
    IF o.k = "truncate" THEN TruncatePlan(C, o.off)
    ELSE LET n == Length(C) IN IF o.off > n THEN WritePlan(C, n, Zeros(o.off - n) \o o.data) ELSE WritePlan(C, o.off, o.data)

------------------------------------------------------------------------------
None == [k |-> "none"]
Token == ops + 1
Ops == {[k |-> "write", off |-> o, data |-> [i \in 1..n |-> Token]] : o \in 0..MaxLen, n \in 1..MaxLen}
       \cup {[k |-> "truncate", off |-> o] : o \in 0..MaxLen}
Fits(o) == o.k = "truncate" \/ o.off + Len(o.data) <= MaxLen
Idle == plan = <<>> /\ todo = None

Init == /\ chunks = {} /\ plan = <<>> /\ todo = None /\ old = <<>> /\ new = <<>> /\ ops = 0 /\ breaks = 0
Begin == /\ Idle /\ ops < MaxOps
         /\ \E o \in {x \in Ops : Fits(x)} :
               /\ todo' = o /\ plan' = OpenPlan(chunks)
               /\ old' = Content(chunks) /\ new' = After(Content(chunks), o)
         /\ ops' = ops + 1
         /\ UNCHANGED <<chunks, breaks>>
InOrder == /\ plan = <<>> /\ todo # None
           /\ plan' = PlanOf(chunks, todo) /\ todo' = None
           /\ UNCHANGED <<chunks, old, new, ops, breaks>>
Step == /\ plan # <<>>
        /\ chunks' = Apply(chunks, plan[1]) /\ plan' = Tail(plan)
        /\ UNCHANGED <<todo, old, new, ops, breaks>>
(* the host refuses: the operation ends with an error, the file stays open *)
Fail == /\ plan # <<>> /\ breaks < MaxBreaks
        /\ plan' = <<>> /\ todo' = None /\ breaks' = breaks + 1
        /\ old' = Content(chunks) /\ new' = Content(chunks)
        /\ UNCHANGED <<chunks, ops>>
(* the process goes away, and the file is opened again *)
Crash == /\ ~Idle /\ breaks < MaxBreaks
         /\ plan' = OpenPlan(chunks) /\ todo' = None /\ breaks' = breaks + 1
         /\ old' = Content(chunks) /\ new' = Content(chunks)
         /\ UNCHANGED <<chunks, ops>>
Next == Begin \/ InOrder \/ Step \/ Fail \/ Crash
Spec == Init /\ [][Next]_vars

(* whenever the host goes away, the file has the contents before or after *)
Atomic == Content(chunks) \in {old, new}
Finished == Idle => Content(chunks) = new
(* once it is after, it stays after *)
Forward == [][Content(chunks) = new /\ new' = new => Content(chunks') = new]_vars
(* a plan never needs a second look: opening a file that is in order does nothing *)
Orderly == \A c \in chunks : \A d \in chunks \ {c} : ~Overlap(c, d.off, End(d))
OpenIsDone == Orderly /\ (\A c \in chunks : End(c) <= Length(chunks)) => OpenPlan(chunks) = <<>>
(* no entry is put where another one of the same name holds something else *)
NoClash == plan # <<>> /\ plan[1].k = "put" => \A c \in chunks : ~(c.lv = plan[1].c.lv /\ c.off = plan[1].c.off /\ End(c) = End(plan[1].c))
=============================================================================
