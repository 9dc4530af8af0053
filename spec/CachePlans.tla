----------------------------- MODULE CachePlans ------------------------------
(* Writes every sequence of up to N operations on one file, with lengths up   *)
(* to MaxLen, for the code to execute.                                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

MaxLen == atoi(IOEnv.LEN)
N == atoi(IOEnv.N)
Ops == {<<"write", o, n>> : o \in 0..MaxLen, n \in 1..MaxLen} \cup {<<"truncate", o, 0>> : o \in 0..MaxLen - 1}
Fits(o) == o[2] + o[3] <= MaxLen
RECURSIVE Lengths(_, _)
Lengths(ops, n) ==
    IF ops = <<>> THEN <<n>>
    ELSE <<n>> \o Lengths(Tail(ops), IF ops[1][1] = "truncate" THEN (IF ops[1][2] < n THEN ops[1][2] ELSE n)
                                     ELSE IF ops[1][2] + ops[1][3] > n THEN ops[1][2] + ops[1][3] ELSE n)
(* without operations that do nothing, and gaps of more than one *)
Useful(p) == LET n == Lengths(p, 0)
             IN  \A i \in 1..Len(p) : IF p[i][1] = "truncate" THEN p[i][2] < n[i] ELSE p[i][2] <= n[i] + 1
RECURSIVE Extend(_, _)
Extend(S, n) == IF n = 0 THEN S
                ELSE LET E == {Append(p, o) : p \in {q \in S : TRUE}, o \in {x \in Ops : Fits(x)}}
                     IN  Extend({p \in E : Useful(p)}, n - 1)
Plans == Extend({<<>>}, N)
Op(o, i) == <<o[1], o[2], [j \in 1..o[3] |-> 6 + 8 * i + j]>>
Written(p) == [i \in 1..Len(p) |-> Op(p[i], i)]

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({Written(p) : p \in Plans}))
VARIABLE x
Init == x = 0
Next == x' = x
==============================================================================
