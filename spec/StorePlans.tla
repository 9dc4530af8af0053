------------------------------ MODULE StorePlans ------------------------------
(* Writes every sequence of up to N operations on a file store with pages of  *)
(* PS bytes: writes of every length that makes a difference, and reopening;   *)
(* with the ids the layout of PagedFile gives them.                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

PS == atoi(IOEnv.PS)
N == atoi(IOEnv.N)
MaxLen == PS - 8
Lens == IF MaxLen <= 8 THEN 0..MaxLen + 5
        ELSE {0, 1, 3, 4, PS \div 2 - 5, PS \div 2 - 4, PS \div 2 - 3, MaxLen - 5, MaxLen - 4, MaxLen - 3, MaxLen - 1, MaxLen, MaxLen + 5}
Ops == Lens \cup {-1}

(* Inner::append: pad to the page boundary if the blob and its length would not end before it *)
End(pos, n) == pos + n + 4
Start(pos, n) == IF End(pos, n) \div PS # pos \div PS THEN (pos \div PS + 1) * PS ELSE pos
Id(pos, n) == IF n > MaxLen THEN pos ELSE IF n < 0 THEN pos ELSE End(Start(pos, n), n)

RECURSIVE IdsFrom(_, _)
IdsFrom(pos, ops) == IF ops = <<>> THEN <<>>
                     ELSE LET id == Id(pos, ops[1]) IN <<id>> \o IdsFrom(id, Tail(ops))
Plans == UNION {[1..n -> Ops] : n \in 1..N}
(* the layout keeps the ids of different writes apart, and the data of a blob within its page *)
IdsOK(ops) ==
    LET ids == IdsFrom(0, ops)
    IN  \A i \in 1..Len(ops) : ops[i] \in 0..MaxLen =>
          /\ (ids[i] - 1) \div PS = (ids[i] - ops[i] - 4) \div PS
          /\ \A j \in 1..i - 1 : ops[j] \in 0..MaxLen => ids[j] <= ids[i] - ops[i] - 4

ASSUME \A p \in Plans : IdsOK(p)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[ops |-> p, ids |-> IdsFrom(0, p)] : p \in Plans}))
VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================
