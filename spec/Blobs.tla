-------------------------------- MODULE Blobs --------------------------------
(* Blobs: views into memory that does not change. A program makes blobs from  *)
(* all kinds of memory, takes slices of them, and keeps them for as long as   *)
(* it likes, whatever happens to where they came from.                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slots
VARIABLES mem,    \* memory -> bytes
          slot    \* slot -> view
vars == <<mem, slot>>

View(m, s, n) == [m |-> m, s |-> s, n |-> n]
NoView == View(-1, 0, 0)
Empty == View(0, 0, 0)      \* an empty blob is nowhere
InUse(i) == slot[i].m >= 0
BytesOf(v) == IF v.n = 0 THEN <<>> ELSE SubSeq(mem[v.m], v.s + 1, v.s + v.n)
Bytes(i) == BytesOf(slot[i])

Init == mem = <<>> /\ slot = [i \in Slots |-> NoView]

Set(i, v) == slot' = [slot EXCEPT ![i] = v] /\ UNCHANGED mem
(* a view of s bytes from n in new memory with content b *)
MakeIn(i, m, b, s, n) ==
    /\ m \in DOMAIN mem => mem[m] = b
    /\ s + n <= Len(b)
    /\ mem' = [x \in DOMAIN mem \cup {m} |-> IF x = m THEN b ELSE mem[x]]
    /\ slot' = [slot EXCEPT ![i] = View(m, s, n)]

(* slices: bounds as Rust has them *)
Begin(b) == CASE b[1] = "unb" -> 0 [] b[1] = "inc" -> b[2] [] b[1] = "exc" -> b[2] + 1
End(b, n) == CASE b[1] = "unb" -> n [] b[1] = "inc" -> b[2] + 1 [] b[1] = "exc" -> b[2]
InRange(v, lo, hi) == Begin(lo) <= End(hi, v.n) /\ End(hi, v.n) <= v.n
Sub(v, lo, hi) == IF Begin(lo) = End(hi, v.n) THEN Empty ELSE View(v.m, v.s + Begin(lo), End(hi, v.n) - Begin(lo))
Slice(i, j, lo, hi) == InUse(i) /\ InRange(slot[i], lo, hi) /\ Set(j, Sub(slot[i], lo, hi))
SlicePanics(i, lo, hi) == InUse(i) /\ ~InRange(slot[i], lo, hi) /\ UNCHANGED vars
(* the slice of i that is the part of k of n bytes from o *)
Part(k, o, n) == View(slot[k].m, slot[k].s + o, n)
Within(v, p) == p.n = 0 \/ (v.n > 0 /\ p.m = v.m /\ p.s >= v.s /\ p.s + p.n <= v.s + v.n)
SliceRef(i, j, k, o, n) == InUse(i) /\ InUse(k) /\ Within(slot[i], Part(k, o, n)) /\ Set(j, IF n = 0 THEN Empty ELSE Part(k, o, n))
SliceRefPanics(i, k, o, n) == InUse(i) /\ InUse(k) /\ ~Within(slot[i], Part(k, o, n)) /\ UNCHANGED vars

Copy(i, j) == InUse(i) /\ Set(j, slot[i])
Drop(i) == Set(i, NoView)
(* an owned blob: the old one is used up *)
ToOwned(i, j) == InUse(i) /\ slot' = [slot EXCEPT ![i] = NoView, ![j] = slot[i]] /\ UNCHANGED mem
Look == UNCHANGED vars

(* comparing: as byte strings *)
RECURSIVE Order(_, _)
Order(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
               ELSE IF b = <<>> THEN 1
               ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
               ELSE Order(Tail(a), Tail(b))

------------------------------------------------------------------------------
(* small programs, to check that slices of slices are slices *)
Content == <<5, 6, 5>>
Other == <<6, 6, 5>>
Kinds == {"unb", "inc", "exc"}
Bounds == {<<k, x>> : k \in Kinds, x \in 0..3}
Next == \/ \E i \in Slots, s \in 0..1, b \in {Content, Other} : MakeIn(i, 1, b, s, 2)
        \/ \E i, j \in Slots, lo, hi \in Bounds : Slice(i, j, lo, hi) \/ SlicePanics(i, lo, hi)
        \/ \E i, j, k \in Slots, o, n \in 0..3 : o + n <= slot[k].n /\ (SliceRef(i, j, k, o, n) \/ SliceRefPanics(i, k, o, n))
        \/ \E i, j \in Slots : Copy(i, j) \/ ToOwned(i, j)
        \/ \E i \in Slots : Drop(i)
Spec == Init /\ [][Next]_vars

Valid == \A i \in Slots : slot[i].n >= 0 /\ (slot[i].m > 0 => slot[i].s + slot[i].n <= Len(mem[slot[i].m]))
(* a slice shows the part of the bytes that its bounds name; the empty slice is there at all places up to the end *)
Allows(lo, hi, x) ==
    /\ CASE lo[1] = "unb" -> TRUE [] lo[1] = "inc" -> lo[2] <= x [] lo[1] = "exc" -> lo[2] < x
    /\ CASE hi[1] = "unb" -> TRUE [] hi[1] = "inc" -> x <= hi[2] [] hi[1] = "exc" -> x < hi[2]
RECURSIVE Those(_, _, _, _)
Those(b, lo, hi, x) == IF x = Len(b) THEN <<>>
                       ELSE (IF Allows(lo, hi, x) THEN <<b[x + 1]>> ELSE <<>>) \o Those(b, lo, hi, x + 1)
SliceBytes == \A i \in Slots, lo, hi \in Bounds :
    InUse(i) /\ InRange(slot[i], lo, hi) => BytesOf(Sub(slot[i], lo, hi)) = Those(Bytes(i), lo, hi, 0)
Nested == \A i \in Slots, lo, hi, lo2, hi2 \in Bounds :
    LET v == slot[i]
        w == Sub(v, lo, hi)
    IN  InUse(i) /\ InRange(v, lo, hi) /\ InRange(w, lo2, hi2) =>
            Sub(w, lo2, hi2) = Sub(v, <<"inc", Begin(lo) + Begin(lo2)>>, <<"exc", Begin(lo) + End(hi2, w.n)>>)
(* what slice gives can be named by slice_ref *)
RefOfSlice == \A i \in Slots, lo, hi \in Bounds :
    InUse(i) /\ InRange(slot[i], lo, hi) => Within(slot[i], Sub(slot[i], lo, hi))
(* the order is total, and equal means equal *)
Ordered == \A i, j \in Slots : InUse(i) /\ InUse(j) =>
    /\ Order(Bytes(i), Bytes(j)) = -Order(Bytes(j), Bytes(i))
    /\ (Order(Bytes(i), Bytes(j)) = 0) <=> (Bytes(i) = Bytes(j))
(* no step changes memory, or more than one slot and one that is used up *)
Stable == [][/\ \A m \in DOMAIN mem : mem'[m] = mem[m]
             /\ Cardinality({i \in Slots : slot'[i] # slot[i] /\ slot'[i] # NoView}) <= 1]_vars
=============================================================================
