------------------------------- MODULE RadixTree -------------------------------
(* The algorithms of the radix tree, on nodes, as src/node/mod.rs has them:   *)
(* trees are combined in place or into a new tree, parts of them are in a     *)
(* store and are read when they are needed, and each of these reads may fail. *)
(* RadixTreeMC checks that they do what MapOps says the operations mean.      *)
EXTENDS MapOps

(* A node: its prefix p and value v, each of which may be kept in the store   *)
(* (pl, vl), and its children: none, a vector in memory ("mem"), or a block   *)
(* in the store ("id"). A vector may be empty while an operation is going on. *)
Node(p, v, ck, c) == [p |-> p, pl |-> FALSE, v |-> v, vl |-> FALSE, ck |-> ck, c |-> c]
Nil == Node(<<>>, None, "none", <<>>)
Single(k, v) == Node(k, v, "none", <<>>)
HasValue(n) == n.v # None
Leaf(n) == n.ck = "none"
IsNil(n) == ~HasValue(n) /\ Leaf(n)
First(n) == n.p[1]     \* is known even if the prefix is in the store

(* Reads: f is the number of reads that succeed before one fails, or -1 if    *)
(* none fails (any more). All operators below return ok and f.                *)
Rd(needed, f) == IF ~needed \/ f < 0 THEN [ok |-> TRUE, f |-> f]
                 ELSE IF f = 0 THEN [ok |-> FALSE, f |-> -1] ELSE [ok |-> TRUE, f |-> f - 1]
(* a second read, if the first one succeeded *)
Then(r, needed) == IF r.ok THEN Rd(needed, r.f) ELSE r

------------------------------------------------------------------------------
(* the content of a tree, and its shape *)
RECURSIVE MapAt(_, _), MapAll(_, _)
MapAt(n, up) == LET here == up \o n.p
                IN  (IF HasValue(n) THEN <<<<here, n.v>>>> ELSE <<>>) \o MapAll(n.c, here)
MapAll(c, up) == IF c = <<>> THEN <<>> ELSE MapAt(c[1], up) \o MapAll(Tail(c), up)
Pairs(n) == MapAt(n, <<>>)
Content(n) == FromPairs(Pairs(n))

RECURSIVE Proper(_)
(* below the root: a prefix, a value or two children; children sorted by first byte *)
Proper(n) == /\ n.ck = "none" <=> n.c = <<>>
             /\ \A i \in 1..Len(n.c) :
                   /\ n.c[i].p # <<>>
                   /\ i > 1 => First(n.c[i - 1]) < First(n.c[i])
                   /\ HasValue(n.c[i]) \/ Len(n.c[i].c) >= 2
                   /\ Proper(n.c[i])
Canonical(n) == /\ Proper(n)
                /\ HasValue(n) \/ Len(n.c) # 1
                /\ IsNil(n) => n.p = <<>>

(* the canonical tree of a map, in memory *)
RECURSIVE TreeOf(_)
TreeOf(m) ==
    IF m = EmptyMap THEN Nil
    ELSE LET p == RootPath(m)
             rest == DOMAIN m \ {p}
             firsts == {k[Len(p) + 1] : k \in rest}
             order == SetToSortSeq(firsts, <)
             sub(x) == LET ks == {k \in rest : k[Len(p) + 1] = x}
                       IN  [j \in {Drop(k, Len(p)) : k \in ks} |-> m[p \o j]]
         IN  Node(p, At(m, p), IF rest = {} THEN "none" ELSE "mem", [i \in 1..Len(order) |-> TreeOf(sub(order[i]))])

(* a tree in the store: big values and long prefixes apart from their nodes *)
CONSTANTS Big,      \* values that are kept apart
          Long      \* length from which prefixes are
RECURSIVE Stored(_)
Stored(n) == [n EXCEPT !.pl = Len(n.p) >= Long, !.vl = n.v \in Big,
                       !.ck = IF n.c = <<>> THEN "none" ELSE "id", !.c = [i \in 1..Len(n.c) |-> Stored(n.c[i])]]
(* all of it in memory *)
RECURSIVE InMemory(_)
InMemory(n) == [n EXCEPT !.pl = FALSE, !.vl = FALSE, !.ck = IF n.c = <<>> THEN "none" ELSE "mem", !.c = [i \in 1..Len(n.c) |-> InMemory(n.c[i])]]
(* the children of those nodes whose paths are in on are in memory, if those above them are *)
RECURSIVE Loaded(_, _, _)
Loaded(n, up, on) ==
    LET here == up \o n.p
    IN  IF n.ck = "id" /\ here \in on THEN [n EXCEPT !.ck = "mem", !.c = [i \in 1..Len(n.c) |-> Loaded(n.c[i], here, on)]] ELSE n

------------------------------------------------------------------------------
(* parts of the operations *)
RECURSIVE DetachNode(_, _), DetachAll(_, _)
(* copies a tree to memory *)
DetachNode(n, f) ==
    LET r == Then(Then(Rd(n.pl, f), n.vl), n.ck = "id")
        c == DetachAll(n.c, r.f)
    IN  IF ~r.ok THEN [ok |-> FALSE, f |-> r.f, n |-> Nil]
        ELSE IF ~c.ok THEN [ok |-> FALSE, f |-> c.f, n |-> Nil]
        ELSE [ok |-> TRUE, f |-> c.f, n |-> Node(n.p, n.v, IF n.c = <<>> THEN "none" ELSE "mem", c.c)]
DetachAll(c, f) ==
    IF c = <<>> THEN [ok |-> TRUE, f |-> f, c |-> <<>>]
    ELSE LET x == DetachNode(c[1], f)
             y == DetachAll(Tail(c), x.f)
         IN  IF ~x.ok THEN [ok |-> FALSE, f |-> x.f, c |-> <<>>]
             ELSE [ok |-> y.ok, f |-> y.f, c |-> <<x.n>> \o y.c]

(* how nodes of one tree become nodes of another: by reference to the same store, or as copies *)
Convert(n, how, f) == IF how = "same" THEN [ok |-> TRUE, f |-> f, n |-> n] ELSE DetachNode(n, f)
ConvertValue(n, how, f) == IF how = "same" THEN [ok |-> TRUE, f |-> f, vl |-> n.vl] ELSE Rd(n.vl, f) @@ [vl |-> FALSE]

Shorten(n, k, f) == LET r == Rd(n.pl, f) IN [ok |-> r.ok, f |-> r.f, n |-> [n EXCEPT !.p = Drop(@, k), !.pl = FALSE]]

(* the children become a vector that can be changed *)
LoadMut(a, f) == LET r == Rd(a.ck = "id", f) IN [ok |-> r.ok, f |-> r.f, a |-> IF r.ok THEN [a EXCEPT !.ck = "mem"] ELSE a]

SplitAt(a, k, f) ==
    LET r == Rd(a.pl, f)
        child == [a EXCEPT !.p = Drop(@, k), !.pl = FALSE]
    IN  [ok |-> r.ok, f |-> r.f, a |-> IF r.ok THEN Node(SubSeq(a.p, 1, k), None, "mem", <<child>>) ELSE a]

(* a node without value and with one child is merged with that child *)
Canon(a, f) ==
    LET merge == ~HasValue(a) /\ a.ck # "id" /\ Len(a.c) = 1
        ch == a.c[1]
        r == IF merge THEN Then(Rd(a.pl, f), ch.pl) ELSE [ok |-> TRUE, f |-> f]
        b == IF merge THEN [ch EXCEPT !.p = a.p \o @, !.pl = FALSE] ELSE a
        none == b.ck # "id" /\ b.c = <<>>
    IN  IF ~r.ok THEN [ok |-> FALSE, f |-> r.f, a |-> a]
        ELSE [ok |-> TRUE, f |-> r.f,
              a |-> IF ~none THEN b
                    ELSE IF HasValue(b) THEN [b EXCEPT !.ck = "none"] ELSE Nil]
Clear(a) == [a EXCEPT !.v = None, !.vl = FALSE, !.ck = "none", !.c = <<>>]

------------------------------------------------------------------------------
(* Combination in place. op is one of outer, inner, left, retain, remove; g   *)
(* the combiner, or the predicate of retain and remove.                       *)
Result(ok, f, a) == [ok |-> ok, f |-> f, a |-> a]

(* what is done to the values at the same place *)
CombineValues(a, b, g, f) ==
    LET r == Then(Rd(a.vl, f), b.vl)
    IN  Result(r.ok, r.f, IF r.ok THEN [a EXCEPT !.v = Combiner(g, a.v, b.v), !.vl = FALSE] ELSE a)
(* retain and remove: whether the value of b covers everything below it *)
Covers(b, g, f) == LET r == Rd(HasValue(b) /\ b.vl, f) IN [ok |-> r.ok, f |-> r.f, yes |-> HasValue(b) /\ Pred1(g, b.v)]

RECURSIVE With(_, _, _, _, _, _), WithChildren(_, _, _, _, _, _), Merge(_, _, _, _, _, _, _)
(* an operation that is made of steps, of which the rest is skipped if one fails *)
WithNode(op, a, b, g, how, f) ==
    LET r0 == Then(Rd(a.pl, f), b.pl)
        n == CommonLen(a.p, b.p, 0)
        same == n = Len(a.p) /\ n = Len(b.p)
        \* the children of b are those of b, or b itself without the first n bytes of its prefix
        down(x) == IF ~x.ok THEN x ELSE LET l == LoadMut(x.a, x.f)
                                            r == Rd(b.ck = "id", l.f)
                                        IN  IF ~l.ok THEN Result(FALSE, l.f, l.a)
                                            ELSE IF ~r.ok THEN Result(FALSE, r.f, l.a)
                                            ELSE WithChildren(op, l.a, b.c, g, how, r.f)
        over(x) == IF ~x.ok THEN x ELSE LET l == LoadMut(x.a, x.f)
                                            s == Shorten(b, n, l.f)
                                        IN  IF ~l.ok THEN Result(FALSE, l.f, l.a)
                                            ELSE IF ~s.ok THEN Result(FALSE, s.f, l.a)
                                            ELSE WithChildren(op, l.a, <<s.n>>, g, how, s.f)
        ok(x) == Result(TRUE, r0.f, x)
    IN  IF ~r0.ok THEN Result(FALSE, r0.f, a)
        ELSE CASE op = "outer" ->
               IF n = Len(b.p)
               THEN LET s == IF n = Len(a.p) THEN ok(a) ELSE SplitAt(a, n, r0.f)
                        v == IF ~s.ok \/ ~HasValue(b) THEN s
                             ELSE IF HasValue(s.a) THEN CombineValues(s.a, b, g, s.f)
                             ELSE LET r == ConvertValue(b, how, s.f)
                                  IN  Result(r.ok, r.f, IF r.ok THEN [s.a EXCEPT !.v = b.v, !.vl = r.vl] ELSE s.a)
                    IN  down(v)
               ELSE IF n = Len(a.p) THEN over(ok(a))
               ELSE LET s == SplitAt(a, n, r0.f)
                        sh == Shorten(b, n, s.f)
                        c == Convert(sh.n, how, sh.f)
                    IN  IF ~s.ok THEN s
                        ELSE IF ~sh.ok THEN Result(FALSE, sh.f, s.a)
                        ELSE IF ~c.ok THEN Result(FALSE, c.f, s.a)
                        ELSE Result(TRUE, c.f, [s.a EXCEPT !.c = IF First(@[1]) < First(c.n) THEN @ \o <<c.n>> ELSE <<c.n>> \o @])
             [] op = "inner" ->
               IF same THEN down(IF HasValue(a) /\ HasValue(b) THEN CombineValues(a, b, g, r0.f) ELSE ok([a EXCEPT !.v = None, !.vl = FALSE]))
               ELSE IF n = Len(a.p) THEN over(ok([a EXCEPT !.v = None, !.vl = FALSE]))
               ELSE IF n = Len(b.p) THEN down(SplitAt(a, n, r0.f))
               ELSE ok(Clear(a))
             [] op = "left" ->
               IF same THEN down(IF HasValue(a) /\ HasValue(b) THEN CombineValues(a, b, g, r0.f) ELSE ok(a))
               ELSE IF n = Len(a.p) THEN over(ok(a))
               ELSE IF n = Len(b.p) THEN down(SplitAt(a, n, r0.f))
               ELSE ok(a)
             [] op = "retain" ->
               IF n = Len(b.p)
               THEN LET c == Covers(b, g, r0.f)
                    IN  IF ~c.ok THEN Result(FALSE, c.f, a)
                        ELSE IF c.yes THEN Result(TRUE, c.f, a)
                        ELSE IF same THEN down(Result(TRUE, c.f, [a EXCEPT !.v = None, !.vl = FALSE]))
                        ELSE down(SplitAt(a, n, c.f))
               ELSE IF n = Len(a.p) THEN over(ok([a EXCEPT !.v = None, !.vl = FALSE]))
               ELSE ok(Clear(a))
             [] op = "remove" ->
               IF n = Len(b.p)
               THEN LET c == Covers(b, g, r0.f)
                    IN  IF ~c.ok THEN Result(FALSE, c.f, a)
                        ELSE IF c.yes THEN Result(TRUE, c.f, Clear(a))
                        ELSE IF same THEN down(Result(TRUE, c.f, a))
                        ELSE down(SplitAt(a, n, c.f))
               ELSE IF n = Len(a.p) THEN over(ok(a))
               ELSE ok(a)
(* in any case the node is made canonical *)
With(op, a, b, g, how, f) ==
    LET r == WithNode(op, a, b, g, how, f)
        c == Canon(r.a, r.f)
    IN  Result(r.ok /\ c.ok, c.f, c.a)

WithChildren(op, a, bc, g, how, f) ==
    LET m == Merge(op, a.c, bc, <<>>, g, how, f)
    IN  IF bc = <<>> THEN Result(TRUE, f, IF op \in {"inner", "retain"} THEN [a EXCEPT !.c = <<>>] ELSE a)
        ELSE Result(m.ok, m.f, [a EXCEPT !.c = m.c])
(* both lists are in order of the first bytes. After a failure the rest of the children is kept. *)
Merge(op, ac, bc, done, g, how, f) ==
    IF ac = <<>> /\ bc = <<>> THEN [ok |-> TRUE, f |-> f, c |-> done]
    ELSE IF bc = <<>> \/ (ac # <<>> /\ First(ac[1]) < First(bc[1]))
    THEN Merge(op, Tail(ac), bc, IF op \in {"inner", "retain"} THEN done ELSE done \o <<ac[1]>>, g, how, f)
    ELSE IF ac # <<>> /\ First(ac[1]) = First(bc[1])
    THEN LET r == With(op, ac[1], bc[1], g, how, f)
             d == IF IsNil(r.a) THEN done ELSE done \o <<r.a>>
         IN  IF r.ok THEN Merge(op, Tail(ac), Tail(bc), d, g, how, r.f)
             ELSE [ok |-> FALSE, f |-> r.f, c |-> d \o Tail(ac)]
    ELSE IF op = "outer"
    THEN LET r == Convert(bc[1], how, f)
         IN  IF r.ok THEN Merge(op, ac, Tail(bc), done \o <<r.n>>, g, how, r.f)
             ELSE [ok |-> FALSE, f |-> r.f, c |-> done \o ac]
    ELSE Merge(op, ac, Tail(bc), done, g, how, f)

InsertInto(a, k, v, f) == With("outer", a, Single(k, v), "right", "same", f)
RemoveFrom(a, k, f) == With("left", a, Single(k, 0), "none", "same", f)
RemovePrefixFrom(a, k, f) == With("remove", a, Single(k, 0), "true", "same", f)

------------------------------------------------------------------------------
(* Combination into a new tree in memory. If a read fails there is no result. *)
RECURSIVE Combine(_, _, _, _, _), Join(_, _, _, _, _, _)
Fail(f) == [ok |-> FALSE, f |-> f, n |-> Nil]
Combine(op, a, b, g, f) ==
    LET r0 == Then(Rd(a.pl, f), b.pl)
        n == CommonLen(a.p, b.p, 0)
        same == n = Len(a.p) /\ n = Len(b.p)
        both == same /\ HasValue(a) /\ HasValue(b)
        \* which values there are at this place
        av == n = Len(a.p) /\ HasValue(a)
        bv == n = Len(b.p) /\ HasValue(b)
        take == IF both THEN "g" ELSE IF av /\ op # "inner" THEN "a" ELSE IF bv /\ op = "outer" THEN "b" ELSE "no"
        r1 == CASE take = "g" -> Then(Rd(a.vl, r0.f), b.vl)
                [] take = "a" -> Rd(a.vl, r0.f)
                [] take = "b" -> Rd(b.vl, r0.f)
                [] OTHER -> r0
        v == CASE take = "g" -> Combiner(g, a.v, b.v) [] take = "a" -> a.v [] take = "b" -> b.v [] OTHER -> None
        sa == Shorten(a, n, r1.f)
        ra == IF n = Len(a.p) THEN Rd(a.ck = "id", r1.f) ELSE [ok |-> sa.ok, f |-> sa.f]
        ac == IF n = Len(a.p) THEN a.c ELSE <<sa.n>>
        sb == Shorten(b, n, ra.f)
        rb == IF n = Len(b.p) THEN Rd(b.ck = "id", ra.f) ELSE [ok |-> sb.ok, f |-> sb.f]
        bc == IF n = Len(b.p) THEN b.c ELSE <<sb.n>>
        j == Join(op, ac, bc, <<>>, g, rb.f)
        apart == n < Len(a.p) /\ n < Len(b.p)
        whole == DetachNode(a, r0.f)
        res == Canon(Node(SubSeq(a.p, 1, n), v, IF j.c = <<>> THEN "none" ELSE "mem", j.c), j.f)
    IN  IF ~r0.ok THEN Fail(r0.f)
        ELSE IF apart /\ op = "inner" THEN [ok |-> TRUE, f |-> r0.f, n |-> Nil]
        ELSE IF apart /\ op = "left" THEN whole
        ELSE IF ~r1.ok THEN Fail(r1.f)
        ELSE IF ~ra.ok THEN Fail(ra.f)
        ELSE IF ~rb.ok THEN Fail(rb.f)
        ELSE IF ~j.ok THEN Fail(j.f)
        ELSE [ok |-> TRUE, f |-> j.f, n |-> res.a]
Join(op, ac, bc, done, g, f) ==
    LET one == ac # <<>> /\ (bc = <<>> \/ First(ac[1]) < First(bc[1]))
        two == ac # <<>> /\ bc # <<>> /\ First(ac[1]) = First(bc[1])
        keep == IF two THEN TRUE ELSE IF one THEN op # "inner" ELSE op = "outer"
        r == IF ~keep THEN [ok |-> TRUE, f |-> f, n |-> Nil]
             ELSE IF two THEN Combine(op, ac[1], bc[1], g, f)
             ELSE DetachNode(IF one THEN ac[1] ELSE bc[1], f)
        d == IF IsNil(r.n) THEN done ELSE done \o <<r.n>>
    IN  IF ac = <<>> /\ bc = <<>> THEN [ok |-> TRUE, f |-> f, c |-> done]
        ELSE IF ~r.ok THEN [ok |-> FALSE, f |-> r.f, c |-> <<>>]
        ELSE Join(op, IF one \/ two THEN Tail(ac) ELSE ac, IF one THEN bc ELSE Tail(bc), d, g, r.f)

(* the predicates: the answer is found as soon as one pair decides *)
RECURSIVE Inters(_, _, _), LeftOnly(_, _, _)
Inters(a, b, g) ==
    LET n == CommonLen(a.p, b.p, 0)
        ac == IF n = Len(a.p) THEN a.c ELSE <<[a EXCEPT !.p = Drop(@, n)]>>
        bc == IF n = Len(b.p) THEN b.c ELSE <<[b EXCEPT !.p = Drop(@, n)]>>
    IN  IF n < Len(a.p) /\ n < Len(b.p) THEN FALSE
        ELSE \/ n = Len(a.p) /\ n = Len(b.p) /\ HasValue(a) /\ HasValue(b) /\ Pred2(g, a.v, b.v)
             \/ \E i \in 1..Len(ac), j \in 1..Len(bc) : First(ac[i]) = First(bc[j]) /\ Inters(ac[i], bc[j], g)
LeftOnly(a, b, g) ==
    LET n == CommonLen(a.p, b.p, 0)
        ac == IF n = Len(a.p) THEN a.c ELSE <<[a EXCEPT !.p = Drop(@, n)]>>
        bc == IF n = Len(b.p) THEN b.c ELSE <<[b EXCEPT !.p = Drop(@, n)]>>
        av == n = Len(a.p) /\ HasValue(a)
        bv == n = Len(b.p) /\ HasValue(b)
    IN  IF n < Len(a.p) /\ n < Len(b.p) THEN ~IsNil(a)
        ELSE \/ av /\ (bv => Pred2(g, a.v, b.v))
             \/ \E i \in 1..Len(ac) : LET js == {j \in 1..Len(bc) : First(bc[j]) = First(ac[i])}
                                      IN  js = {} \/ \E j \in js : LeftOnly(ac[i], bc[j], g)

------------------------------------------------------------------------------
(* Queries. How far a path can be followed: exactly to a node, to a place     *)
(* within the prefix of a node, or not.                                       *)
NotFound(f) == [ok |-> TRUE, f |-> f, how |-> "no", n |-> Nil, k |-> 0]
RECURSIVE Find(_, _, _)
Find(n, k, f) ==
    LET r == Rd(n.pl, f)
        c == CommonLen(n.p, k, 0)
        s == Rd(n.ck = "id", r.f)
        next == {i \in 1..Len(n.c) : First(n.c[i]) = k[c + 1]}
    IN  IF ~r.ok THEN [ok |-> FALSE, f |-> r.f, how |-> "no", n |-> Nil, k |-> 0]
        ELSE IF c = Len(k) THEN [ok |-> TRUE, f |-> r.f, how |-> IF c = Len(n.p) THEN "found" ELSE "prefix", n |-> n, k |-> c]
        ELSE IF c < Len(n.p) THEN NotFound(r.f)
        ELSE IF ~s.ok THEN [ok |-> FALSE, f |-> s.f, how |-> "no", n |-> Nil, k |-> 0]
        ELSE IF next = {} THEN NotFound(s.f)
        ELSE Find(n.c[CHOOSE i \in next : TRUE], Drop(k, c), s.f)
GetFrom(n, k) == LET r == Find(n, k, -1) IN IF r.how = "found" THEN r.n.v ELSE None
HasBelow(n, k) == LET r == Find(n, k, -1) IN r.how = "prefix" \/ (r.how = "found" /\ ~IsNil(r.n))
FilterTree(n, k, s) ==
    LET r == Find(n, k, -1)
    IN  IF r.how = "no" \/ IsNil(r.n) THEN Nil
        ELSE [r.n EXCEPT !.p = s \o (IF r.how = "found" THEN <<>> ELSE Drop(@, r.k)), !.pl = FALSE]
ScanTree(n, k) ==
    LET r == Find(n, k, -1)
    IN  IF r.how = "no" THEN <<>>
        ELSE MapAt(r.n, SubSeq(k, 1, Len(k) - (IF r.how = "found" THEN Len(r.n.p) ELSE r.k)))
RECURSIVE FirstIn(_, _), LastIn(_, _)
FirstIn(n, up) == IF HasValue(n) THEN <<<<up \o n.p, n.v>>>> ELSE IF n.c = <<>> THEN <<>> ELSE FirstIn(n.c[1], up \o n.p)
LastIn(n, up) == IF n.c # <<>> THEN LastIn(n.c[Len(n.c)], up \o n.p) ELSE IF HasValue(n) THEN <<<<up \o n.p, n.v>>>> ELSE <<>>
RECURSIVE GroupTree(_, _, _), GroupAll(_, _, _)
GroupTree(n, up, d) ==
    LET here == up \o n.p
    IN  IF ~Descend(d, here) THEN <<[n EXCEPT !.p = here, !.pl = FALSE]>>
        ELSE (IF HasValue(n) THEN <<[n EXCEPT !.p = here, !.pl = FALSE, !.ck = "none", !.c = <<>>]>> ELSE <<>>) \o GroupAll(n.c, here, d)
GroupAll(c, up, d) == IF c = <<>> THEN <<>> ELSE GroupTree(c[1], up, d) \o GroupAll(Tail(c), up, d)
=============================================================================
