------------------------------ MODULE StoredTree ------------------------------
(* One tree on one store, at the level of bytes: its content, the blobs in    *)
(* the store, what the blobs were when they were last known to the tree, and  *)
(* what was touched since. From these follow the blobs an operation may read, *)
(* and the blobs persisting may write.                                        *)
EXTENDS Format

VARIABLES m,       \* content of the tree
          blobs,   \* the store
          refs,    \* references to blobs in all versions so far, with the path at which they are needed
          touched  \* keys of all operations since the tree was persisted or opened

svars == <<m, blobs, refs, touched>>
NoFun == [x \in {} |-> <<>>]
SInit == m = NoFun /\ blobs = NoFun /\ refs = {} /\ touched = {}

------------------------------------------------------------------------------
(* maps of bytes *)
Set1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Only1(f, S) == [x \in S |-> f[x]]
WithAll(f, ps) == [x \in DOMAIN f \cup {ps[i][1] : i \in 1..Len(ps)} |->
                    IF \E i \in 1..Len(ps) : ps[i][1] = x THEN ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2] ELSE f[x]]
OfPairs(ps) == WithAll(NoFun, ps)
Sorted(S) == SortKeys(S)

(* the combiners of the harness; a result is <<>> or a sequence with the value *)
Comb(f, x, y) == CASE f = "left" -> <<x>> [] f = "right" -> <<y>> [] f = "drop" -> <<>>
Both(f, a, b) == {k \in DOMAIN a \cap DOMAIN b : Comb(f, a[k], b[k]) # <<>>}
Combined(op, f, a, b) ==
    LET both == Both(f, a, b)
        onlyA == IF op = "innerwith" THEN {} ELSE DOMAIN a \ DOMAIN b
        onlyB == IF op = "outerwith" THEN DOMAIN b \ DOMAIN a ELSE {}
    IN  [k \in both \cup onlyA \cup onlyB |-> IF k \in both THEN Comb(f, a[k], b[k])[1] ELSE IF k \in onlyA THEN a[k] ELSE b[k]]
Under(a, b) == {k \in DOMAIN a : \E p \in DOMAIN b : IsPrefixOf(p, k)}
Pruned(op, a, b) == Only1(a, IF op = "retain" THEN Under(a, b) ELSE DOMAIN a \ Under(a, b))

(* the content after an edit e, and the keys it names *)
After(e) ==
    CASE e.op = "insert" -> Set1(m, e.k, e.v)
      [] e.op = "remove" -> Only1(m, DOMAIN m \ {e.k})
      [] e.op = "removeprefix" -> Only1(m, {k \in DOMAIN m : ~IsPrefixOf(e.k, k)})
      [] e.op \in {"outerwith", "innerwith", "leftwith"} -> Combined(e.op, e.f, m, OfPairs(e.b))
      [] e.op \in {"retain", "removewith"} -> Pruned(e.op, m, OfPairs(e.b))
Named(e) == IF e.op \in {"insert", "remove", "removeprefix"} THEN {e.k} ELSE {<<>>} \cup {e.b[i][1] : i \in 1..Len(e.b)}
Changed(a, b) == {k \in DOMAIN a \cup DOMAIN b : ~(k \in DOMAIN a /\ k \in DOMAIN b) \/ a[k] # b[k]}
Touch(e) == Named(e) \cup Changed(m, After(e))

------------------------------------------------------------------------------
(* which blobs lie on the path to a key *)
OnPath(r, k) ==
    CASE r.kind = "c" -> StrictPrefixOf(r.path, k)
      [] r.kind = "v" -> r.path = k
      [] r.kind = "p" -> r.root \/ (StrictPrefixOf(r.up, k) /\ k[Len(r.up) + 1] = r.path[Len(r.up) + 1])
(* ... or below it *)
OnOrBelow(r, k) == OnPath(r, k) \/ IsPrefixOf(k, r.path)
(* ... or before it in the order of iteration *)
NotBeyond(r, k) == ~KeyLess(k, r.path)
(* what an edit that touches the keys T has to look at: the path, and the nodes next to it that may be joined *)
Beside(r, T) ==
    \E k \in T : CASE r.kind = "c" -> IsPrefixOf(r.path, k)
                   [] r.kind = "v" -> r.path = k
                   [] r.kind = "p" -> r.root \/ IsPrefixOf(r.up, k)

(* every read is of a blob that some version of the tree needs at an allowed place *)
ReadsWithin(reads, Allowed(_)) == \A i \in 1..Len(reads) : \E r \in refs : r.id = reads[i] /\ Allowed(r)
(* no block of children more than once *)
BlocksOnce(reads) ==
    \A i, j \in 1..Len(reads) : i # j /\ reads[i] = reads[j] => \A r \in refs : r.id = reads[i] => r.kind # "c"

(* what persisting may write: the root, and below it only what lies on touched paths, all of it needed, nothing twice *)
Incremental(ns, root, ws) ==
    LET rs == Refs(ns)
    IN  /\ \A i, j \in 1..Len(ws) : i # j => ws[i][1] # ws[j][1]
        /\ \A i \in 1..Len(ws) :
             \/ ws[i][1] = root
             \/ \E r \in rs : r.id = ws[i][1] /\ Beside(r, touched)
             \/ \E r \in rs : r.id = ws[i][1] /\ r.root /\ r.kind = "p" /\ touched # {}

(* what is written has the documented form: what could be stored inline is, and record sizes are right *)
Compact(ns, ws) ==
    \A i \in 1..Len(ws) : \A j \in 1..Len(ns) :
        LET id == ws[i][1]
        IN  /\ id = ns[j].pid \/ id = ns[j].vid => Len(ws[i][2]) > 127
            /\ id = ns[j].cid => ns[j].rs
=============================================================================
