-------------------------------- MODULE Format --------------------------------
(* The serialized format of trees, as src/lib.rs documents it. Bytes are      *)
(* naturals below 256, blobs are sequences of bytes, a store is a function    *)
(* from ids (sequences of bytes) to blobs. Nothing here follows the code:     *)
(* Tree reads an encoding as the documentation describes it, Encode writes    *)
(* one, with all the freedom the format leaves.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

IsPrefixOf(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
StrictPrefixOf(p, k) == Len(p) < Len(k) /\ SubSeq(k, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE Common(_, _, _)
Common(a, b, n) == IF n < Len(a) /\ n < Len(b) /\ a[n + 1] = b[n + 1] THEN Common(a, b, n + 1) ELSE n
LCP(a, b) == SubSeq(a, 1, Common(a, b, 0))
(* the order of keys: lexicographic by bytes *)
KeyLess(a, b) == LET n == Common(a, b, 0)
                 IN  IF n = Len(a) THEN n < Len(b) ELSE n < Len(b) /\ a[n + 1] < b[n + 1]

------------------------------------------------------------------------------
(* Reading *)

(* a header byte and what follows it *)
NoField == [ok |-> FALSE, id |-> FALSE, data |-> <<>>, next |-> 0]
Field(b, i) ==
    IF i > Len(b) THEN NoField
    ELSE LET n == b[i] % 128
         IN  IF i + n > Len(b) THEN NoField
             ELSE [ok |-> TRUE, id |-> b[i] >= 128, data |-> SubSeq(b, i + 1, i + n), next |-> i + n + 1]
IsNone(f) == f.id /\ f.data = <<>>

BadNode == [ok |-> FALSE, prefix |-> NoField, value |-> NoField, children |-> NoField, next |-> 0]
ParseNode(b, i) ==
    LET p == Field(b, i)
        v == IF p.ok THEN Field(b, p.next) ELSE NoField
        c == IF v.ok THEN Field(b, v.next) ELSE NoField
    IN  IF c.ok /\ ~IsNone(p) /\ c.id
        THEN [ok |-> TRUE, prefix |-> p, value |-> v, children |-> c, next |-> c.next]
        ELSE BadNode
(* a root is one node and nothing else *)
IsRoot(b) == LET n == ParseNode(b, 1) IN n.ok /\ n.next = Len(b) + 1

RECURSIVE ParseBlock(_, _)
ParseBlock(b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE LET n == ParseNode(b, i)
         IN  IF n.ok THEN <<n>> \o ParseBlock(b, n.next) ELSE <<BadNode>>
Sizes(ns) == {IF i = 1 THEN ns[1].next - 1 ELSE ns[i].next - ns[i - 1].next : i \in 1..Len(ns)}
RecordSize(ns) == IF Cardinality(Sizes(ns)) = 1 /\ \A s \in Sizes(ns) : s <= 255 THEN CHOOSE s \in Sizes(ns) : TRUE ELSE 0

(* the id of an indirect field: a prefix has its first byte in front, children the record size *)
IdOf(f, n) == Drop(f.data, n)
Readable(blobs, f, n) == ~f.id \/ IsNone(f) \/ (Len(f.data) > n /\ IdOf(f, n) \in DOMAIN blobs)
Content(blobs, f, n) == IF f.id THEN blobs[IdOf(f, n)] ELSE f.data

(* All nodes of the tree below a parsed node, whose parent is at path up. A   *)
(* node that cannot be read has ok = FALSE.                                   *)
Unreadable(up) == [ok |-> FALSE, up |-> up, path |-> up, root |-> FALSE, value |-> <<>>, pid |-> <<>>, vid |-> <<>>, cid |-> <<>>,
                   n |-> 0, sorted |-> TRUE, first |-> TRUE, rs |-> TRUE]
RECURSIVE Below(_, _, _, _), BelowAll(_, _, _)
Below(blobs, node, up, root) ==
    IF ~node.ok \/ ~Readable(blobs, node.prefix, 1) \/ ~Readable(blobs, node.value, 0) \/ ~Readable(blobs, node.children, 1)
    THEN <<Unreadable(up)>>
    ELSE
    LET prefix == Content(blobs, node.prefix, 1)
        path == up \o prefix
        kids == IF IsNone(node.children) THEN <<>> ELSE ParseBlock(Content(blobs, node.children, 1), 1)
        lead(k) == IF k.prefix.data = <<>> THEN -1 ELSE k.prefix.data[1]
    IN  << [ok |-> TRUE, up |-> up, path |-> path, root |-> root,
            value |-> IF IsNone(node.value) THEN <<>> ELSE <<Content(blobs, node.value, 0)>>,
            pid |-> IF node.prefix.id THEN IdOf(node.prefix, 1) ELSE <<>>,
            vid |-> IF node.value.id THEN node.value.data ELSE <<>>,
            cid |-> IF IsNone(node.children) THEN <<>> ELSE IdOf(node.children, 1),
            n |-> Len(kids),
            \* no empty prefix, each first byte once, in ascending order
            sorted |-> \A i \in 1..Len(kids) : lead(kids[i]) > IF i = 1 THEN -1 ELSE lead(kids[i - 1]),
            \* the byte in front of the id of a prefix
            first |-> node.prefix.id => prefix # <<>> /\ node.prefix.data[1] = prefix[1],
            rs |-> kids # <<>> => node.children.data[1] = RecordSize(kids)] >>
        \o BelowAll(blobs, kids, path)
BelowAll(blobs, kids, path) ==
    IF kids = <<>> THEN <<>> ELSE Below(blobs, kids[1], path, FALSE) \o BelowAll(blobs, Tail(kids), path)
Tree(blobs, root) == IF IsRoot(root) THEN Below(blobs, ParseNode(root, 1), <<>>, TRUE) ELSE <<Unreadable(<<>>)>>

(* the format is obeyed: everything can be read, blocks are sorted and not empty, nodes are not empty *)
Empty(n) == n.value = <<>> /\ n.n = 0
WellFormed(ns) ==
    \A i \in 1..Len(ns) :
        LET n == ns[i]
        IN  /\ n.ok /\ n.sorted /\ n.first
            /\ n.cid # <<>> => n.n > 0
            /\ Empty(n) => n.root /\ n.path = <<>>
KeysOf(ns) == {ns[i].path : i \in {i \in 1..Len(ns) : ns[i].value # <<>>}}
MapOf(ns) == [k \in KeysOf(ns) |-> (CHOOSE i \in 1..Len(ns) : ns[i].path = k /\ ns[i].value # <<>>)]
(* the content of the tree is the map m *)
Describes(ns, m) == LET ix == MapOf(ns)
                    IN  DOMAIN ix = DOMAIN m /\ \A k \in DOMAIN m : ns[ix[k]].value = <<m[k]>>
(* the radix tree of the content: no node could be left out *)
Canonical(ns) == \A i \in 1..Len(ns) : ns[i].value # <<>> \/ ns[i].n >= 2 \/ (ns[i].root /\ ns[i].n = 0)

(* the blobs a tree refers to: children blocks, prefixes and values, and where they are needed *)
Refs(ns) ==
    UNION {LET n == ns[i]
               r(id, kind) == IF id = <<>> THEN {} ELSE {[id |-> id, kind |-> kind, path |-> n.path, up |-> n.up, root |-> n.root]}
           IN  r(n.pid, "p") \cup r(n.vid, "v") \cup r(n.cid, "c") : i \in 1..Len(ns)}

------------------------------------------------------------------------------
(* Writing *)

(* the paths of the nodes of the radix tree of a set of keys *)
RadixPaths(ks) == IF ks = {} THEN {<<>>} ELSE ks \cup {LCP(p[1], p[2]) : p \in ks \X ks}

(* A policy: how short data may be and still be stored indirectly (pmin,      *)
(* vmin), whether record sizes are given, how long ids are, and which paths   *)
(* get a node although the radix tree has none there.                         *)
SortKeys(S) == SetToSortSeq(S, KeyLess)
EncodeAll(m, paths, pol) ==
    LET ps == SortKeys(paths)
        at(p) == CHOOSE i \in 1..Len(ps) : ps[i] = p
        ups(p) == {q \in paths : StrictPrefixOf(q, p)}
        hasUp(p) == ups(p) # {}
        up(p) == CHOOSE q \in ups(p) : \A r \in ups(p) : Len(r) <= Len(q)
        kids(p) == SortKeys({q \in paths : StrictPrefixOf(p, q) /\ up(q) = p})
        \* kind 0 prefix, 1 value, 2 children, 3 root
        num(p, kind) == at(p) * 4 + kind
        id(p, kind) == IF pol.idlen = 1 THEN <<num(p, kind)>>
                       ELSE [i \in 1..pol.idlen |-> IF i = pol.idlen THEN num(p, kind) % 256 ELSE IF i = pol.idlen - 1 THEN num(p, kind) \div 256 ELSE 90]
        prefix(p) == IF hasUp(p) THEN Drop(p, Len(up(p))) ELSE p
        pind(p) == prefix(p) # <<>> /\ (Len(prefix(p)) > 127 \/ Len(prefix(p)) >= pol.pmin)
        vind(p) == p \in DOMAIN m /\ (Len(m[p]) > 127 \/ Len(m[p]) >= pol.vmin)
        pbytes(p) == IF pind(p) THEN <<128 + 1 + pol.idlen, prefix(p)[1]>> \o id(p, 0) ELSE <<Len(prefix(p))>> \o prefix(p)
        vbytes(p) == IF p \notin DOMAIN m THEN <<128>>
                     ELSE IF vind(p) THEN <<128 + pol.idlen>> \o id(p, 1) ELSE <<Len(m[p])>> \o m[p]
        size(p) == Len(pbytes(p)) + Len(vbytes(p)) + IF kids(p) = <<>> THEN 1 ELSE 2 + pol.idlen
        rs(p) == LET ss == {size(kids(p)[i]) : i \in 1..Len(kids(p))}
                 IN  IF pol.rs /\ Cardinality(ss) = 1 /\ \A s \in ss : s <= 255 THEN CHOOSE s \in ss : TRUE ELSE 0
        cbytes(p) == IF kids(p) = <<>> THEN <<128>> ELSE <<128 + 1 + pol.idlen, rs(p)>> \o id(p, 2)
        nbytes(p) == pbytes(p) \o vbytes(p) \o cbytes(p)
        root == CHOOSE p \in paths : ~hasUp(p)
    IN  [root |-> id(root, 3),
         blobs |-> << <<id(root, 3), nbytes(root)>> >> \o FlattenSeq([i \in 1..Len(ps) |->
            LET p == ps[i]
            IN  (IF pind(p) THEN << <<id(p, 0), prefix(p)>> >> ELSE <<>>)
                \o (IF vind(p) THEN << <<id(p, 1), m[p]>> >> ELSE <<>>)
                \o (IF kids(p) # <<>> THEN << <<id(p, 2), FlattenSeq([j \in 1..Len(kids(p)) |-> nbytes(kids(p)[j])])>> >> ELSE <<>>)])]
=============================================================================
