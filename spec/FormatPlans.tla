----------------------------- MODULE FormatPlans -----------------------------
(* Writes encodings of maps for the code to read: ROWS chooses among *)
(* all combinations of content, lengths and policy.                           *)
EXTENDS Format, TLC, Json, IOUtils


F(n, c) == [i \in 1..n |-> (c + i * i) % 256]
(* keys over three symbols, with codes of different lengths *)
Universe == << <<>>, <<1>>, <<1, 1>>, <<1, 2>>, <<1, 2, 1>>, <<2>>, <<2, 3>>, <<3>>, <<3, 1, 1>>, <<3, 1, 2>> >>
Codes == << << <<0>>, <<127>>, <<255>> >>,
            << <<97>>, <<98>>, <<128>> >>,
            << <<1>> \o F(126, 5), <<2>>, <<200>> \o F(8, 1) >>,
            << <<128>> \o F(127, 9), <<129>> \o F(127, 3), <<255>> >>,
            << <<5, 0>>, <<5, 1>>, <<6>> >>,
            << <<8>> \o F(128, 0) \o <<1>>, <<8>> \o F(128, 0) \o <<2>>, <<9>> \o F(253, 0)>>,
            << <<0>> \o F(254, 0), <<128>> \o F(255, 7), <<255, 255>> >> >>
Lens == << <<0>>, <<1>>, <<0, 127, 128>>, <<127>>, <<128>>, <<5, 0, 300, 1>>, <<250, 251, 252, 253>> >>
Pmins == <<1000, 1, 2, 100>>
Vmins == <<1000, 0, 1, 100>>
IdLens == <<8, 2, 3, 9, 33, 126>>

(* a row of random numbers for each plan *)
Rows == ndJsonDeserialize(IOEnv.ROWS)
Mix(n, a) == Rows[n][a + 1]
Choice(n, a, s) == s[(Mix(n, a) % Len(s)) + 1]
RECURSIVE Coded(_, _)
Coded(k, code) == IF k = <<>> THEN <<>> ELSE code[k[1]] \o Coded(Tail(k), code)
Plan(n) ==
    LET code == Choice(n, 1, Codes)
        lens == Choice(n, 2, Lens)
        dense == Choice(n, 8, <<20, 45, 45, 70>>)
        in(i) == Mix(n, 10 + i) % 100 < dense
        ks == {Coded(Universe[i], code) : i \in {i \in 1..Len(Universe) : in(i)}}
        sk == SortKeys(ks)
        at(k) == CHOOSE i \in 1..Len(sk) : sk[i] = k
        m == [k \in ks |-> F(lens[(at(k) % Len(lens)) + 1], at(k))]
        chain == Choice(n, 3, <<0, 0, 1, 2, 3>>)
        extra == IF ks = {} \/ chain = 0 THEN {}
                 ELSE IF chain = 1 THEN {<<>>}
                 ELSE UNION {{SubSeq(k, 1, j) : j \in {j \in 0..Len(k) : j < 4 \/ (chain = 3 /\ j \in {127, 128, 129})}} : k \in ks}
        paths == RadixPaths(ks) \cup extra
        pol == [pmin |-> Choice(n, 4, Pmins), vmin |-> Choice(n, 5, Vmins), rs |-> Choice(n, 6, <<TRUE, FALSE>>), idlen |-> Choice(n, 7, IdLens)]
        e == EncodeAll(m, paths, pol)
    IN  [root |-> e.root, blobs |-> e.blobs, map |-> [i \in 1..Len(sk) |-> <<sk[i], m[sk[i]]>>], canonical |-> paths = RadixPaths(ks)]
ASSUME ndJsonSerialize(IOEnv.OUT, [n \in 1..Len(Rows) |-> Plan(n)])
VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================
