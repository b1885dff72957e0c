----------------------------- MODULE LiteralGen -----------------------------
(* Literals to replay, with the limits under which they are used.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Randomization, IOUtils, Json
Quick == IOEnv.VP_TIER # "thorough"
Sz(q, th) == IF Quick THEN q ELSE th
Word(n, k) == [i \in 1..n |-> ((i * 37 + (i \div 128) * 5 + k * 11) % 256) - 128]
Plain(n) == [i \in 1..n |-> 97 + ((i + i \div 26) % 26)]
Blank(n) == [i \in 1..n |-> 0]
Spot(n, k) == [i \in 1..n |-> IF i = k THEN 0 ELSE 65]
M(w) == [op |-> "make", w |-> w]
D(n) == [op |-> "limit", n |-> n]
U(ev) == [ev |-> ev]
Near(S) == UNION {{n - 1, n, n + 1} : n \in S}
Edges == Near({2^k : k \in 0..11}) \cup Near({128 * k : k \in 1..16})
Lens == (IF Quick THEN 0..40 \cup {n \in Edges : n <= 2048} \cup RandomSubset(60, 0..2048) ELSE 0..2048)
Lims == {1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 384, 385, 500, 511, 512, 513, 640, 768, 896, 1000, 1023, 1024, 1025,
         1152, 1280, 1408, 1500, 1536, 1664, 1792, 1920, 1921, 2000, 2047, 2048}
(* the smallest limit that will do, the largest, some other                 *)
Cases ==
    SetToSeq({U(<<D(2048), M(Word(n, 3))>>) : n \in Lens})
    \o [n \in 1..2049 |-> U(<<D(n - 1), M(Word(n - 1, 7))>>)]
    \o SetToSeq({U(<<D(lim), M(Plain(lim)), M(Plain(lim - 1)), M(Blank(lim)), M(<<>>), M(Plain(lim \div 2))>>) : lim \in Lims})
    \o SetToSeq({U(<<D(16), M(<<ch>>), M(<<ch, ch, ch>>), M(<<97, ch, 98>>)>>) : ch \in -128..127})
    \o SetToSeq({U(<<D(40), M(Spot(n, k))>>) : n \in {1, 2, 3, 8, 17, 32}, k \in {1, 2, 3, 8, 16, 17, 32}})
    (* the limit changes within one translation unit                         *)
    \o SetToSeq({U(<<D(p), M(Plain(p)), D(q), M(Plain(q)), M(Plain(IF p < q THEN p ELSE q)), D(p), M(Plain(p))>>) :
                 p \in {4, 8, 32, 127, 128, 300}, q \in {1, 5, 64, 129, 1024}})
    \* too long: the last literal of these must be refused
    \o SetToSeq({U(<<D(lim), M(Plain(lim + k))>>) : lim \in {1, 2, 4, 8, 31, 32, 100, 127, 128, 200, 255, 256, 512, 1000, 2000}, k \in Sz({1, 2}, {1, 2, 3, 8, 40})})
    \o SetToSeq({U(<<D(64), M(Plain(40)), D(20), M(Plain(lim))>>) : lim \in {21, 40}})
ASSUME ndJsonSerialize(IOEnv.VP_OUT, TLCEval(Cases))
=============================================================================
