----------------------------- MODULE StringGen -----------------------------
(* Histories of StringSeq to replay: all short ones, sweeps over lengths   *)
(* and characters, random long ones.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Randomization, IOUtils, Json

Quick == IOEnv.VP_TIER # "thorough"
Sz(q, th) == IF Quick THEN q ELSE th

O(name) == [op |-> name]
OC(name, c) == [op |-> name, c |-> c]
OE(w) == [op |-> "eq", w |-> w]
H(init, ops) == [init |-> init, ops |-> <<O("new")>> \o ops]

Effect(s, o) == CASE o.op = "pb" -> Append(s, o.c) [] o.op = "pf" -> <<o.c>> \o s
                  [] o.op = "xb" -> SubSeq(s, 1, Len(s) - 1) [] o.op = "xf" -> Tail(s)
                  [] o.op = "cl" -> <<>> [] OTHER -> s
Enabled1(s, o) == o.op \in {"xb", "xf"} => s # <<>>

(* all histories of n operations                                            *)
Ops == {OC("pb", 97), OC("pb", -128), OC("pf", 98), OC("pf", 0), O("xb"), O("xf"), O("cl")}
RECURSIVE Hist(_, _)
Hist(s, n) == IF n = 0 THEN {<<>>}
              ELSE UNION {{<<o>> \o h : h \in Hist(Effect(s, o), n - 1)} : o \in {x \in Ops : Enabled1(s, x)}}

Word(n, k) == [i \in 1..n |-> ((i * 37 + k * 11) % 250) - 124]
Plain(n) == [i \in 1..n |-> 97 + (i % 26)]
Lens == IF Quick THEN 0..31 \cup {32, 33, 40, 63, 64, 65, 100, 127, 128, 200} ELSE 0..260

RECURSIVE RandOps(_, _)
RandOps(s, n) == IF n = 0 THEN <<>>
    ELSE LET k == RandomElement(1..9)
             c == RandomElement((-128..127) \ {-1})
             o == CASE k <= 2 -> OC("pb", c) [] k <= 4 -> OC("pf", c)
                    [] k <= 6 /\ s # <<>> -> O("xb") [] k <= 8 /\ s # <<>> -> O("xf")
                    [] k = 9 /\ RandomElement(1..4) = 1 -> O("cl")
                    [] OTHER -> OE(IF RandomElement(1..2) = 1 THEN s ELSE Append(s, c))
         IN <<o>> \o RandOps(Effect(s, o), n - 1)
RandHist == LET n == RandomElement(0..20)
                w == Word(n, RandomElement(0..99))
            IN H(w, RandOps(w, 8))

EqWords == {<<>>, <<97>>, <<98>>, <<97, 98>>, <<97, 97>>, <<98, 97>>, <<0>>, <<97, 0>>, <<-128>>, <<97, 98, 99>>}

Cases ==
    SetToSeq({H(w, h) : w \in {<<>>, <<99>>}, h \in Hist(<<>>, Sz(2, 3)) \cup Hist(<<>>, 1)})
    \o SetToSeq({H(<<99, 100>>, h) : h \in Hist(<<99, 100>>, Sz(3, 4))})
    \o SetToSeq({H(w, <<OE(v), OE(w)>>) : w \in EqWords, v \in EqWords})
    \o SetToSeq({H(Plain(n), <<o>>) : n \in Lens \ {0}, o \in {OC("pb", 33), OC("pf", 33), O("xb"), O("xf"), O("cl")}})
    \o SetToSeq({H(Word(n, 3), <<OC("pb", 5), O("xf"), OC("pf", -7), O("xb"), OE(Word(n, 3))>>) : n \in Lens \ {0}})
    \o SetToSeq({H(<<c>>, <<OC("pb", c), OC("pf", c), O("xb"), O("xf"), OE(<<c>>)>>) : c \in (-128..127) \ {-1}})
    \o SetToSeq({H([i \in 1..m |-> -1], <<OC("pb", -1), O("xf"), OC("pf", -1), O("xb"), OE(<<-1>>)>>) : m \in 1..3})
    \o SetToSeq({H(Plain(n), [i \in 1..n |-> O("xb")]) : n \in {1, 5, 20, 31}})
    \o SetToSeq({H(Plain(n), [i \in 1..n |-> O("xf")]) : n \in {1, 5, 20, 31}})
    \o SetToSeq({H(<<>>, [i \in 1..n |-> OC(k, i)]) : n \in {1, 5, 20, 31}, k \in {"pb", "pf"}})
    \o TLCEval([i \in 1..Sz(250, 3000) |-> RandHist])

ASSUME ndJsonSerialize(IOEnv.VP_OUT, TLCEval(Cases))
=============================================================================
