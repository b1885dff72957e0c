-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* What a run of a parser has a use for: the sub-parsers it applies and    *)
(* the functions it calls.  Sub-terms are named by paths: 1001 1002 1003   *)
(* for the parsers p q z, i for the i-th of the parsers ps, 1000 for the   *)
(* function of a combinator, and -n-1 at the end of a path says that the   *)
(* sub-parser is applied to a text of length n.  Bombed(cs) is the case    *)
(* with everything a run has no use for replaced by something that must    *)
(* not be touched, and some of the rest guarded against being applied      *)
(* anywhere else than where the run needs it.                              *)
(***************************************************************************)
EXTENDS Gen

Below(n, s, S) == {<<n>>, <<n, -Len(s) - 1>>} \cup {<<n>> \o y : y \in S}
Fn(used) == IF used THEN {<<1000>>} ELSE {}

RECURSIVE Used(_, _, _), UsedSeq(_, _, _, _, _), UsedAlt(_, _, _, _), UsedLoop(_, _, _, _)
UsedSeq(ps, name, i, s, pos) ==
    IF i > Len(ps) THEN {}
    ELSE LET o == Parse(ps[i], s, pos) IN
         Below(name[i], s, Used(ps[i], s, pos)) \cup (IF o.ok THEN UsedSeq(ps, name, i + 1, o.rem, o.pos) ELSE {})
UsedAlt(ps, i, s, pos) ==
    IF i > Len(ps) THEN {}
    ELSE Below(i, s, Used(ps[i], s, pos)) \cup (IF Parse(ps[i], s, pos).ok THEN {} ELSE UsedAlt(ps, i + 1, s, pos))
(* n: how the repeated parser is named, 0: it is the choice itself           *)
UsedLoop(p, n, s, pos) ==
    LET o == Parse(p, s, pos)
        u == Used(p, s, pos) IN
    (IF n = 0 THEN u ELSE Below(n, s, u)) \cup (IF o.ok THEN UsedLoop(p, n, o.rem, o.pos) ELSE {})
Ids(n) == [i \in 1..n |-> i]
Used(p, s, pos) ==
  CASE p.k \in {"seq", "seqapply"} -> UsedSeq(p.ps, Ids(Len(p.ps)), 1, s, pos)
    [] p.k \in {"first", "last"} -> UsedSeq(p.ps, Ids(Len(p.ps)), 1, s, pos)
    [] p.k = "nth" -> IF p.n < 0 \/ p.n >= Len(p.ps) THEN {} ELSE UsedSeq(p.ps, Ids(Len(p.ps)), 1, s, pos)
    [] p.k = "middle" -> UsedSeq(<<p.p, p.q, p.z>>, <<1001, 1002, 1003>>, 1, s, pos)
    [] p.k = "iterate" -> UsedSeq([i \in 1..p.n |-> p.p], [i \in 1..p.n |-> 1001], 1, s, pos)
    [] p.k = "oneof" -> UsedAlt(p.ps, 1, s, pos)
    [] p.k \in {"rep1of", "rep1of1"} -> UsedLoop(OneOf(p.ps), 0, s, pos)
    [] p.k \in {"always", "chmsg", "entire", "token", "optional", "if", "except", "look", "fafce"} -> Below(1001, s, Used(p.p, s, pos))
    [] p.k \in {"transform", "accept_when"} -> Below(1001, s, Used(p.p, s, pos)) \cup Fn(Parse(p.p, s, pos).ok)
    [] p.k \in {"terr", "terrmsg"} -> Below(1001, s, Used(p.p, s, pos)) \cup Fn(~Parse(p.p, s, pos).ok)
    [] p.k \in RepKinds -> UsedLoop(p.p, 1001, s, pos)
    [] p.k \in {"foldlsp", "foldlrisp"} ->
         LET o == Parse(p.q, s, pos) IN
         Below(1002, s, Used(p.q, s, pos))
         \cup (IF o.ok THEN UsedLoop(p.p, 1001, o.rem, o.pos) \cup Fn(Parse(p.p, o.rem, o.pos).ok) ELSE {})
    [] p.k = "foldrsp" ->
         LET l == Loop(p.p, <<>>, s, pos) IN
         UsedLoop(p.p, 1001, s, pos) \cup Below(1002, l.rem, Used(p.q, l.rem, l.pos)) \cup Fn(Parse(p.p, s, pos).ok)
    [] p.k \in FoldKinds -> UsedLoop(p.p, 1001, s, pos) \cup Fn(Parse(p.p, s, pos).ok)
    [] OTHER -> {}

Within(T, n) == {Tail(y) : y \in {z \in T : Len(z) > 1 /\ z[1] = n}}
Places(T, n) == SetToSeq({-1 - z[2] : z \in {y \in T : Len(y) = 2 /\ y[1] = n /\ y[2] < 0}})
RECURSIVE Mark(_, _)
Mark1(p, T, n) ==
    IF <<n>> \notin T THEN Bomb
    ELSE LET q == Mark(p, Within(T, n)) IN
         IF p.k \notin {"ret", "fail"} /\ RandomElement(1..3) = 1 /\ \A z \in T : z[Len(z)] > -62 THEN OnlyAt(q, Places(T, n)) ELSE q
Mark(p, T) ==
    LET q == [f \in DOMAIN p |->
                CASE f = "p" -> Mark1(p.p, T, 1001)
                  [] f = "q" -> Mark1(p.q, T, 1002)
                  [] f = "z" -> Mark1(p.z, T, 1003)
                  [] f = "ps" -> [i \in 1..Len(p.ps) |-> Mark1(p.ps[i], T, i)]
                  [] OTHER -> p[f]]
    IN IF <<1000>> \in T THEN q
       ELSE CASE p.k \in {"transform", "terr", "terrmsg"} -> [q EXCEPT !.f = BombF]
              [] p.k = "accept_when" -> [q EXCEPT !.pred = "bomb"]
              [] p.k \in FoldKinds \cup FoldSPKinds -> q @@ ("b" :> TRUE)
              [] OTHER -> q
Bombed(cs) == [cs EXCEPT !.ps = [i \in 1..1 |-> Mark(cs.ps[1], Used(cs.ps[1], cs.in, cs.start))]]
=============================================================================
