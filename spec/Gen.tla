-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* The cases explored for each property: exhaustive families (every term   *)
(* of a small universe on every word of a small alphabet), sweeps          *)
(* (arities, lengths, all characters) and random terms with words derived  *)
(* from them.  A case is a session: an input, a start position and the     *)
(* parsers applied one after the other.                                    *)
(***************************************************************************)
EXTENDS Metaparse, Randomization, IOUtils, Json

Prop == IOEnv.VP_PROP
Tier == IOEnv.VP_TIER
Quick == Tier # "thorough"
Sz(q, th) == IF Quick THEN q ELSE th

------------------------------------------------------------------------------
Words(A, n) == UNION {[1..k -> A] : k \in 0..n}
WordsEq(A, n) == [1..n -> A]
Sessions(PS, W, ST) == {[in |-> w, start |-> st, ps |-> ps] : ps \in PS, w \in W, st \in ST}
On(P, W) == Sessions({<<p>> : p \in P}, W, {StartPos})
OnAt(P, W, ST) == Sessions({<<p>> : p \in P}, W, ST)
Pick(n, S) == IF Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
RepSeq(x, n) == [i \in 1..n |-> x]

a == 97  b == 98  c == 99  x == 120  plus == 43
AB == {a, b}
OddStarts == {StartPos, <<1, 1, 13>>, <<3, 7, 10>>, <<2, 5, 13>>, <<40, 300, 97>>,
              <<7, 1, -100>>}

(* Small universe of sub-parsers: consuming, failing late, nullable, ...    *)
LA == Lit(a)
LB == Lit(b)
SAB == Sq(<<LA, LB>>)
Small == {LA, LB, OneChar, SAB}
SmallN == Small \cup {Ret(RSym(1)), Fail(MUser(1)), Optional(LA, RSym(2)), Look(LB)}
Tuples(S, n) == [1..n -> S]

------------------------------------------------------------------------------
(* Random terms                                                             *)
NNLeafs == {OneChar, Lit(a), Lit(b), Lit(c), Digit, DigitVal, Letter, Space, Alphanum,
            PInt, Spaces, PRange(a, b), PRange(48, 57), CharExcept(<<a>>),
            CharExcept(<<a, b>>), CharExcept(<<>>), OneOfC(<<a, b>>), OneOfC(<<b, 49>>),
            Fail(MUser(3)), Keyword(<<a, b>>, RSym(5)), Keyword(<<a>>, RSym(6)),
            AlwaysC(a, RSym(7)), Lit(LF), Lit(CR), Keyword(<<LF, a>>, RSym(4)),
            Keyword(<<CR, LF>>, RSym(3)), OneOfC(<<LF, a>>), Keyword(<<a, LF, LF, b>>, RSym(2))}
CharLeafs == {OneChar, Letter, Alphanum, CharExcept(<<b>>), Digit}
NLeafs == {Ret(RSym(8)), Empty(RSym(9)), Keyword(<<>>, RSym(4))}

UnaryK == {"always", "chmsg", "transform", "terr", "terrmsg", "entire", "token"}
LoopK == {"foldl", "foldlri", "foldr", "foldrri", "rep", "repri"}
Loop1K == {"foldl1", "foldlri1", "foldr1", "foldrri1", "rep1", "repri1"}
NaryK == {"seq", "seqapply", "first", "last", "nth"}
ZeroK == {"optional", "if", "except", "look", "fafce"}
NNKinds == UnaryK \cup Loop1K \cup NaryK \cup {"middle", "iterate", "oneof", "rep1of1",
            "foldlsp", "foldlrisp", "foldrsp", "accept_when", "kw", "leaf"}
AllKinds == NNKinds \cup LoopK \cup ZeroK \cup {"rep1of"}

RSyms == {RSym(i) : i \in 10..14}

RChars == {a, b, c, 48, 49, 57, SPC, LF, CR}
RECURSIVE RandSeq(_)
RandSeq(n) == IF n = 0 THEN <<>> ELSE <<RandomElement(RChars)>> \o RandSeq(n - 1)
(* Terms of depth d; a third of their nodes are of the kinds K.              *)
RECURSIVE RT(_, _, _), RTk(_, _, _, _), RTs(_, _, _, _)
RTs(K, n, d, nn) ==
    IF n = 0 THEN <<>> ELSE <<RT(K, d, nn)>> \o RTs(K, n - 1, d, nn)
(* at least one of the parsers consumes                                      *)
RTseq(K, n, d, nn) == IF nn THEN <<RT(K, d, TRUE)>> \o RTs(K, n - 1, d, FALSE) ELSE RTs(K, n, d, FALSE)
RT(K, d, nn) ==
    IF d = 0
    THEN IF nn \/ RandomElement(1..4) > 1 THEN RandomElement(NNLeafs)
         ELSE RandomElement(NLeafs)
    ELSE
    LET A == IF nn THEN NNKinds ELSE AllKinds
        F == A \cap K
        k == RandomElement(IF F # {} /\ RandomElement(1..3) = 1 THEN F ELSE A)
    IN RTk(K, k, d, nn)
RTk(K, k, d, nn) ==
    LET n == RandomElement(1..4)
        e == d - 1
        r == RandomElement(RSyms)
        m == MUser(RandomElement(1..9))
        f == RandomElement(1..9)
    IN CASE k = "leaf" -> RandomElement(NNLeafs)
         [] k = "kw" -> Keyword(RandSeq(RandomElement(1..7)), r)
         [] k = "always" -> Always(RT(K, e, nn), r)
         [] k = "chmsg" -> ChMsg(RT(K, e, nn), m)
         [] k = "transform" -> Transform(RT(K, e, nn), f)
         [] k = "terr" -> TErr(RT(K, e, nn), IF f = 9 THEN 50 + n ELSE f)
         [] k = "terrmsg" -> TErrMsg(RT(K, e, nn), f)
         [] k = "entire" -> Entire(RT(K, e, nn), m)
         [] k = "token" -> Token(RT(K, e, nn))
         [] k = "accept_when" ->
              IF f < 6 THEN AcceptWhen(RandomElement(CharLeafs),
                         RandomElement({"digit", "letter", "lcase", "ucase", "ws"}), m)
              ELSE AcceptWhen(RT(K, e, nn), RandomElement({"any", "none", "none"}), m)
         [] k \in LoopK \cup Loop1K ->
              IF k \in RepKinds THEN Rep(k, RT(K, e, TRUE)) ELSE Fold(k, RT(K, e, TRUE), r)
         [] k \in {"foldlsp", "foldlrisp", "foldrsp"} -> FoldSP(k, RT(K, e, TRUE), RT(K, e, nn))
         [] k = "seq" -> Sq(RTseq(K, n, e, nn))
         [] k = "seqapply" -> SeqApply(RTseq(K, n, e, nn))
         [] k = "first" -> PFirst(RTseq(K, n, e, nn))
         [] k = "last" -> PLast(RTseq(K, n, e, nn))
         [] k = "nth" -> Nth(RandomElement(0..3), RTseq(K, n, e, nn))
         [] k = "middle" -> Middle(RT(K, e, nn), RT(K, e, FALSE), RT(K, e, FALSE))
         [] k = "iterate" -> Iterate(RT(K, e, nn), n)
         [] k = "oneof" -> OneOf(RTs(K, n, e, nn))
         [] k = "rep1of" -> RepOneOf(RTs(K, n, e, TRUE))
         [] k = "rep1of1" -> RepOneOf1(RTs(K, n, e, TRUE))
         [] k = "optional" -> Optional(RT(K, e, FALSE), r)
         [] k = "if" -> IfP(RT(K, e, FALSE), r, RSym(3))
         [] k = "except" -> Except(RT(K, e, FALSE), r, m)
         [] k = "look" -> Look(RT(K, e, FALSE))
         [] k = "fafce" -> Fafce(RT(K, e, FALSE))

(* A word p is likely to accept                                             *)
RECURSIVE RW(_), RWs(_, _), RWn(_, _)
RWs(ps, i) == IF i > Len(ps) THEN <<>> ELSE RW(ps[i]) \o RWs(ps, i + 1)
RWn(p, n) == IF n = 0 THEN <<>> ELSE RW(p) \o RWn(p, n - 1)
RW(p) ==
  CASE p.k = "one_char" -> RandSeq(1)
    [] p.k \in {"lit", "always_c"} -> <<p.c>>
    [] p.k \in {"digit", "digit_val"} -> <<RandomElement(48..57)>>
    [] p.k \in {"letter", "alphanum"} -> <<RandomElement({a, b, c})>>
    [] p.k \in {"space"} -> <<RandomElement({SPC, LF, CR, TAB})>>
    [] p.k = "spaces" -> <<SPC, RandomElement({SPC, LF})>>
    [] p.k = "int" -> <<RandomElement(48..57), RandomElement(48..57)>>
    [] p.k = "range" -> <<RandomElement(p.a..p.b)>>
    [] p.k = "ocx" -> <<RandomElement({c, 49, LF})>>
    [] p.k = "oneofc" -> <<p.cs[RandomElement(1..Len(p.cs))]>>
    [] p.k \in {"ret", "empty", "if", "except", "look", "fafce", "fail"} -> <<>>
    [] p.k = "keyword" -> p.s
    [] p.k \in {"always", "chmsg", "accept_when", "transform", "terr", "terrmsg",
                "entire", "optional"} -> RW(p.p)
    [] p.k = "token" -> RW(p.p) \o (IF RandomElement({TRUE, FALSE}) THEN <<SPC>> ELSE <<>>)
    [] p.k \in {"seq", "seqapply", "first", "last", "nth"} -> RWs(p.ps, 1)
    [] p.k = "iterate" -> RWn(p.p, p.n)
    [] p.k = "middle" -> RW(p.p) \o RW(p.q) \o RW(p.z)
    [] p.k = "oneof" -> RW(p.ps[RandomElement(1..Len(p.ps))])
    [] p.k \in {"rep1of", "rep1of1"} ->
         LET q == OneOf(p.ps) IN RW(q) \o RW(q)
    [] p.k \in {"foldlsp", "foldlrisp"} -> RW(p.q) \o RWn(p.p, RandomElement(0..3))
    [] p.k = "foldrsp" -> RWn(p.p, RandomElement(0..3)) \o RW(p.q)
    [] p.k \in FoldKinds \cup RepKinds -> RWn(p.p, RandomElement(0..4))
    [] p.k = "nt" -> <<>>

(* At most 28 characters, and no number of more than eight digits           *)
Cut(w) == LET v == IF Len(w) > 28 THEN SubSeq(w, 1, 28) ELSE w IN
          [i \in 1..Len(v) |-> IF i > 8 /\ \A j \in 0..8 : IsDigit(v[i - j]) THEN a ELSE v[i]]
Mutate(w) ==
    LET k == RandomElement(1..6)
        n == IF w = <<>> THEN 0 ELSE RandomElement(1..Len(w))
    IN CASE k <= 2 -> w
         [] k = 3 -> w \o RandSeq(1)
         [] k = 4 -> IF n = 0 THEN RandSeq(1) ELSE SubSeq(w, 1, n - 1)
         [] k = 5 -> IF n = 0 THEN RandSeq(2)
                     ELSE SubSeq(w, 1, n - 1) \o RandSeq(1) \o SubSeq(w, n + 1, Len(w))
         [] k = 6 -> IF n = 0 THEN w ELSE SubSeq(w, 1, n - 1) \o SubSeq(w, n + 1, Len(w))

Coords == 1..12 \cup {15, 16, 31, 32, 63, 64, 65, 79, 80, 81, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 511, 512, 999, 1000, 1024, 4095, 4096, 9999, 10000, 32767, 65535, 100000}
RandStart == LET k == RandomElement(1..6) IN
             IF k <= 2 THEN StartPos ELSE IF k = 3 THEN RandomElement(OddStarts)
             ELSE <<RandomElement(Coords), RandomElement(Coords), RandomElement({0, 97, LF, CR, SPC, -1, 127})>>
RandCase(d) == LET p == RT({}, d, FALSE)
                   w == Cut(Mutate(RW(p)))
                   st == RandStart
               IN [in |-> w, start |-> st, ps |-> <<p>>]
RandCases(n, d) == TLCEval([i \in 1..n |-> RandCase(d)])
(* Random terms made of the combinators K in the first place                *)
FocusCase(K, d) == LET p == RandomElement({"root", "in"}) IN
                   LET q == RTk(K, RandomElement(K), d, FALSE)
                       t == IF p = "root" THEN q ELSE RandomElement({Sq(<<q, OneChar>>), Optional(q, RSym(9)), OneOf(<<q, Rep("rep1", LA)>>), PLast(<<OneChar, q>>), Sq(<<Rep("rep", Lit(LF)), q>>), Transform(q, 8), TErr(q, 7)})
                       w == Cut(Mutate(Mutate(RW(t))))
                       st == RandStart
                   IN [in |-> w, start |-> st, ps |-> <<t>>]
FocusCases(K, n, d) == TLCEval([i \in 1..n |-> FocusCase(K, d)])
(* Sessions of several random parsers                                       *)
RandSess(d, n) == LET ps == RTs({}, n, d, TRUE)
                      w == Cut(Mutate(RWs(ps, 1)))
                      st == RandStart
                  IN [in |-> w, start |-> st, ps |-> ps]
RandSesss(m, d, n) == TLCEval([i \in 1..m |-> RandSess(d, n)])
=============================================================================
