------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* Which sessions are explored for which property.                         *)
(***************************************************************************)
EXTENDS Lazy

AsSeq(S) == SetToSeq(S)
d0 == 48

------------------------------------------------------------------------------
(* Every combinator applied to parsers X, Y, Z (X consumes)                 *)
Forms(X, Y, Z) ==
  { X, Always(X, RSym(1)), ChMsg(X, MUser(1)), Transform(X, 1), TErr(X, 1), TErrMsg(X, 2),
    Entire(X, MUser(2)), Token(X),
    Sq(<<X, Y>>), Sq(<<X, Y, Z>>), SeqApply(<<X, Y>>), SeqApply(<<Z, Y, X>>),
    PFirst(<<X, Y>>), PFirst(<<X, Y, Z>>), PLast(<<X, Y>>), PLast(<<X, Y, Z>>),
    Nth(1, <<X, Y, Z>>), Nth(5, <<X, Y>>), Middle(X, Y, Z), Middle(Y, X, Z), Iterate(X, 2),
    Iterate(X, 3), OneOf(<<X, Y>>), OneOf(<<Sq(<<X, Y>>), Z>>),
    OneOf(<<Sq(<<X, Z>>), Sq(<<X, X, Y>>), Y>>),
    RepOneOf(<<X, Lit(122)>>), RepOneOf1(<<Lit(122), X>>),
    Optional(X, RSym(2)), Optional(Sq(<<X, Y>>), RVoid), IfP(X, RSym(3), RSym(4)),
    PLast(<<IfP(Sq(<<X, Y>>), RSym(3), RSym(4)), X>>),
    Except(X, RSym(5), MUser(3)), PLast(<<Except(Sq(<<X, Y>>), RSym(5), MUser(3)), X>>),
    Look(X), Sq(<<Look(Sq(<<X, Y>>)), X>>), Fafce(X), Fafce(Sq(<<X, Y>>)),
    Fold("foldl", X, RSym(6)), Fold("foldr", X, RSym(6)),
    Fold("foldl1", X, RSym(6)), Fold("foldr1", X, RSym(6)),
    Fold("foldlri", X, RSym(6)), Fold("foldrri", X, RSym(6)),
    Fold("foldlri", Sq(<<X, Y>>), RSym(6)), Fold("foldrri", Sq(<<X, Y>>), RSym(6)),
    Fold("foldlri1", Sq(<<X, Y>>), RSym(6)), Fold("foldrri1", Sq(<<X, Y>>), RSym(6)),
    FoldSP("foldlsp", X, Y), FoldSP("foldrsp", X, Y),
    FoldSP("foldlsp", Sq(<<X, Y>>), X), FoldSP("foldlrisp", Sq(<<X, Y>>), X),
    FoldSP("foldrsp", Sq(<<X, Y>>), X),
    Rep("rep", X), Rep("rep1", X), Rep("repri", Sq(<<X, Y>>)), Rep("repri1", Sq(<<X, Y>>)),
    Rep("rep", Sq(<<X, Y>>)), Rep("rep1", Sq(<<X, Y>>)),
    AcceptWhen(OneChar, "letter", MUser(4)), AcceptWhen(Always(X, RChar(97)), "ucase", MUser(5)) }

CharForms == { OneChar, Lit(a), Lit(LF), Lit(CR), Digit, DigitVal, Letter, Space, Alphanum, PInt,
    Spaces, PRange(a, c), CharExcept(<<>>), CharExcept(<<a>>), CharExcept(<<a, LF>>),
    OneOfC(<<a, CR>>), Keyword(<<a, LF>>, RSym(1)), Keyword(<<CR, LF, a>>, RSym(2)),
    Keyword(<<>>, RSym(3)), AlwaysC(a, RSym(4)), AlwaysC(LF, RSym(4)), Ret(RSym(5)),
    Empty(RSym(6)), Fail(MUser(7)) }

EOL == {a, CR, LF}
Steps(n) == RepSeq(OneChar, n)
AllChars == -128..127

(* Parsers that cross lines: they fail below, but left of, right of or       *)
(* straight under the place where they (or their rivals) began               *)
FailAt(u, i) == PLast([j \in 1..(Len(u) + 1) |-> IF j <= Len(u) THEN Lit(u[j]) ELSE Fail(MUser(i))])
NLs == {Sq(<<Lit(LF), LA>>), Sq(<<Lit(CR), LA>>), Sq(<<LA, Lit(LF), LA>>), Sq(<<Lit(LF), LA, Lit(LF), LB>>),
        Sq(<<Lit(CR), Lit(LF), LA>>), Sq(<<Lit(LF), Lit(LF), LA>>), Keyword(<<LF, a>>, RSym(1)), Sq(<<LA, LA, Lit(LF), LA, LB>>)}
NLW == Words(EOL, 2) \cup {<<LF, a, LF>>, <<LF, a, LF, a>>, <<a, LF, b>>, <<a, LF, a>>, <<a, LF, a, a, LF>>, <<LF, LF, b>>, <<CR, LF, b>>,
        <<LF, a, LF, b, LF, a, LF>>, <<CR, a, CR, a, CR>>, <<a, a, LF, a>>, <<a, a, LF, b>>, <<LF, a, LF, a, LF, b>>}
NLStarts == {StartPos, <<2, 1, 10>>, <<3, 2, 97>>}

------------------------------------------------------------------------------
(* Positions                                                                *)
LongLine(n) == RepSeq(a, n)
EolWord(n, e) == [i \in 1..n |-> IF i % 3 = 0 THEN e ELSE a]
MixWord(n) == [i \in 1..n |-> CASE i % 7 = 1 -> CR [] i % 7 = 2 -> LF [] i % 7 = 4 -> LF
                                [] i % 7 = 5 -> CR [] OTHER -> a]
Eater == Rep("rep", OneChar)
Starts2 == {<<1, 1, 13>>, <<3, 7, 10>>}
PosCases ==
    (* every sequence of line endings, one step at a time                    *)
    AsSeq({[in |-> w, start |-> st, ps |-> Steps(Len(w) + 1)] :
            w \in Words(EOL, Sz(5, 7)), st \in {StartPos, <<2, 5, 13>>}})
    \o AsSeq({[in |-> <<a, ch, b, LF, ch, CR, ch, LF>>, start |-> st, ps |-> Steps(8)] :
            ch \in AllChars, st \in {StartPos}})
    \o AsSeq({[in |-> <<ch, LF, c>>, start |-> <<l, col, pc>>, ps |-> Steps(3)] :
            ch \in {a, CR, LF}, l \in {1, 127, 128, 255, 256, 65536},
            col \in {1, 127, 128, 255, 256, 65535, 1000000}, pc \in {0, CR, LF, -1}})
    (* every combinator over every line ending                               *)
    \o AsSeq(Pick(Sz(2200, 15000), OnAt(Forms(OneChar, Lit(LF), Lit(a)), Words(EOL, 3), {StartPos} \cup Starts2)))
    \o AsSeq(Pick(Sz(600, 15000), On(Forms(Space, Lit(a), Spaces), WordsEq(EOL, 4))))
    \o AsSeq(OnAt(CharForms, Words(EOL, 2), Starts2))
    (* long texts                                                            *)
    \o AsSeq(On({Eater, Fold("foldr", OneChar, RSym(1)), Entire(Eater, MUser(1)),
                 Fold("foldl1", OneChar, RSym(0)), Sq(<<Eater, Fail(MUser(2))>>)},
                {LongLine(n) : n \in {28, 130, 200}} \cup {MixWord(n) : n \in {30, 31, 150}}
                \cup {EolWord(n, e) : n \in {29, 140}, e \in {CR, LF}}))
    \o RandCases(Sz(500, 8000), 2) \o RandSesss(Sz(200, 3000), 1, 4)

------------------------------------------------------------------------------
(* Remaining input                                                          *)
ABC == {a, b, c}
RemCases ==
    AsSeq(On(Forms(LA, LB, Lit(c)), WordsEq(ABC, 3) \cup {<<>>, <<a>>, <<a, b>>, <<a, a>>,
              <<a, b, c, a>>, <<a, b, a, b>>, <<a, a, a, b>>})
          \cup On(Forms(OneChar, OneChar, Optional(LA, RSym(9))), Words(AB, 2))
          \cup On(CharForms, Words({a, LF, d0}, 2)))
    \o AsSeq(Sessions({<<Rep("rep", LA), Rep("rep", LB), Eater>>,
                       <<Optional(LA, RSym(1)), Look(LB), OneChar, Empty(RSym(1))>>,
                       <<Fold("foldr", SAB, RSym(1)), OneChar, OneChar>>,
                       <<OneOf(<<SAB, LA>>), OneOf(<<SAB, LA, LB>>), Eater>>}, Words(AB, 5),
                      {StartPos}))
    \o AsSeq(On({Eater, Rep("rep", LA), Fold("foldr", LA, RSym(1)), Iterate(LA, 7),
                 Keyword(<<a, a, a, b>>, RSym(1)), Fold("foldrri", SAB, RSym(1))},
                {RepSeq(a, n) \o w : n \in {0, 3, 19, 28, 60, 150}, w \in {<<>>, <<b>>, <<b, a>>}}))
    \o RandCases(Sz(600, 8000), 2) \o RandSesss(Sz(600, 8000), 1, 4)

------------------------------------------------------------------------------
(* Character classes: every character                                       *)
EdgeChars == {-128, -127, -2, -1, 0, 1, 9, 10, 13, 32, 47, 48, 49, 57, 58, 64, 65, 90, 91, 96, 97,
              98, 122, 123, 126, 127}
Ranges == {<<a, a>>, <<97, 122>>, <<48, 57>>, <<-128, 127>>, <<-128, -2>>, <<0, 127>>, <<98, 97>>,
           <<-10, 10>>, <<-1, -1>>, <<-1, 0>>, <<127, 127>>, <<32, 126>>, <<-128, -128>>, <<65, 97>>}
(* the edges in every place of a list of characters                          *)
OddSets == UNION {{CharExcept(<<ch>>), CharExcept(<<a, ch>>), CharExcept(<<ch, a>>), CharExcept(<<a, b, ch>>), CharExcept(<<0, ch>>), CharExcept(<<ch, ch>>), CharExcept(<<49, 50, 51, 52, ch>>),
                   OneOfC(<<ch>>), OneOfC(<<a, ch>>), OneOfC(<<ch, a>>), OneOfC(<<a, b, ch>>), OneOfC(<<0, ch, 5>>)} : ch \in {-128, -1, 0, 1, 127}}
CharClassCases ==
    AsSeq(On({OneChar, Digit, DigitVal, Letter, Space, Alphanum, PInt, Spaces, CharExcept(<<>>)},
             {<<ch>> : ch \in AllChars}))
    \o AsSeq(On({PRange(r[1], r[2]) : r \in Ranges}, {<<ch>> : ch \in AllChars}))
    \o AsSeq(On({CharExcept(<<-128, 0, 127, 97>>), OneOfC(<<-128, 0, 127, 97, 10>>),
                 CharExcept(<<48, 49, 50, 51, 52, 53, 54, 55, 56>>),
                 OneOfC(<<120, 121, 122, 65, 66, 67, 32, 9>>)},
                {<<ch>> : ch \in AllChars}))
    \o AsSeq(On({AcceptWhen(OneChar, k, MUser(1)) : k \in {"digit", "letter", "lcase", "ucase", "ws"}},
                {<<ch>> : ch \in AllChars}))
    \o AsSeq(On({Lit(ch) : ch \in EdgeChars}, {<<>>} \cup {<<ch>> : ch \in EdgeChars}))
    \o AsSeq({[in |-> <<ch, a>>, start |-> StartPos, ps |-> <<Lit(ch)>>] : ch \in AllChars})
    \o AsSeq({[in |-> <<ch + 1>>, start |-> StartPos, ps |-> <<Lit(ch)>>] : ch \in -128..126})
    \o AsSeq({[in |-> <<ch>>, start |-> StartPos, ps |-> <<CharExcept(<<a, ch, b>>)>>] : ch \in AllChars})
    \o AsSeq({[in |-> <<ch>>, start |-> StartPos, ps |-> <<OneOfC(<<1, ch>>)>>] : ch \in AllChars})
    \o AsSeq(On(OddSets, {<<ch>> : ch \in EdgeChars}))
    \o AsSeq({[in |-> <<ch, ch>>, start |-> StartPos, ps |-> <<AlwaysC(ch, RSym(1))>>] : ch \in AllChars})
    (* arities: the k-th of n characters                                     *)
    \o AsSeq({[in |-> <<60 + k>>, start |-> StartPos, ps |-> <<q>>] :
                q \in {CharExcept([i \in 1..n |-> 60 + i]) : n \in 1..14}
                      \cup {OneOfC([i \in 1..n |-> 60 + i]) : n \in 1..24}, k \in 0..25})
    \o AsSeq(On(CharForms \cup {PRange(0, 5)}, {<<>>} \cup {<<ch, a>> : ch \in {a, d0, LF, CR, SPC}}))

------------------------------------------------------------------------------
(* Sequencing                                                               *)
Lits(n) == [i \in 1..n |-> Lit(96 + i)]
Abcd(n) == [i \in 1..n |-> 96 + i]
Broken(n, k) == [i \in 1..n |-> IF i = k THEN 35 ELSE 96 + i]
MixP(n) == [i \in 1..n |-> IF i % 3 = 0 THEN Ret(RSym(i)) ELSE IF i % 3 = 1 THEN OneChar ELSE Rep("rep", Lit(96 + i))]
SeqForms(ps) == {Sq(ps), PFirst(ps), PLast(ps)} \cup {Nth(n, ps) : n \in {-1} \cup 0..(Len(ps) + 1)}
MidIn  == Middle(Lit(91), LA, Lit(93))
MidOf1 == {Middle(p, q, r) : p, q, r \in {LB, MidIn}}
MidOf2 == {Middle(LB, LA, m) : m \in MidOf1} \cup {Middle(m, LA, LB) : m \in MidOf1} \cup {Middle(LB, LA, Nt(6)), Middle(LA, LB, Optional(MidIn, RSym(1))),
            Middle(LA, LB, Sq(<<LB, MidIn>>)), Middle(LA, LB, OneOf(<<LB, MidIn>>)), Middle(LA, LB, TErr(MidIn, 3)), Middle(LA, TErr(MidIn, 51), LB),
            Middle(LA, LB, TErr(MidIn, 51)), Middle(LA, LB, Rep("rep1", MidIn)), Middle(LA, LB, Rep("repri1", MidIn))}
(* the words a term accepts and everything they are cut or broken into       *)
RECURSIVE MidWord(_)
MidWord(t) == CASE t.k = "middle" -> MidWord(t.p) \o MidWord(t.q) \o MidWord(t.z)
                [] t.k = "lit" -> <<t.c>>
                [] t.k = "seq" -> FlattenSeq([i \in 1..Len(t.ps) |-> MidWord(t.ps[i])])
                [] t.k = "oneof" -> MidWord(t.ps[Len(t.ps)])
                [] t.k = "nt" -> <<a, c, a>>
                [] OTHER -> MidWord(t.p)
CutOrBroken(w) == {SubSeq(w, 1, n) : n \in 0..Len(w)} \cup {[w EXCEPT ![n] = 35] : n \in 1..Len(w)} \cup {[w EXCEPT ![n] = LF] : n \in 1..Len(w)}
SeqCases ==
    (* all triples and pairs of a small universe                             *)
    AsSeq(On(UNION {SeqForms(ps) : ps \in Tuples({LA, OneChar, Ret(RSym(1)), Fail(MUser(1))}, 2)},
             Words(AB, 2)))
    \o AsSeq(Pick(Sz(700, 6000), On(UNION {{Sq(ps), PFirst(ps), PLast(ps), Nth(1, ps), SeqApply(ps),
                                       Middle(ps[1], ps[2], ps[3])} : ps \in Tuples(SmallN, 3)},
                               Words(AB, 3))))
    \o AsSeq(On({Sq(ps) : ps \in Tuples(Small, 2)} \cup {SeqApply(ps) : ps \in Tuples(Small, 2)},
                Words(AB, 4)))
    \o AsSeq(On({SeqApply(<<q>>) : q \in SmallN} \cup {SeqApply(Lits(n)) : n \in 1..4},
                Words(AB, 2) \cup {Abcd(n) : n \in 3..5} \cup {Broken(5, k) : k \in 1..4}))
    (* arities                                                               *)
    \o AsSeq(UNION {On(SeqForms(Lits(n)), {Abcd(n), Abcd(n + 1), Abcd(n - 1)}) : n \in 1..9})
    \o AsSeq(UNION {On({Sq(Lits(n)), PFirst(Lits(n)), PLast(Lits(n)), Nth(n \div 2, Lits(n))},
                       {Broken(n, k) : k \in 1..n} \cup {Abcd(n)}) : n \in {4, 5, 6, 8, 12}})
    \o AsSeq(UNION {On(SeqForms(MixP(n)), {RepSeq(b, 3) \o Abcd(4), Abcd(6), <<>>}) : n \in 1..7})
    \o AsSeq(On({Iterate(q, n) : q \in {LA, SAB, OneChar, Optional(LA, RSym(1)), Ret(RSym(2))}, n \in 0..6},
                {RepSeq(a, k) : k \in 0..7} \cup {<<a, b, a, b, a>>, <<a, b, a, b, a, b, a, a>>}))
    \o AsSeq(On({Iterate(LA, n) : n \in {7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 30, 40}}, {RepSeq(a, k) : k \in {7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 20, 21, 31, 40}}))
    \o AsSeq(On({PFirst(<<>>), PLast(<<>>), Nth(0, <<>>), Nth(2, <<>>), Sq(<<>>)}, {<<>>, <<a>>}))
    \o AsSeq(OnAt({Middle(Lit(40), q, Lit(41)) : q \in {PInt, Rep("rep", LA), Ret(RSym(1)), Fail(MUser(2)),
                                                   Middle(Lit(40), LA, Lit(41))}},
                {<<40, 41>>, <<40, a, 41>>, <<40, 49, 41>>, <<40, 49>>, <<40, 40, a, 41, 41>>, <<40, 40, a, 41>>,
                 <<40, 40, a>>, <<40, LF, a, 41>>, <<40, a, a, LF>>, <<40, 49, 50, 93>>, <<>>, <<41>>}, OddStarts))
    \o AsSeq(UNION {On({m}, CutOrBroken(MidWord(m))) : m \in MidOf1})
    \o AsSeq(Pick(Sz(300, 3000), UNION {OnAt({m}, CutOrBroken(MidWord(m)), OddStarts) : m \in MidOf2}))
    \o AsSeq(Pick(Sz(300, 3000), OnAt(UNION {{Sq(ps), PFirst(ps), Nth(1, ps), SeqApply(ps), Middle(ps[1], ps[2], ps[3])}
                : ps \in Tuples({Lit(LF), OneChar, Sq(<<LA, Lit(LF)>>)}, 3)}, WordsEq(EOL, 4) \cup {<<a, LF, a>>, <<LF, LF>>}, NLStarts)))
    \o RandCases(Sz(400, 6000), 2)

------------------------------------------------------------------------------
(* Ordered choice                                                           *)
Depths == {LA, SAB, Sq(<<LA, LA, LB>>), Sq(<<LA, LB, LA>>), LB, Fail(MUser(1)), Ret(RSym(1)),
           Sq(<<LA, Fail(MUser(2))>>)}
ArmK(n, k) == [i \in 1..n |-> IF i = k THEN Always(SAB, RSym(i)) ELSE Always(Lit(96 + i), RSym(i))]
ArmSame(n) == [i \in 1..n |-> Always(LA, RSym(i))]
DeepFail(n, k) == [i \in 1..n |-> IF i = k THEN Sq(<<LA, LA, Lit(35)>>) ELSE Sq(<<LA, Lit(36)>>)]
ChoiceCases ==
    AsSeq(On({OneOf(ps) : ps \in Tuples(Depths, 1) \cup Tuples(Depths, 2)} \cup {OneOf(<<>>)},
             {<<>>, <<a>>, <<b>>, <<c>>, <<a, b>>, <<a, a>>, <<a, b, a>>, <<a, a, b>>, <<a, a, a>>}))
    \o AsSeq(Pick(Sz(900, 9000), On({OneOf(ps) : ps \in Tuples(Depths, 3)}, Words(AB, 3))))
    \o AsSeq(Pick(Sz(300, 3000), On({RepOneOf(ps) : ps \in Tuples({LA, SAB, Sq(<<LB, LB>>), Sq(<<LA, LA, LB>>)}, 2)}
             \cup {RepOneOf1(ps) : ps \in Tuples({LA, SAB, Sq(<<LB, LB>>), Sq(<<LA, LA, LB>>)}, 2)}, Words(AB, 4))))
    \o AsSeq(On({Optional(q, r) : q \in Depths, r \in {RSym(3), RVoid}}, Words(AB, 3)))
    (* arities: exactly one of n alternatives matches / fails furthest       *)
    \o AsSeq(UNION {On({OneOf(Lits(n))}, {<<96 + k>> : k \in 1..(n + 1)}) : n \in 1..20})
    \o AsSeq(UNION {On({OneOf(ArmSame(n)), RepOneOf(ArmSame(n)), RepOneOf1(ArmSame(n))}, {<<a, a>>, <<b>>, <<>>})
                    : n \in {2, 3, 7, 12, 19, 20}})
    \o AsSeq(UNION {On({OneOf(DeepFail(n, k)) : k \in 1..n}, {<<a, a, a>>}) : n \in {2, 3, 4, 6, 9, 15, 20}})
    \o AsSeq(UNION {On({RepOneOf(Lits(n)), RepOneOf1(Lits(n))}, {[i \in 1..m |-> 96 + ((i * 7) % (n + 1)) + 1] : m \in 0..9})
                    : n \in {1, 2, 5, 11, 19}})
    \o AsSeq(On({OneOfC([i \in 1..n |-> 64 + i]) : n \in 1..22}, {<<>>} \cup {<<64 + k>> : k \in 0..23}))
    \o AsSeq(OnAt({OneOf(<<Sq(<<Lit(LF), LA, LA>>), Sq(<<Lit(LF), LA>>), LB>>),
                   OneOf(<<Sq(<<LA, LA, LA, LB>>), Sq(<<OneChar, OneChar, Fail(MUser(1))>>),
                           Sq(<<LA, Lit(LF), LB>>)>>)},
                  Words({a, LF}, 4), {StartPos, <<1, 9, 0>>, <<1, 1, 13>>}))
    \o AsSeq(On({OneOf(<<OneOf(<<Sq(<<LA, LB>>), LB>>), Sq(<<LA, LA, LA>>)>>),
                 OneOf(<<Sq(<<LA, LA, LA>>), OneOf(<<Sq(<<LA, LB>>), LB>>)>>)}, Words(AB, 3)))
    \o AsSeq(Pick(Sz(500, 9000), OnAt({OneOf(<<FailAt(u, 1), FailAt(v, 2)>>) : u, v \in Words({a, LF}, 3)}, WordsEq({a, LF}, 3), NLStarts)))
    \o AsSeq(Pick(Sz(300, 6000), On({OneOf(<<FailAt(u, 1), FailAt(v, 2), FailAt(w, 3)>>) : u, v, w \in Words({a, LF}, 2)}, WordsEq({a, LF}, 3))))
    \o RandCases(Sz(400, 6000), 2)

------------------------------------------------------------------------------
(* Look-ahead and conditionals                                              *)
Peeks == Depths \cup {OneChar, PInt, Rep("rep", LA), Rep("rep1", SAB), Empty(RSym(8)), Optional(SAB, RSym(9)),
                      Look(LA), Except(LA, RSym(7), MUser(7)), Entire(LA, MUser(6)), Fafce(SAB),
                      Middle(LA, LB, LA), OneOf(<<SAB, LB>>), FoldSP("foldlsp", LA, LB), Token(LA)}
Zero(q) == {Optional(q, RSym(2)), Optional(q, RVoid), IfP(q, RSym(3), RSym(4)), Except(q, RSym(5), MUser(3)),
            Look(q), Fafce(q)}
ZeroW == Words(AB, 3) \cup {<<c>>, <<a, c>>, <<49, 50>>, <<a, SPC>>}
LookCases ==
    AsSeq(UNION {On(Zero(q), ZeroW) : q \in Peeks})
    \o AsSeq(UNION {OnAt(Zero(q), {<<LF, a>>, <<a, LF, b>>}, {StartPos, <<4, 9, 13>>}) : q \in {OneChar, SAB, Space, Sq(<<Space, LA>>)}})
    \o AsSeq(Pick(Sz(600, 5000), UNION {Sessions({<<z, Eater>>, <<Sq(<<z, z>>), OneChar>>}, Words(AB, 3), {StartPos})
                     : z \in UNION {Zero(q) : q \in Depths}}))
    \o AsSeq(Pick(Sz(400, 4000), UNION {On(Zero(z), Words(AB, 3)) : z \in UNION {Zero(q) : q \in {LA, SAB, Sq(<<LA, LA, LB>>)}}}))
    \o AsSeq(Pick(Sz(700, 9000), OnAt(UNION {Zero(q) : q \in NLs \cup {FailAt(u, 1) : u \in Words(EOL, 2)}}, NLW, NLStarts)))
    \o RandCases(Sz(400, 6000), 2)

------------------------------------------------------------------------------
(* Folds and repetition                                                     *)
Items == {LA, SAB, OneOf(<<SAB, LB>>), OneOf(<<LA, Sq(<<LB, LB>>)>>), Transform(OneChar, 1), Sq(<<LA, Optional(LB, RSym(1))>>),
          PLast(<<Look(LA), OneChar>>), Fail(MUser(1)), Rep("rep1", LA), CharExcept(<<b>>)}
LoopsOf(ks, its) == {IF k \in RepKinds THEN Rep(k, q) ELSE Fold(k, q, r) : k \in ks, q \in its, r \in {RSym(1)}}
Aways(k, n) == RepSeq(a, n) \o (CASE k = 0 -> <<>> [] k = 1 -> <<b>> [] k = 2 -> <<c, a>>)
Lens == IF Quick THEN {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 19, 20, 21, 28, 31, 32, 33, 50, 64, 65, 100}
        ELSE 0..130
LongW == {Aways(k, n) : k \in 0..2, n \in Lens}
VeryLong == {Aways(k, n) : k \in {0, 1}, n \in {127, 128, 129, 200, 255, 256, 257}}
LeftKs == {"foldl", "foldl1", "rep", "rep1"}
RightKs == {"foldr", "foldr1"}
RiKs == {"foldlri", "foldlri1", "foldrri", "foldrri1", "repri", "repri1"}
StateP == {LB, Optional(LA, RSym(2)), Ret(RSym(3)), SAB, Fail(MUser(2)), OneChar, Rep("rep", LB), Look(LA)}
ManyTimes == {Iterate(LA, n) : n \in 0..25} \cup {Iterate(OneOf(<<LA, LB>>), n) : n \in 3..9} \cup {Iterate(SAB, n) : n \in 0..6}
FoldLCases ==
    AsSeq(Pick(Sz(500, 2000), On(ManyTimes, {RepSeq(a, n) : n \in 0..26} \cup {<<a, b, a, b, a, b, a, b, a, b>>, <<a, b, b, a, a>>, <<b, a, a, a, b, a, a>>}))) \o
    AsSeq(On(LoopsOf(LeftKs, Items), Words(AB, Sz(4, 6))))
    \o AsSeq(Pick(Sz(1200, 9000), On({FoldSP("foldlsp", q, st) : q \in Items, st \in StateP}, Words(AB, 4))))
    \o AsSeq(On({Fold(k, LA, RSym(1)) : k \in {"foldl", "foldl1"}} \cup {Rep("rep", LA), Rep("rep1", OneChar),
                 FoldSP("foldlsp", LA, OneChar)}, LongW))
    \o AsSeq(On({Fold("foldl", LA, RSym(1)), Fold("foldl1", OneChar, RSym(1)), Rep("rep", LA), Rep("rep1", LA), FoldSP("foldlsp", LA, OneChar),
                 RepOneOf(<<LB, LA>>), Iterate(LA, 129), Keyword(RepSeq(a, 255), RSym(2))}, VeryLong))
    \o AsSeq(UNION {On({Rep("rep", Lits(1)[1]), RepOneOf(<<LA, LB>>), RepOneOf1(<<SAB, LA>>), PInt}, Words(AB, 3))})
    \o AsSeq(On({Fold("foldl", q, r) : q \in {LA, DigitVal}, r \in {RInt(7), RChar(9)}}, {<<a>>, <<49, 50>>}))
    \o AsSeq(On({Fold("foldl", Rep("rep1", LA), RSym(1)), Rep("rep", Sq(<<Rep("rep", LA), LB>>)),
                 Rep("rep", FoldSP("foldlsp", LA, LB)), FoldSP("foldlsp", Sq(<<LB, LA>>), Rep("rep", LA))}, Words(AB, 5)))
    \o RandCases(Sz(300, 6000), 2)
FoldRCases ==
    AsSeq(On(LoopsOf(RightKs, Items), Words(AB, Sz(4, 6))))
    \o AsSeq(Pick(Sz(2000, 9000), On({FoldSP("foldrsp", q, st) : q \in Items, st \in StateP}, Words(AB, 4))))
    \o AsSeq(On({Fold(k, LA, RSym(1)) : k \in {"foldr", "foldr1"}} \cup {FoldSP("foldrsp", LA, OneChar), Fold("foldr", OneChar, RSym(4)),
                 FoldSP("foldrsp", LA, Ret(RSym(2)))}, LongW))
    \o AsSeq(On({Fold("foldr", LA, RSym(1)), Fold("foldr1", OneChar, RSym(1)), FoldSP("foldrsp", LA, Ret(RSym(3))), FoldSP("foldrsp", LA, LB)}, VeryLong))
    \o AsSeq(On({Fold("foldr", q, r) : q \in {LA, DigitVal}, r \in {RInt(7), RChar(9)}}, {<<a>>, <<49, 50>>}))
    \o AsSeq(On({Fold("foldr", Fold("foldr1", LA, RSym(1)), RSym(2)), FoldSP("foldrsp", Sq(<<LA, LB>>), FoldSP("foldrsp", LA, LB)),
                 Fold("foldr1", Sq(<<Rep("rep", LA), LB>>), RSym(1)), FoldSP("foldrsp", LA, Empty(RSym(1)))}, Words(AB, 5)))
    \o AsSeq(OnAt({FoldSP("foldrsp", Sq(<<LA, LB>>), Fail(MUser(1))), FoldSP("foldrsp", LA, Lit(LF))}, Words({a, b, LF}, 3), {StartPos, <<5, 5, 13>>}))
    \o RandCases(Sz(300, 6000), 2)
RiItems == {LA, SAB, Sq(<<LA, LA, LB>>), OneOf(<<SAB, Sq(<<LB, LB>>)>>), OneOf(<<LB, SAB>>), Sq(<<LA, Optional(LB, RSym(1)), LA>>),
            PLast(<<Look(SAB), LA>>), Fail(MUser(1)), Sq(<<OneChar, LB>>), ChMsg(SAB, MUser(2)), Middle(LA, LB, LA), TErr(SAB, 3)}
RiLong == {FlattenSeq(RepSeq(<<a, b>>, n)) \o w : n \in {0, 1, 2, 5, 10, 15, 20, 40}, w \in {<<>>, <<a>>, <<b>>, <<a, a>>}}
RiCases ==
    AsSeq(Pick(Sz(3000, 20000), On(LoopsOf(RiKs, RiItems), Words(AB, 4))))
    \o AsSeq(Pick(Sz(900, 9000), On({FoldSP("foldlrisp", q, st) : q \in RiItems, st \in StateP}, Words(AB, 4))))
    \o AsSeq(On(LoopsOf(RiKs, {SAB}) \cup {FoldSP("foldlrisp", SAB, Optional(LB, RSym(1)))}, RiLong))
    \o AsSeq(On(LoopsOf(RiKs, {SAB}), {FlattenSeq(RepSeq(<<a, b>>, n)) \o w : n \in {63, 64, 65, 127, 128, 129}, w \in {<<>>, <<a>>, <<a, a>>}}))
    \o AsSeq(OnAt(LoopsOf(RiKs, {Sq(<<LA, Lit(LF), LB>>)}), {<<a, LF, b>>, <<a, LF, a>>, <<a>>, <<a, LF, b, a, LF>>, <<LF>>, <<>>}, OddStarts))
    \o AsSeq(Pick(Sz(900, 9000), OnAt(LoopsOf(RiKs, NLs) \cup {FoldSP("foldlrisp", q, st) : q \in NLs, st \in {OneChar, Ret(RSym(2)), Lit(LF)}}, NLW, NLStarts)))
    \o RandCases(Sz(200, 5000), 2)

------------------------------------------------------------------------------
(* Errors                                                                   *)
Failing == {Fail(MUser(1)), SAB, Sq(<<LA, LA, LB>>), Digit, PInt, Letter, Space, OneChar, PRange(b, c), CharExcept(<<a>>),
            Empty(RSym(1)), Middle(LA, OneChar, LB), Nth(4, <<LA, LB>>), Keyword(<<a, b, a>>, RSym(1)), Spaces,
            Entire(LA, MUser(4)), Except(LA, RSym(1), MUser(5)), ChMsg(SAB, MUser(6)), TErrMsg(SAB, 7), TErr(SAB, 8),
            Fafce(SAB), AcceptWhen(OneChar, "digit", MUser(9)), Sq(<<OneChar, OneChar, Fail(MUser(2))>>)}
Wraps(q) == {TErr(q, 1), TErrMsg(q, 2), ChMsg(q, MUser(11)), TErr(TErrMsg(q, 3), 4), TErrMsg(TErr(q, 3), 4), ChMsg(TErr(q, 3), MUser(12)),
             TErr(ChMsg(q, MUser(13)), 5), Transform(q, 1), Always(q, RSym(1)), Token(q), Look(q), Entire(q, MUser(14)), Sq(<<q, LA>>),
             Sq(<<OneChar, q>>), PLast(<<OneChar, q>>), PFirst(<<OneChar, q>>), Nth(0, <<q, LB>>), SeqApply(<<OneChar, q>>),
             Middle(q, LA, LB), Middle(LA, q, LB), Middle(LA, LB, q), Middle(LA, TErr(q, 6), q), OneOf(<<q>>), OneOf(<<q, TErr(q, 1)>>),
             Rep("rep1", PLast(<<OneChar, q>>)), FoldSP("foldlsp", LA, q), FoldSP("foldrsp", LA, q), Iterate(PLast(<<OneChar, q>>), 2), Fafce(q),
             Fold("foldlri", PLast(<<OneChar, q>>), RSym(1)), TErr(Middle(LA, LB, q), 2), TErrMsg(OneOf(<<q, Sq(<<OneChar, q>>)>>), 3),
             Except(q, RSym(2), MUser(3)), AcceptWhen(Always(q, RChar(a)), "digit", MUser(15))}
ErrCases ==
    AsSeq(UNION {On(Wraps(q), {<<>>, <<a>>, <<a, b>>, <<a, a, a>>, <<49, b>>}) : q \in Failing})
    \o AsSeq(UNION {OnAt(Wraps(q), {<<a, LF>>, <<LF, a, b>>}, {<<1, 1, 13>>, <<6, 3, a>>}) : q \in {SAB, PInt, Fail(MUser(1)), Sq(<<OneChar, OneChar, Fail(MUser(2))>>)}})
    \o AsSeq(Pick(Sz(500, 6000), UNION {On(Wraps(w), {<<>>, <<a>>, <<a, b>>, <<a, a, a>>}) : w \in UNION {Wraps(q) : q \in {SAB, Digit, Fail(MUser(1))}}}))
    \o RandCases(Sz(400, 6000), 2)

------------------------------------------------------------------------------
(* Results                                                                  *)
ResP == {LA, OneChar, SAB, DigitVal, PInt, Rep("rep", LA), SeqApply(<<LA, LB>>), Optional(LA, RVoid), Ret(RSym(1)), Ret(RInt(-5)),
         Ret(RChar(-128)), Middle(LA, OneChar, LB), Fold("foldl", LA, RSym(2)), Fold("foldr", LA, RSym(2)), OneOf(<<LA, DigitVal>>),
         Keyword(<<a, b>>, RSym(3)), IfP(LA, RSym(4), RSym(5)), Look(OneChar), Sq(<<LA, Rep("rep", LB)>>), Fail(MUser(1)), AlwaysC(a, RInt(3)),
         Empty(RSym(6)), Sq(<<LA, SAB>>)}
ResWraps(q) == {q, Transform(q, 1), Transform(Transform(q, 1), 2), Always(q, RSym(9)), Transform(Always(q, RInt(0)), 3), Always(Transform(q, 2), RChar(a)),
                Sq(<<q, q>>), PLast(<<Ret(RSym(8)), q>>), PFirst(<<q, Ret(RSym(8))>>), Token(q), Entire(q, MUser(3)), Rep("rep", PFirst(<<q, LB>>)),
                Optional(q, RSym(7)), Transform(Optional(q, RVoid), 4), Transform(Sq(<<OneChar, q>>), 5), Transform(Rep("rep", PLast(<<LA, q>>)), 6)}
NonNull(S) == {q \in S : WellFormed(q)}
ResCases ==
    AsSeq(On(NonNull(UNION {ResWraps(q) : q \in ResP}), {<<>>, <<a>>, <<a, b>>, <<49, 50>>, <<a, a, b, b>>, <<a, a, a>>}))
    \o AsSeq(On({AcceptWhen(q, k, MUser(1)) : q \in {OneChar, Always(LA, RChar(49)), Look(OneChar), PLast(<<OneChar, OneChar>>), OneOf(<<LA, Digit>>), Fail(MUser(2))},
                 k \in {"digit", "letter", "lcase", "ucase", "ws"}}, {<<>>} \cup {<<ch>> : ch \in {a, 65, 49, SPC, LF}} \cup {<<a, ch>> : ch \in {a, 65, 49, SPC, LF}}))
    \o AsSeq(On({Ret(r) : r \in {RSym(1), RInt(0), RInt(-2147483647), RInt(2147483646), RChar(0), RChar(-128), RChar(127)}}, {<<>>, <<a>>}))
    \o RandCases(Sz(600, 8000), 2)

------------------------------------------------------------------------------
(* Lexical helpers                                                          *)
KwWords == {<<>>, <<a>>, <<a, b>>, <<a, a>>, <<a, LF, b>>, <<a, b, c, a>>, [i \in 1..10 |-> 96 + i], [i \in 1..26 |-> 96 + i], <<65, 97>>, <<0>>, <<-128, 127>>}
PrefixSet(w) == {SubSeq(w, 1, n) : n \in 0..Len(w)}
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Nums == {0, 1, 9, 10, 11, 42, 99, 100, 101, 255, 256, 999, 1000, 4095, 32767, 32768, 65535, 65536, 99999, 100000, 123456, 999999, 1000000,
         8388608, 16777216, 99999999, 100000000, 123456789, 987654321, 999999999, 1000000000, 1073741824, 2000000000, 2147483645, 2147483646}
Blank(n, k) == [i \in 1..n |-> CASE k = 0 -> SPC [] k = 1 -> (IF i % 2 = 0 THEN TAB ELSE SPC) [] k = 2 -> (IF i % 3 = 0 THEN LF ELSE IF i % 3 = 1 THEN CR ELSE SPC)]
WsC == {SPC, TAB, LF, CR, a}
LexCases ==
    AsSeq(UNION {On({Keyword(w, RSym(1)), Token(Keyword(w, RSym(2)))}, PrefixSet(w) \cup {Append(u, 35) : u \in PrefixSet(w)} \cup {w \o <<SPC, a>>}) : w \in KwWords})
    \o AsSeq({[in |-> w, start |-> StartPos, ps |-> <<Keyword(w, RSym(1))>>] : w \in {[i \in 1..n |-> 97 + (i % 5)] : n \in 0..30} \cup {[i \in 1..n |-> a] : n \in {40, 64}}})
    \o AsSeq(On({Spaces, Token(LA), Token(Ret(RSym(1))), Rep("rep", Token(LA)), Entire(Token(LA), MUser(1)), Space}, Words(WsC, 3)))
    \o AsSeq(On({Token(SAB), Token(Token(LA)), Token(PInt), Sq(<<Token(LA), Token(LB)>>), Token(Spaces)},
                {<<a, b>>, <<a, b, SPC>>, <<a, SPC, b>>, <<a, SPC, SPC, TAB, b, LF>>, <<SPC, a>>, <<49, 50, SPC, 51>>, <<49, LF, CR>>, <<SPC, SPC>>, <<a, 11>>, <<a, 12, SPC>>, <<a, -96>>}))
    \o AsSeq(On({Spaces, Token(LA), Sq(<<Token(LA), LB>>), Rep("rep", Space), Token(Rep("rep", LA)), Sq(<<LA, Spaces, LB>>)},
                {u \o Blank(n, k) \o v : u \in {<<>>, <<a>>}, v \in {<<>>, <<b>>}, n \in {4, 5, 6, 7, 8, 9, 15, 16, 17, 20, 27, 30}, k \in 0..2}))
    \o AsSeq(On({Spaces, Token(LA)}, {<<a>> \o Blank(n, 1) \o <<b>> : n \in {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200}} \cup {Blank(n, 2) : n \in {31, 33, 64, 65, 129}}))
    \o AsSeq(On({Entire(q, m) : q \in {LA, Rep("rep", LA), SAB, Ret(RSym(1)), PInt, Empty(RSym(2)), OneOf(<<LA, SAB>>), Token(LA), Entire(LA, MUser(2))}, m \in {MUser(1), MEnd}},
                Words(AB, 3) \cup {<<49>>, <<49, a>>, <<a, SPC>>}))
    \o AsSeq(On({PInt, Token(PInt), Sq(<<PInt, Rep("rep", OneChar)>>), Entire(PInt, MUser(1))}, {Digits(n) : n \in Nums} \cup {Digits(n) \o <<a>> : n \in {7, 4096}}
                \cup {<<d0>> \o Digits(n) : n \in {0, 7, 10, 1234567}} \cup {<<d0, d0, d0, 49>>, <<>>, <<a>>, <<45, 49>>, <<SPC, 49>>, <<47>>, <<58>>}))
    \o AsSeq({[in |-> Digits(n), start |-> StartPos, ps |-> <<PInt>>] : n \in Pick(Sz(150, 2000), 0..999999)})
    \o AsSeq(On({Rep("rep", Token(OneOf(<<PInt, Lit(plus), Lit(40), Lit(41)>>))), Sq(<<Token(PInt), Token(Lit(plus)), Token(PInt)>>),
                 FoldSP("foldlsp", PLast(<<Token(Lit(plus)), Token(PInt)>>), Token(PInt))},
                {<<49, plus, 50>>, <<49, SPC, plus, SPC, 50, SPC>>, <<49, LF, plus, 50>>, <<49, plus>>, <<49, SPC, 50>>, <<SPC, 49>>, <<49, plus, 50, plus, 51, 48>>, <<>>}))
    \o AsSeq(On({Empty(RSym(1))}, {<<>>} \cup {<<ch>> : ch \in {0, a, SPC, LF, -128}}))
    \o RandCases(Sz(300, 5000), 2)

------------------------------------------------------------------------------
(* Recursive parsers                                                        *)
Parens(n, m) == RepSeq(40, n) \o <<120>> \o RepSeq(41, m)
Sums(n) == FlattenSeq([i \in 1..n |-> <<48 + (i % 10), IF i % 3 = 0 THEN 42 ELSE 43>>]) \o <<49>>
Pal(w) == w \o <<c>> \o Reverse(w)
RecCases ==
    AsSeq(On({Nt(1)}, Words({40, 41, 120}, Sz(5, 7))))
    \o AsSeq(On({Nt(2)}, Words({49, 43, 40, 41}, Sz(5, 6))))
    \o AsSeq(On({Nt(3), Nt(4)}, Words({50, 42, 40, 41}, Sz(3, 5))))
    \o AsSeq(On({Nt(5), Entire(Nt(5), MUser(1))}, Words(AB, 4) \cup {RepSeq(a, n) : n \in {5, 10, 20, 30, 45}}))
    \o AsSeq(On({Nt(6), Entire(Nt(6), MUser(1))}, Words(ABC, 4) \cup {Pal(w) : w \in Words(AB, 4)} \cup {Pal(RepSeq(a, n)) : n \in {8, 14, 25}}))
    \o AsSeq(On({Nt(1), Entire(Nt(1), MUser(1))}, {Parens(n, m) : n \in 0..8, m \in 0..9} \cup {Parens(n, n) : n \in {10, 15, 25, 40}} \cup {Parens(12, 11)}))
    \o AsSeq(On({Nt(2)}, {Sums(n) : n \in {1, 3, 5, 9, 14, 20, 30}} \cup {RepSeq(40, n) \o <<49, 43, 50>> \o RepSeq(41, n) : n \in {1, 2, 5, 9, 14, 20}}))
    \o AsSeq(Pick(Sz(500, 4000), On({Nt(7)}, Words({40, 41, 49, SPC}, Sz(5, 6)))))
    \o AsSeq(Pick(Sz(500, 4000), On({Nt(8)}, Words({91, 93, 44, 49}, Sz(5, 6)) \cup {RepSeq(91, n) \o <<49>> \o RepSeq(93, n) : n \in 0..12}
                 \cup {<<91, 49>> \o FlattenSeq(RepSeq(<<44, 50>>, n)) \o w : n \in {0, 1, 2, 5, 11}, w \in {<<93>>, <<44>>, <<44, 93>>, <<>>}})))
    \o AsSeq(Pick(Sz(400, 4000), On({Nt(9), Entire(Nt(9), MUser(1))}, Words({49, 94, 40, 41}, Sz(4, 6)) \cup {FlattenSeq(RepSeq(<<50, 94>>, n)) \o <<51>> : n \in {5, 9, 13}})))
    \o AsSeq(Pick(Sz(500, 4000), On({Nt(11), Entire(Nt(11), MUser(1))}, Words({97, 123, 125}, Sz(5, 7)) \cup {FlattenSeq(RepSeq(<<97, 123>>, n)) \o RepSeq(125, m) : n \in 0..7, m \in 0..7})))
    \o AsSeq(On({Nt(12), Nt(13), Nt(14)}, {RepSeq(a, i) \o RepSeq(b, j) \o RepSeq(c, k) : i \in 0..4, j \in 0..4, k \in 0..4} \cup {RepSeq(a, n) \o RepSeq(b, n) \o RepSeq(c, n) : n \in 5..9}))
    \o AsSeq(On({Nt(15), Nt(16), Entire(Nt(15), MUser(1)), Entire(Nt(16), MUser(2))}, {RepSeq(a, n) \o w : n \in 0..14, w \in {<<>>, <<b>>}}))
    \o AsSeq(Pick(Sz(500, 4000), On({Nt(17)}, Words({40, 41, a, LF}, Sz(5, 6)) \cup {RepSeq(40, n) \o <<a, LF>> \o RepSeq(41, m) : n \in 0..8, m \in 0..8})))
    \o AsSeq(On({Nt(18)}, Words({a, 120, LF}, 4) \cup {RepSeq(a, n) \o w : n \in {5, 9, 15, 28}, w \in {<<>>, <<120>>}}))
    \o AsSeq(On({Nt(19)}, {<<>>, <<a>>, <<60>>, <<60, a>>, <<60, a, 62>>, <<60, a, 62, 60, 47, a, 62>>, <<60, a, 62, b, c, 60, 47, b, 62>>, <<60, a, 62, 60, b, 62, c, 60, 47, b, 62, 60, 47, a, 62>>,
                 <<60, a, 62, 60, b, 62, c, 60, 47, b, 60, 47, a, 62>>, <<60, a, 62, 60, b, 62, 60, 47, b, 62, a, 60, 98, 62, 60, 47, b>>, <<60, 49>>, <<60, a, 62, b, 60, a>>, <<60, a, 62, LF, b>>, <<60, a, 62, b, LF>>}))
    \o AsSeq(On({Nt(20)}, Words({a, 46}, Sz(5, 7)) \cup {<<49>>, <<a, 49>>, <<46, 49>>, <<46, a, 46, 49>>, <<a, LF>>, <<46, LF>>} \cup {FlattenSeq(RepSeq(<<a, 46>>, n)) : n \in {4, 8, 13}}))
    \o AsSeq(On({Nt(21)}, {<<49, 50, 51>>, <<49, 50>>, <<40, 49, 50, 51, 52, 53, 54, 41>>, <<40, 49, 50, 51, 52, 53, 41>>, <<40, 40, 49, 50, 51, 52, 53, 54, 41, 55, 56, 57, 41>>,
                 <<40, 49, 50, 51, 40, 52, 53, 54, 55, 56, 57, 41, 41, 48>>, <<40, 49, 50, 51, 40, 52, 53, 54, 55, 56, 57, 41>>, <<40, 49, 50, 51, 41>>, <<>>, <<40>>}))
    \o AsSeq(Pick(Sz(300, 3000), OnAt({q : q \in UNION {{Rep("rep", PFirst(<<Nt(n), Lit(59)>>)), OneOf(<<Sq(<<Nt(n), Lit(59)>>), Nt(n)>>), Middle(Lit(123), Nt(n), Lit(125)), Look(Nt(n)), Except(Nt(n), RSym(1), MUser(2)),
                   Transform(Nt(n), 3), Fafce(Nt(n)), TErr(Nt(n), 4), Fold("foldrri", PLast(<<Lit(59), Nt(n)>>), RSym(5))} : n \in {7, 8, 9, 13, 16, 17, 19, 21}}},
                 {<<40, 49, 41, 59, 40, 41, 59>>, <<123, 40, 49, 41, 125>>, <<91, 49, 44, 50, 93, 59, 91, 49, 44>>, <<49, 94, 50, 59>>, <<a, a, b, b, 59, a, b>>, <<a, 59, a, a, 59, a, a, a, 59>>, <<59, a, 59, a, a, LF>>,
                  <<40, LF, a, 41, 59>>, <<59, 40, LF, a>>, <<60, a, 62, 60, 47, a, 62, 59>>, <<49, 50, 51, 59, 49, 50>>, <<59, 49, 50, 51, 59, 49>>, <<123, 49, 50, 51>>, <<>>}, {StartPos, <<3, 2, 97>>, <<2, 1, 10>>})))
    \o AsSeq(OnAt({Nt(1), Nt(6)}, {Parens(3, 2), <<40, LF>>, <<97, 98, 99, 98>>, <<40>>}, OddStarts))
    \o AsSeq(Sessions({<<Nt(1), Nt(1)>>, <<Nt(2), Lit(59), Nt(2)>>, <<Rep("rep", Nt(1)), Empty(RSym(1))>>},
               {<<120, 120>>, <<40, 120, 41, 120>>, <<49, 43, 50, 59, 51>>, <<120, 40, 120, 41, 40>>, <<49, 59, 43>>}, {StartPos}))

------------------------------------------------------------------------------
(* A bit of everything (independence of standard, spelling and container)   *)
MixCases == AsSeq(On(Forms(LA, LB, OneChar), Words(AB, 2) \cup {<<a, b, a, b>>, <<a, a, a>>})
                  \cup On(CharForms, {<<>>, <<a>>, <<LF, a>>, <<CR, LF, a>>, <<49>>})
                  \cup On(OddSets \cup {PRange(-128, -1), PRange(-1, 1), Lit(-1), Lit(-128), Lit(127), Keyword(<<a, -1, 0>>, RSym(1))}, {<<-1>>, <<-128>>, <<0>>, <<127>>, <<a, -1, 0>>})
                  \cup On(UNION {SeqForms(Lits(n)) : n \in 1..4}, {Abcd(4), Broken(4, 3)})
                  \cup On({OneOf(Lits(n)) : n \in 1..19}, {<<96 + 5>>, <<a>>, <<c>>}))
            \o AsSeq(Pick(Sz(300, 2000), On(LoopsOf(LeftKs \cup RightKs \cup RiKs, Items \ {Fail(MUser(1))}), Words(AB, 4))))
            \o AsSeq(On({Nt(n) : n \in 1..6}, {<<40, 120, 41>>, <<49, 43, 50, 42, 51>>, <<a, a>>, <<a, b, c, b, a>>}))
            \o RandCases(Sz(500, 8000), 2) \o RandCases(Sz(200, 3000), 3) \o RandSesss(Sz(200, 3000), 1, 3)

------------------------------------------------------------------------------
(* Sizes: everything that takes a list of things, at every length of it     *)
Cyc(n) == [i \in 1..n |-> 97 + (i % 23)]
CycL(n) == [i \in 1..n |-> Lit(97 + (i % 23))]
CutAt(n, k) == [i \in 1..n |-> IF i = k THEN 35 ELSE 97 + (i % 23)]
MaxN == 30
LimitCases ==
    AsSeq(UNION {On({SeqApply(CycL(n))}, {Cyc(n), Append(Cyc(n), 122), CutAt(n, n), CutAt(n, 1 + (n \div 2))}) : n \in 1..15}) \o
    AsSeq(UNION {On({Sq(CycL(n)), PFirst(CycL(n)), PLast(CycL(n)), Nth(n - 1, CycL(n)), Nth(n, CycL(n)), Nth(n \div 2, CycL(n))},
                    {Cyc(n), Append(Cyc(n), 122), CutAt(n, n), CutAt(n, 1), Cyc(n - 1)}) : n \in 1..MaxN})
    \o AsSeq(UNION {On({OneOf(CycL(n)), RepOneOf(CycL(n)), RepOneOf1(CycL(n)), OneOfC(Cyc(n)), CharExcept(Cyc(n))},
                    {<<97 + (n % 23)>>, <<98>>, <<97 + ((n \div 2) % 23), 98>>, <<35>>, <<>>}) : n \in 1..MaxN})
    \o AsSeq(UNION {On({CharExcept([i \in 1..n |-> 32 + i])}, {<<32 + k>> : k \in 0..(n + 1)}) : n \in 1..MaxN})
    \o AsSeq(UNION {On({Keyword(Cyc(n), RSym(1)), Rep("rep", OneChar), Fold("foldr", OneChar, RSym(2)), Entire(Rep("rep1", Letter), MUser(1)), Sq(<<OneChar, Rep("rep", Letter)>>)},
                    {Cyc(n), CutAt(n, n), Cyc(n - 1)}) : n \in 1..71})

------------------------------------------------------------------------------
Base == CASE Prop = "X00" -> RandCases(Sz(1000, 10000), 2) \o RandSesss(200, 1, 3)
           [] Prop = "pos" -> PosCases
           [] Prop = "rem" -> RemCases
           [] Prop = "chars" -> CharClassCases
           [] Prop = "seq" -> SeqCases
           [] Prop = "choice" -> ChoiceCases
           [] Prop = "look" -> LookCases
           [] Prop = "foldl" -> FoldLCases
           [] Prop = "foldr" -> FoldRCases
           [] Prop = "ri" -> RiCases
           [] Prop = "err" -> ErrCases
           [] Prop = "res" -> ResCases
           [] Prop = "lex" -> LexCases
           [] Prop = "rec" -> RecCases
           [] Prop = "mix" -> MixCases
           [] Prop = "limits" -> LimitCases
           [] Prop = "lazy" -> <<>>

(* The same sessions with other characters, crossing lines where they did    *)
(* not: characters are renamed in the text and in the parsers alike.         *)
Ren(m, ch) == IF ch \in DOMAIN m THEN m[ch] ELSE ch
RenS(m, w) == [i \in 1..Len(w) |-> Ren(m, w[i])]
RECURSIVE RenP(_, _)
RenP(m, p) == [f \in DOMAIN p |->
                 CASE f = "c" -> Ren(m, p.c)
                   [] f \in {"cs", "s"} -> RenS(m, p[f])
                   [] f \in {"p", "q", "z"} -> RenP(m, p[f])
                   [] f = "ps" -> [i \in 1..Len(p.ps) |-> RenP(m, p.ps[i])]
                   [] OTHER -> p[f]]
Renames == {b :> LF, a :> LF, (a :> CR) @@ (b :> LF), (a :> LF) @@ (b :> CR), (b :> LF) @@ (c :> LF), (a :> 0) @@ (b :> -1), (a :> b) @@ (b :> LF) @@ (LF :> a)}
RenCase(cs) == LET m == RandomElement(Renames) st == RandomElement(NLStarts \cup OddStarts) IN
               [in |-> RenS(m, cs.in), start |-> st, ps |-> [i \in 1..Len(cs.ps) |-> RenP(m, cs.ps[i])]]
Some(n, C) == LET I == Pick(n, 1..Len(C)) IN SetToSeq({C[i] : i \in I})
Renamed(n, C) == LET D == TLCEval(Some(n, C)) IN TLCEval([i \in 1..Len(D) |-> RenCase(D[i])])

(* The same sessions with results that mean something else to the library     *)
OddR(r) == IF r[1] = 5 /\ r # Unspec THEN ROdd((r[2] % 10) + 1) ELSE r
RECURSIVE OddP(_)
OddP(p) == [f \in DOMAIN p |->
                 CASE f \in {"r", "t", "e"} -> OddR(p[f])
                   [] f = "p" /\ p.k \in FoldKinds \cup FoldSPKinds \cup RepKinds /\ RandomElement(1..4) = 1 -> Transform(OddP(p.p), 62)
                   [] f \in {"p", "q", "z"} -> OddP(p[f])
                   [] f = "ps" -> [i \in 1..Len(p.ps) |-> OddP(p.ps[i])]
                   [] f = "f" /\ p.k = "transform" /\ p.f < 60 -> RandomElement({1, 2}) * RandomElement(0..1) + RandomElement(61..68)
                   [] OTHER -> p[f]]
Odded(n, C) == LET D == TLCEval(Some(n, C)) IN [i \in 1..Len(D) |-> [D[i] EXCEPT !.ps = [j \in 1..Len(D[i].ps) |-> OddP(D[i].ps[j])]]]

(* Every combinator, over parsers that cross lines, anywhere in a file       *)
CommonW == {<<>>, <<LF>>, <<a, LF>>, <<LF, a>>, <<a, LF, b>>, <<LF, a, LF, b>>, <<LF, LF, a>>, <<CR, LF, a, b>>, <<a, b, a, LF, b>>, <<a, LF, b, a, LF, b>>, <<a, LF, b, a, LF>>,
            <<a, LF, b, a, b>>, <<LF, b, LF, b, a>>, <<LF, b, LF, a>>, <<a, b, a, b>>, <<a, b, a, a>>}
Common == UNION {OnAt(Forms(t[1], t[2], t[3]), CommonW, NLStarts \cup {<<2, 5, 13>>}) :
                   t \in {<<LA, Lit(LF), LB>>, <<Sq(<<LA, Lit(LF)>>), LB, Optional(LA, RSym(20))>>, <<Lit(LF), LB, LA>>, <<SAB, LA, Lit(LF)>>,
                          <<Keyword(<<a, LF, b>>, RSym(21)), LA, LB>>, <<Sq(<<LA, Lit(LF), LB>>), LA, LB>>}}
Focus == CASE Prop = "seq" -> NaryK \cup {"middle", "iterate"}
           [] Prop = "choice" -> {"oneof", "rep1of", "rep1of1", "optional"}
           [] Prop = "look" -> ZeroK
           [] Prop = "foldl" -> {"foldl", "foldl1", "foldlsp", "rep", "rep1", "rep1of", "rep1of1", "iterate"}
           [] Prop = "foldr" -> {"foldr", "foldr1", "foldrsp"}
           [] Prop = "ri" -> {"foldlri", "foldlri1", "foldlrisp", "foldrri", "foldrri1", "repri", "repri1"}
           [] Prop = "err" -> {"chmsg", "terr", "terrmsg"}
           [] Prop = "res" -> {"always", "transform", "accept_when"}
           [] Prop = "lex" -> {"kw", "token", "entire"}
           [] OTHER -> AllKinds
(* Every combinator of the property around every combinator, in each place   *)
Inner == Forms(LA, LB, Lit(c)) \cup {TErr(SAB, 51), AcceptWhen(SAB, "any", MUser(6)), AcceptWhen(SAB, "none", MUser(7)), Nt(1), Nt(6), PInt, Keyword(<<a, LF, b>>, RSym(7)), Digit, Spaces, Fail(MUser(8))}
Around(q) == Forms(q, LB, LA) \cup Forms(LB, q, LA) \cup Forms(LA, LB, q) \cup {Middle(LB, LA, q), AcceptWhen(q, "none", MUser(8)), TErr(q, 52), FoldSP("foldlsp", LB, q), FoldSP("foldlrisp", LB, q), FoldSP("foldrsp", LB, q)}
PairTerms == UNION {{t \in Around(q) : t.k \in Focus /\ WellFormed(t)} : q \in Inner}
PairCase(t) == [in |-> Cut(Mutate(Mutate(RW(t)))), start |-> RandStart, ps |-> <<t>>]
PairCases(n) == LET T == TLCEval(AsSeq(Pick(n, PairTerms))) IN TLCEval([i \in 1..Len(T) |-> PairCase(T[i])])
(* Runs that leave something of their parsers alone                         *)
Lazied(C) == LET D == TLCEval([i \in 1..Len(C) |-> Bombed(C[i])]) IN SelectSeq([i \in 1..Len(C) |-> [c |-> C[i], d |-> D[i]]], LAMBDA e : e.c.ps # e.d.ps)
LazyCases == LET C == TLCEval(PairCases(Sz(1300, 12000)) \o PairCases(Sz(800, 12000)) \o FocusCases(AllKinds, Sz(1500, 20000), 2) \o FocusCases(AllKinds, Sz(500, 9000), 3)
                              \o AsSeq(Pick(Sz(1200, 12000), Common)) \o AsSeq(Pick(Sz(400, 4000), On(NonNull(UNION {ResWraps(q) : q \in ResP}), {<<>>, <<a>>, <<a, b>>, <<49, 50>>, <<a, a, b, b>>})))
                              \o AsSeq(UNION {On({OneOf(Lits(n)), RepOneOf(Lits(n)), RepOneOf1(Lits(n))}, {<<97>>, <<96 + ((n + 1) \div 2)>>, <<96 + n>>}) : n \in 1..20})
                              \o AsSeq(UNION {On({Sq(Lits(n)), PFirst(Lits(n)), PLast(Lits(n)), Nth(n \div 2, Lits(n)), Nth(n, Lits(n)), SeqApply(Lits(n))}, {Broken(n, k) : k \in 1..n}) : n \in {1, 2, 3, 4, 5, 8, 12}}))
                 L == TLCEval(Lazied(C))
             IN [i \in 1..Len(L) |-> L[i].d]
(* Not explored: left folds starting with the unspecified default result of   *)
(* optional (the library wants a class with a nested type there).            *)
RECURSIVE HasVoid(_), VoidStart(_)
Parts(p) == (IF "p" \in DOMAIN p THEN <<p.p>> ELSE <<>>) \o (IF "q" \in DOMAIN p THEN <<p.q>> ELSE <<>>) \o (IF "z" \in DOMAIN p THEN <<p.z>> ELSE <<>>) \o (IF "ps" \in DOMAIN p THEN p.ps ELSE <<>>)
HasVoid(p) == (p.k = "optional" /\ p.r = RVoid) \/ \E i \in 1..Len(Parts(p)) : HasVoid(Parts(p)[i])
VoidStart(p) == (p.k \in {"foldlsp", "foldlrisp"} /\ HasVoid(p.q)) \/ \E i \in 1..Len(Parts(p)) : VoidStart(Parts(p)[i])
Explorable(C) == SelectSeq(C, LAMBDA cs : ~\E i \in 1..Len(cs.ps) : VoidStart(cs.ps[i]))
Cases == LET B == TLCEval(Base) IN Explorable(TLCEval(
         IF Prop \in {"X00", "limits"} THEN B ELSE IF Prop = "lazy" THEN LazyCases
         ELSE B \o (IF Prop = "chars" THEN <<>> ELSE FocusCases(Focus, Sz(400, 6000), 2) \o FocusCases(Focus, Sz(150, 3000), 3) \o PairCases(Sz(500, 6000)) \o PairCases(Sz(200, 6000)) \o Renamed(Sz(700, 8000), B) \o Odded(Sz(250, 3000), B)) \o AsSeq(Pick(Sz(IF Prop = "chars" THEN 200 ELSE 700, 8000), Common))))
=============================================================================
