----------------------------- MODULE ReportGen ------------------------------
(* Parsers and texts whose reports are looked at.                          *)
EXTENDS Families
J(op, p, w) == [op |-> op, p |-> p, in |-> w]
NoNul(w) == \A i \in 1..Len(w) : w[i] # 0
Both(P, W) == {J(op, p, w) : op \in {"build", "debug"}, p \in P, w \in W}

Reporters == {Digit, PInt, Letter, Space, Spaces, Lit(b), OneChar, PRange(b, c), CharExcept(<<a>>), OneOfC(<<b, c>>), Alphanum, Empty(RSym(1)),
   Fail(MUser(2)), Fail(MEof), Keyword(<<a, b>>, RSym(3)), Entire(OneChar, MEnd), Entire(LA, MUser(5)), ChMsg(LB, MSpace), TErr(LB, 3), TErrMsg(Digit, 4),
   TErrMsg(TErrMsg(Digit, 4), 5), TErr(Middle(LA, LA, LB), 6), Fafce(LA), Fafce(SAB), Except(LA, RSym(1), MLetter), AcceptWhen(OneChar, "digit", MUser(7)),
   Middle(LA, LA, LB), Middle(OneChar, Middle(OneChar, LA, LB), LB), Nth(4, <<LA, LB>>), Nth(0, <<LA, LB>>), PFirst(<<LA, Letter>>),
   OneOf(<<SAB, Digit>>), OneOf(<<LB, LB>>), Rep("rep", LA), Rep("repri", SAB), Rep("rep1", LB), Fold("foldlri", SAB, RSym(1)), Optional(LB, RSym(4)), Ret(RSym(9)),
   FoldSP("foldlrisp", SAB, LA), Fold("foldr1", SAB, RSym(2)), Transform(LA, 3), Token(LA), Nt(1), Nt(2), Look(LB), Nth(-2, <<LA>>)}
Deep(p, u) == PLast([j \in 1..(Len(u) + 1) |-> IF j <= Len(u) THEN Lit(u[j]) ELSE p])
Us == {<<>>, <<a>>, <<LF>>, <<a, LF, a, a>>, <<CR, LF, a>>, <<a, CR, a>>, <<LF, LF, LF>>}
Tails == {<<>>, <<a>>, <<a, a>>, <<b, a>>, <<a, b>>, <<49>>, <<a, LF, b>>, <<SPC, SPC, a>>, <<40, 40, 49>>, <<49, 43, 40>>}
Chars255 == AllChars \ {0}

RCases ==
    (* every reporter at every place *)
    Both(Reporters, Tails)
    \cup UNION {{J(op, Deep(p, u), u \o w) : op \in {"build", "debug"}, p \in Sz(Pick(18, Reporters), Reporters), w \in Sz({<<a>>, <<49, 43, 40>>}, Tails)} : u \in Us}
    (* every character in a message, and every character as text *)
    \cup {J("debug", Lit(ch), <<a>>) : ch \in Chars255 \ {a}} \cup {J("debug", LB, <<ch>>) : ch \in Chars255}
    \cup {J("build", Lit(ch), <<a>>) : ch \in Sz({-128, -1, 0, 1, 10, 13, 39, 34, 92, 48, 62, 60, 44, 65, 127, 32, 63}, AllChars) \ {a}}
    \cup {J("build", OneChar, <<ch>>) : ch \in AllChars}
    (* large columns, lines, indexes *)
    \cup {J(op, Deep(LB, RepSeq(e, n)), RepSeq(e, n) \o <<a>>) : op \in {"build", "debug"}, e \in {a, LF}, n \in Sz({9, 10, 28}, 5..30)}
    \cup {J("debug", Nth(k, <<LA, LB>>), <<a, b>>) : k \in {-1, 0, 1, 2, 9, 10, 99, 100, 1234567, 2147483646}}
    \cup {J("build", Nth(k, <<LA, LB, LA>>), <<a, b, a>>) : k \in {-1, 2, 3, 1000}}
NR == Sz(260, 4000)
Randoms == LET R == RandCases(2 * NR, 3) IN [i \in 1..Len(R) |-> J(IF i % 2 = 0 THEN "build" ELSE "debug", R[i].ps[1], R[i].in)]
Good98(j) == NoNul(j.in) \/ j.op = "build"
All == SelectSeq(SetToSeq(TLCEval(RCases)) \o Randoms, Good98)
ASSUME ndJsonSerialize(IOEnv.VP_OUT, [i \in 1..Len(All) |-> All[i] @@ ("rej" :> ~Parse(All[i].p, All[i].in, StartPos).ok)])
=============================================================================
