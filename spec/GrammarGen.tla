----------------------------- MODULE GrammarGen -----------------------------
(* Grammars (and texts that are not grammars) with inputs for them.          *)
EXTENDS Gen, Grammar

ASCII == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeSeq == <<32, 33>> \o [i \in 1..57 |-> 34 + i] \o [i \in 1..34 |-> 92 + i]
Code(s) == [i \in 1..Len(s) |-> CodeSeq[CHOOSE j \in 1..Len(ASCII) : SubSeq(ASCII, j, j) = SubSeq(s, i, i)]]
\* (the backslash, 92, and the double quote, 34, are not in ASCII)
BS == <<BSL>>

------------------------------------------------------------------------------
(* Printing trees as rule texts                                             *)
Tk(w) == [w |-> w, n |-> FALSE]
EscapeTok(ch) == CASE ch = LF -> <<QUOTE, BSL, 110, QUOTE>> [] ch = CR -> <<QUOTE, BSL, 114, QUOTE>>
                   [] ch = TAB -> <<QUOTE, BSL, 116, QUOTE>> [] ch = QUOTE -> <<QUOTE, BSL, QUOTE, QUOTE>>
                   [] ch = BSL -> <<QUOTE, BSL, BSL, QUOTE>> [] OTHER -> <<QUOTE, ch, QUOTE>>
RECURSIVE Toks(_, _)
Bracket(ts, yes) == IF yes THEN <<Tk(<<OPEN>>)>> \o ts \o <<Tk(<<CLOSE>>)>> ELSE ts
(* lvl: 0 expr, 1 left of |, 2 seq operand on the left, 3 operand, 4 under a postfix *)
Toks(t, lvl) ==
    CASE t.k = "gchar" -> <<Tk(EscapeTok(t.c))>>
      [] t.k = "gname" -> <<[w |-> t.n, n |-> TRUE]>>
      [] t.k = "gstar" -> Toks(t.p, 4) \o <<Tk(<<STAR>>)>>
      [] t.k = "gplus" -> Toks(t.p, 4) \o <<Tk(<<PLUS>>)>>
      [] t.k = "gseq" -> Bracket(Toks(t.p, 2) \o Toks(t.q, 3), lvl >= 3)
      [] t.k = "gor" -> Bracket(Toks(t.p, 0) \o <<Tk(<<BAR>>)>> \o Toks(t.q, 2), lvl >= 2)
Ws == {<<>>, <<>>, <<>>, <<SPC>>}
WsRare == {<<SPC, SPC>>, <<LF>>, <<TAB, SPC>>, <<CR, LF>>}
RandWs(need) == LET w == IF RandomElement(1..8) = 1 THEN RandomElement(WsRare)
                         ELSE RandomElement({<<>>, <<SPC>>}) IN
                IF need /\ w = <<>> THEN <<SPC>> ELSE w
RECURSIVE JoinToks(_)
JoinToks(ts) == IF ts = <<>> THEN <<>>
                ELSE IF Len(ts) = 1 THEN ts[1].w \o RandWs(FALSE)
                ELSE ts[1].w \o RandWs(ts[1].n /\ ts[2].n) \o JoinToks(Tail(ts))
Def == <<COLON, COLON, EQUALS>>
RuleText(name, t) == name \o RandWs(FALSE) \o Def \o RandWs(FALSE) \o JoinToks(Toks(t, 0))

------------------------------------------------------------------------------
(* Random trees over given names                                            *)
GC(ch) == [k |-> "gchar", c |-> ch]
GN(n) == [k |-> "gname", n |-> n]
Star(t) == [k |-> "gstar", p |-> t]
Plus1(t) == [k |-> "gplus", p |-> t]
GS(t, u) == [k |-> "gseq", p |-> t, q |-> u]
GO(t, u) == [k |-> "gor", p |-> t, q |-> u]
TermChars == {a, b, c, plus, SPC, 48}
OddChars == {LF, CR, TAB, QUOTE, BSL, 40, 41, 42, 124, 58, -100, 0}
RECURSIVE RTree(_, _)
RLeafT(ns) == IF ns # {} /\ RandomElement(1..2) = 1 THEN GN(RandomElement(ns))
              ELSE GC(IF RandomElement(1..6) = 1 THEN RandomElement(OddChars) ELSE RandomElement(TermChars))
RTree(d, ns) ==
    IF d = 0 THEN RLeafT(ns)
    ELSE LET k == RandomElement(1..9) IN
         CASE k <= 3 -> GS(RTree(d - 1, ns), RTree(d - 1, ns))
           [] k \in {4, 5} -> GO(RTree(d - 1, ns), RTree(d - 1, ns))
           [] k = 6 -> Star(RTree(d - 1, ns))
           [] k = 7 -> Plus1(RTree(d - 1, ns))
           [] k >= 8 -> RLeafT(ns)

NamePool == {Code("a"), Code("ab"), Code("A"), Code("a_b"), Code("x1"), Code("_"), Code("9"), Code("expr"), Code("S2"), Code("aa"), Code("int_token"), Code("Z9_z"), Code("S_"), Code("verylongname_of_a_rule_42"), Code("0")}
ImportPool == {PInt, Token(PInt), OneChar, Letter, LA, SAB, Token(Lit(plus)), Keyword(<<a, b>>, RSym(3)), Transform(Digit, 5),
               Fail(MUser(2)), CharExcept(<<a>>), Ret(RSym(4)), Rep("rep", LB), ChMsg(SAB, MUser(3))}
SName == Code("S")

(* definitions: imports, then rules that may use everything before          *)
RECURSIVE RDefs(_, _, _)
RDefs(done, names, n) ==
    IF n = 0 THEN done
    ELSE LET nm == RandomElement(names)
             have == {done[i].name : i \in 1..Len(done)}
             t == RTree(RandomElement({1, 2, 2, 3}), have)
             d == IF RandomElement(1..3) = 1
                  THEN [name |-> nm, kind |-> "import", p |-> RandomElement(ImportPool)]
                  ELSE [name |-> nm, kind |-> "rule", tree |-> t, act |-> RandomElement({0, 0, 1, 2})]
         IN RDefs(Append(done, d), names \ {nm}, n - 1)
Wf(gr, st) == Closed(gr, st, 20) /\ WellFormed(Denote(gr, st))
RECURSIVE RGram(_)
RGram(tries) ==
    LET ds == RDefs(<<>>, NamePool, RandomElement(0..3))
        have == {ds[i].name : i \in 1..Len(ds)}
        st == IF RandomElement(1..2) = 1 THEN SName ELSE RandomElement(NamePool \ have)
        t == RTree(RandomElement({1, 2, 2, 3}), have)
        all == Append(ds, [name |-> st, kind |-> "rule", tree |-> t, act |-> RandomElement({0, 0, 3})])
        cut == TLCEval([defs |-> all, start |-> st])
    IN IF Wf(cut.defs, st) \/ tries = 0 THEN cut ELSE RGram(tries - 1)
RECURSIVE Shuffle(_)
Shuffle(s) == IF Len(s) <= 1 THEN s
              ELSE LET i == RandomElement(1..Len(s)) IN <<s[i]>> \o Shuffle(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
(* events of a grammar                                                      *)
DefEv(d) == IF d.kind = "import" THEN [op |-> "import", name |-> d.name, p |-> d.p]
            ELSE [op |-> "rule", text |-> RuleText(d.name, d.tree), act |-> d.act]
UseEv(w, st) == [op |-> "use", in |-> w, at |-> st]
RandUses(p, n) == [i \in 1..n |-> UseEv(Cut(Mutate(RW(p))), RandStart)]
GCase(gr, n) == LET p == Denote(gr.defs, gr.start)
                    ds == Shuffle(gr.defs) IN
                [kind |-> "ok", start |-> gr.start, ev |-> [i \in 1..Len(ds) |-> DefEv(ds[i])] \o RandUses(p, n)]
RandGrams(n) == TLCEval([i \in 1..n |-> LET gr == TLCEval(RGram(50)) IN TLCEval(GCase(gr, 3))])

------------------------------------------------------------------------------
(* Fixed texts                                                              *)
RuleOf(s) == [op |-> "rule", text |-> s, act |-> 0]
TextCase(k, ts, uses) == [kind |-> k, start |-> SName,
    ev |-> <<[op |-> "import", name |-> Code("a"), p |-> PInt], [op |-> "import", name |-> Code("b"), p |-> LB]>>
           \o [i \in 1..Len(ts) |-> RuleOf(ts[i])] \o uses]
Resolve(s) == LET r == GRule(s) IN <<[name |-> Code("a"), kind |-> "import", p |-> PInt], [name |-> Code("b"), kind |-> "import", p |-> LB],
              [name |-> SName, kind |-> "rule", tree |-> r.v.tree, act |-> 0]>>
Usable(s) == GRule(s).ok /\ GRule(s).v.name = SName /\ Wf(Resolve(s), SName)
TextUses(s) == RandUses(Denote(Resolve(s), SName), 3)
OkText(s) == TextCase("ok", <<s>>, TextUses(s))
BadText(s) == TextCase("badrule", <<s>>, <<>>)

ExprChars == {a, QUOTE, STAR, BAR, OPEN, CLOSE, SPC}
SDef == SName \o Def
ExprWords == {SDef \o w : w \in Words(ExprChars, 4)}
ExprWords5 == {SDef \o w : w \in WordsEq({a, b, STAR, PLUS, BAR, OPEN, CLOSE}, 5)}
GoodWords == {s \in ExprWords : Usable(s)}
GoodWords5 == {s \in ExprWords5 : Usable(s)}
BadWords == {s \in ExprWords : ~GRule(s).ok}
(* every character as a terminal                                            *)
Terminal(ch) == SDef \o <<SPC>> \o <<QUOTE>> \o ch \o <<QUOTE>>
CharTexts == {Terminal(<<ch>>) : ch \in (-128..127) \ {QUOTE, BSL}} \cup {Terminal(BS \o <<ch>>) : ch \in Escapes}
BadTexts == {Code("S ::= "), Code("S :: = 'a'"), Code("S := 'a'"), Code("::= 'a'"), Code("S"), Code(""), Code(" S ::= 'a'"), Code("S ::= 'a' | "), Code("S ::= | 'a'"),
             Code("S ::= ('a'"), Code("S ::= 'a')"), Code("S ::= ()"), Code("S ::= *"), Code("S ::= 'ab'"), Code("S ::= '"), Code("S ::= ''"), Code("S ::= 'a"), Code("S ::= 'a' -"),
             Code("S ::= 'a' || 'b'"), Code("S-2 ::= 'a'"), Code("S ::= 'a';"), Code("S ::= 'a' ::= 'b'"), Code("S ::= a | (b | )"), Code("S S ::= 'a'"),
             SDef \o <<QUOTE, BSL, QUOTE>>, SDef \o <<QUOTE, BSL, 120, QUOTE>>, SDef \o <<QUOTE, BSL, 48, QUOTE>>, SDef \o <<QUOTE, BSL, BSL, BSL, QUOTE>>, SDef \o <<QUOTE, QUOTE, QUOTE>>,
             SDef \o <<11, QUOTE, a, QUOTE>>}
NamedTexts == {Code("S::=a"), Code("S   ::=   a   "), Code("S::='x'a"), Code("S::=a'x'b"), Code("S::=(a)"), Code("S::=((a))"), Code("S::=a|b"), Code("S::=a b"), Code("S::=a b|b a"),
               Code("S::=(a|b)(a|b)"), Code("S::=(a|b)+ 'c'"), Code("S::=a ('+' a)*"), Code("S::=a*b*"), Code("S::=(a b)*"), Code("S::=a+"), Code("S::='a' 'b' 'c' 'd'"), Code("S::='a'|'b'|'c'|'d'"),
               Code("S::='a'('b'('c''d'))"), Code("S::='a'|('b'|('c'|'d'))"), Code("S::='a'+ 'b'*"), Code("S::=('a''b')+"), Code("S::='a''b'|'a''c'"), Code("S::='a'*'a'"), Code("S::=a+ '-' a+"),
               SDef \o <<LF, TAB, CR, LF, 97, LF>>}
(* many alternatives, many elements, deep brackets                          *)
TermTok(ch) == <<QUOTE, ch, QUOTE>>
LongOr(n) == SDef \o FlattenSeq([i \in 1..n |-> TermTok(96 + i) \o (IF i = n THEN <<>> ELSE IF i % 3 = 0 THEN <<SPC, BAR, SPC>> ELSE <<BAR>>)])
LongSeq(n) == SDef \o FlattenSeq([i \in 1..n |-> TermTok(96 + i) \o (IF i % 4 = 0 THEN <<LF>> ELSE IF i % 5 = 0 THEN <<STAR>> ELSE <<>>)])
LongMix(n) == SDef \o FlattenSeq([i \in 1..n |-> TermTok(96 + i) \o TermTok(97 + (i % 3)) \o (IF i % 2 = 0 THEN <<PLUS>> ELSE <<>>) \o (IF i = n THEN <<>> ELSE <<BAR>>)])
DeepB(n) == SDef \o FlattenSeq([i \in 1..n |-> <<OPEN>> \o TermTok(96 + i)]) \o FlattenSeq([i \in 1..n |-> IF i % 3 = 1 THEN <<CLOSE, STAR>> ELSE IF i % 3 = 2 THEN <<CLOSE, PLUS>> ELSE <<CLOSE, SPC>>])
LongTexts == UNION {{LongOr(n), LongSeq(n), LongMix(n), DeepB(n)} : n \in 2..Sz(9, 20)}
(* symbols                                                                  *)
UndefCases == {[kind |-> "baduse", start |-> SName, ev |-> <<RuleOf(Code("S ::= a")), UseEv(<<a>>, StartPos)>>],
               [kind |-> "baduse", start |-> SName, ev |-> <<RuleOf(Code("A ::= 'a'")), UseEv(<<a>>, StartPos)>>],
               [kind |-> "baduse", start |-> SName, ev |-> <<RuleOf(Code("S ::= 'b' | aa")), RuleOf(Code("a ::= 'a'")), UseEv(<<b>>, StartPos)>>],
               [kind |-> "baduse", start |-> SName, ev |-> <<[op |-> "import", name |-> Code("s"), p |-> LA], RuleOf(Code("SS ::= s")), UseEv(<<b>>, StartPos)>>]}
UnusedCases == {[kind |-> "ok", start |-> SName, ev |-> <<RuleOf(Code("A ::= nowhere")), RuleOf(Code("S ::= 'a'")), UseEv(<<a>>, StartPos), UseEv(<<b>>, StartPos)>>],
                [kind |-> "ok", start |-> SName, ev |-> <<[op |-> "import", name |-> SName, p |-> PInt], UseEv(<<48, 49>>, StartPos), UseEv(<<b>>, <<4, 5, 13>>)>>],
                [kind |-> "ok", start |-> Code("9"), ev |-> <<[op |-> "import", name |-> Code("9"), p |-> LA], RuleOf(Code("S ::= 'b'")), UseEv(<<a>>, StartPos), UseEv(<<b>>, StartPos)>>]}
(* long chains of rules                                                     *)
ChainName(i) == <<114, 48 + (i \div 10), 48 + (i % 10)>>
Chain(n) == [kind |-> "ok", start |-> ChainName(1), ev |->
    [i \in 1..n |-> [op |-> "rule", act |-> i, text |-> ChainName(i) \o <<SPC>> \o Def \o <<SPC>> \o
        (IF i = n THEN <<QUOTE, a, QUOTE>> ELSE ChainName(i + 1) \o <<SPC, QUOTE, 97 + i, QUOTE>>)]]
    \o <<UseEv([i \in 1..n |-> IF i = 1 THEN a ELSE 97 + n - i + 1], StartPos), UseEv(<<a>>, StartPos), UseEv(<<b>>, StartPos)>>]

Cases ==
    SetToSeq({OkText(s) : s \in NamedTexts})
    \o SetToSeq({OkText(s) : s \in Pick(Sz(60, 2000), GoodWords)})
    \o SetToSeq({OkText(s) : s \in Pick(Sz(60, 600), GoodWords5)})
    \o SetToSeq({OkText(s) : s \in Pick(Sz(60, 300), CharTexts)})
    \o SetToSeq({OkText(s) : s \in {Terminal(<<ch>>) : ch \in {-128, -1, 0, 34, 63, 127}} \cup {Terminal(BS \o <<ch>>) : ch \in Escapes}})
    \o SetToSeq({BadText(s) : s \in Pick(Sz(20, 300), BadWords) \cup BadTexts})
    \o SetToSeq({OkText(s) : s \in LongTexts})
    \o SetToSeq(UndefCases) \o SetToSeq(UnusedCases)
    \o [i \in 1..Sz(10, 20) |-> Chain(i)]
    \o RandGrams(Sz(150, 1500))

(* The reader undoes the printer                                            *)
RoundTrip(n) == \A i \in 1..n :
    LET t == TLCEval(RTree(3, NamePool))
        s == TLCEval(RuleText(SName, t))
        r == GRule(s)
    IN r.ok /\ r.v.name = SName /\ r.v.tree = t
ASSUME RoundTrip(Sz(300, 3000))
ASSUME \A s \in BadTexts : ~GRule(s).ok
ASSUME \A s \in NamedTexts : Usable(s)
ASSUME ndJsonSerialize(IOEnv.VP_OUT, TLCEval(Cases))
GInit == Open(<<>>, StartPos) /\ g = <<>> /\ built = "open"
GNext == UNCHANGED <<svars, gvars>>
=============================================================================
