------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The embedded grammar language (grammar<>::import<..>::rule<..>).        *)
(*                                                                         *)
(*   rule ::= name '::=' expr            expr ::= seq ('|' seq)*           *)
(*   seq  ::= rep+                       rep  ::= prim ('*' | '+')*        *)
(*   prim ::= name | character | '(' expr ')'                              *)
(*                                                                         *)
(* Every token swallows the whitespace after it.  A rule text is parsed    *)
(* into a tree; the tree denotes a parser of Metaparse.tla; names denote   *)
(* the parser of the rule or import of that name, wherever in the grammar  *)
(* it is defined, transformed by the rule's action.  Recursion is not      *)
(* supported by the library.                                               *)
(***************************************************************************)
EXTENDS Session

QUOTE == 39  BSL == 92  OPEN == 40  CLOSE == 41  STAR == 42  PLUS == 43  BAR == 124
COLON == 58  EQUALS == 61  UNDER == 95

NameChar(ch) == IsLetter(ch) \/ IsDigit(ch) \/ ch = UNDER

RECURSIVE SkipWs(_), NameLen(_)
SkipWs(s) == IF s # <<>> /\ IsSpace(s[1]) THEN SkipWs(Tail(s)) ELSE s
NameLen(s) == IF s # <<>> /\ NameChar(s[1]) THEN 1 + NameLen(Tail(s)) ELSE 0
From(s, n) == SubSeq(s, n, Len(s))
IsAt(s, n, ch) == Len(s) >= n /\ s[n] = ch

Good(v, s) == [ok |-> TRUE, v |-> v, rem |-> s]
Bad == [ok |-> FALSE]

Escapes == {110, 114, 116, BSL, QUOTE}
Unescape(ch) == CASE ch = 110 -> LF [] ch = 114 -> CR [] ch = 116 -> TAB [] OTHER -> ch

GName(s) == LET n == NameLen(s) IN
            IF n = 0 THEN Bad ELSE Good(SubSeq(s, 1, n), SkipWs(From(s, n + 1)))
(* A character between quotes                                               *)
GChar(s) == IF ~IsAt(s, 1, QUOTE) \/ Len(s) < 3 THEN Bad
            ELSE IF s[2] = BSL /\ s[3] \in Escapes
                 THEN IF IsAt(s, 4, QUOTE) THEN Good(Unescape(s[3]), SkipWs(From(s, 5))) ELSE Bad
            ELSE IF s[2] # QUOTE /\ s[3] = QUOTE THEN Good(s[2], SkipWs(From(s, 4)))
            ELSE Bad

RECURSIVE GExpr(_), GSeq(_), GRep(_), GMoreReps(_), GMoreSeqs(_), GPostfix(_)
GPrim(s) == IF IsAt(s, 1, QUOTE)
            THEN LET r == GChar(s) IN IF r.ok THEN Good([k |-> "gchar", c |-> r.v], r.rem) ELSE Bad
            ELSE IF IsAt(s, 1, OPEN)
            THEN LET r == GExpr(SkipWs(Tail(s))) IN
                 IF r.ok /\ IsAt(r.rem, 1, CLOSE) THEN Good(r.v, SkipWs(Tail(r.rem))) ELSE Bad
            ELSE LET r == GName(s) IN
                 IF r.ok THEN Good([k |-> "gname", n |-> r.v], r.rem) ELSE Bad
GPostfix(r) == IF IsAt(r.rem, 1, STAR)
               THEN GPostfix(Good([k |-> "gstar", p |-> r.v], SkipWs(Tail(r.rem))))
               ELSE IF IsAt(r.rem, 1, PLUS)
               THEN GPostfix(Good([k |-> "gplus", p |-> r.v], SkipWs(Tail(r.rem))))
               ELSE r
GRep(s) == LET r == GPrim(s) IN IF r.ok THEN GPostfix(r) ELSE Bad
GMoreReps(r) == LET q == GRep(r.rem) IN
                IF q.ok THEN GMoreReps(Good([k |-> "gseq", p |-> r.v, q |-> q.v], q.rem)) ELSE r
GSeq(s) == LET r == GRep(s) IN IF r.ok THEN GMoreReps(r) ELSE Bad
GMoreSeqs(r) == IF ~IsAt(r.rem, 1, BAR) THEN r
                ELSE LET q == GSeq(SkipWs(Tail(r.rem))) IN
                     IF q.ok THEN GMoreSeqs(Good([k |-> "gor", p |-> r.v, q |-> q.v], q.rem)) ELSE r
GExpr(s) == LET r == GSeq(s) IN IF r.ok THEN GMoreSeqs(r) ELSE Bad
(* The whole text is one rule                                               *)
GRule(s) == LET n == GName(s) IN
            IF ~n.ok \/ ~IsAt(n.rem, 1, COLON) \/ ~IsAt(n.rem, 2, COLON) \/ ~IsAt(n.rem, 3, EQUALS)
            THEN Bad
            ELSE LET e == GExpr(SkipWs(From(n.rem, 4))) IN
                 IF e.ok /\ e.rem = <<>> THEN Good([name |-> n.v, tree |-> e.v], <<>>) ELSE Bad

------------------------------------------------------------------------------
(* Grammars: sequences of definitions                                       *)
(*   [name, kind |-> "import", p]  or  [name, kind |-> "rule", tree, act]   *)
DefIndexes(g, name) == {i \in 1..Len(g) : g[i].name = name}
Defined(g, name) == DefIndexes(g, name) # {}
DefOf(g, name) == g[CHOOSE i \in DefIndexes(g, name) : TRUE]

RECURSIVE NamesOf(_)
NamesOf(t) == CASE t.k = "gchar" -> {}
                [] t.k = "gname" -> {t.n}
                [] t.k \in {"gstar", "gplus"} -> NamesOf(t.p)
                [] t.k \in {"gseq", "gor"} -> NamesOf(t.p) \cup NamesOf(t.q)
(* Every symbol reachable from name is defined (fuel: grammars that reach   *)
(* themselves are outside the library's contract)                           *)
RECURSIVE Closed(_, _, _)
Closed(g, name, fuel) ==
    /\ fuel > 0 /\ Defined(g, name)
    /\ LET d == DefOf(g, name) IN
       d.kind = "rule" => \A n \in NamesOf(d.tree) : Closed(g, n, fuel - 1)

RECURSIVE Denote(_, _), DenoteTree(_, _)
Denote(g, name) == LET d == DefOf(g, name) IN
    IF d.kind = "import" THEN d.p
    ELSE IF d.act = 0 THEN DenoteTree(g, d.tree)
    ELSE Transform(DenoteTree(g, d.tree), d.act)
DenoteTree(g, t) ==
    CASE t.k = "gchar" -> Lit(t.c)
      [] t.k = "gname" -> Denote(g, t.n)
      [] t.k = "gstar" -> Rep("rep", DenoteTree(g, t.p))
      [] t.k = "gplus" -> Rep("rep1", DenoteTree(g, t.p))
      [] t.k = "gseq" -> Sq(<<DenoteTree(g, t.p), DenoteTree(g, t.q)>>)
      [] t.k = "gor" -> OneOf(<<DenoteTree(g, t.p), DenoteTree(g, t.q)>>)

------------------------------------------------------------------------------
(* Building and using a grammar                                             *)
VARIABLES g,        \* the definitions so far
          built     \* "open" | "used" | "broken"

gvars == <<g, built>>

Import(name, p) ==
    /\ built = "open" /\ ~Defined(g, name)
    /\ g' = Append(g, [name |-> name, kind |-> "import", p |-> p])
    /\ UNCHANGED built
AddRule(text, act) ==
    /\ built = "open" /\ GRule(text).ok
    /\ LET r == GRule(text).v IN
       /\ ~Defined(g, r.name)
       /\ g' = Append(g, [name |-> r.name, kind |-> "rule", tree |-> r.tree, act |-> act])
    /\ UNCHANGED built
(* The text is not a rule: the grammar cannot be instantiated.              *)
RefuseRule(text) == /\ built = "open" /\ ~GRule(text).ok /\ built' = "broken" /\ UNCHANGED g
(* Applying the grammar needs every symbol it reaches.                      *)
RefuseUse(name) == /\ built = "open" /\ ~Closed(g, name, 20) /\ built' = "broken" /\ UNCHANGED g
Use(name) == /\ built \in {"open", "used"} /\ Closed(g, name, 20) /\ built' = "used" /\ UNCHANGED g

(* Names stay unique, so what a symbol means never depends on order.        *)
UniqueNames == \A i, j \in 1..Len(g) : g[i].name = g[j].name => i = j
=============================================================================
