----------------------------- MODULE Metaparse -----------------------------
(***************************************************************************)
(* Denotational specification of the parsers and parser combinators of     *)
(* Boost.Metaparse.                                                        *)
(*                                                                         *)
(* An input is a sequence of characters; a character is its (signed char)  *)
(* code, -128..127.  A source position is <<line, column, previous char>>. *)
(* A parser is a term of the abstract syntax below; Parse(p, s, pos) is    *)
(* the outcome of applying p to the input s at position pos:               *)
(*                                                                         *)
(*   [ok |-> TRUE,  res, rem, pos]    the parser accepts                   *)
(*   [ok |-> FALSE, msgs, pos]        the parser rejects                   *)
(*                                                                         *)
(* msgs is the set of error messages the library may report: a singleton   *)
(* except where the documentation leaves the choice open (ordered choice   *)
(* with several alternatives failing equally far).  Messages never         *)
(* influence control flow, positions do.                                   *)
(*                                                                         *)
(* Results are flat sequences of integers (a prefix code), so that values  *)
(* of different shapes are comparable and the JSON of the harness can be   *)
(* compared with them directly.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

------------------------------------------------------------------------------
(* Characters                                                               *)
TAB == 9
LF == 10
CR == 13
SPC == 32

IsDigit(c) == c >= 48 /\ c <= 57
IsLower(c) == c >= 97 /\ c <= 122
IsUpper(c) == c >= 65 /\ c <= 90
IsLetter(c) == IsLower(c) \/ IsUpper(c)
IsSpace(c) == c \in {SPC, CR, LF, TAB}
Pred(name, c) == CASE name = "digit" -> IsDigit(c)
                   [] name = "letter" -> IsLetter(c)
                   [] name = "lcase" -> IsLower(c)
                   [] name = "ucase" -> IsUpper(c)
                   [] name = "ws" -> IsSpace(c)
(* ... and on results: every one, none, those that are characters of a class *)
PredR(name, r) == CASE name \in {"any", "bomb"} -> TRUE [] name = "none" -> FALSE [] OTHER -> r[1] = 1 /\ Pred(name, r[2])

------------------------------------------------------------------------------
(* Source positions                                                         *)
StartPos == <<1, 1, 0>>
(* Error transformations numbered from 50 on also move the error            *)
TErrPos(f, ps) == IF f < 50 THEN ps ELSE <<10000 + f, f, 7>>
Moved(ps) == ps[1] > 10000 /\ ps[3] = 7

(* A line ends at CR, or at an LF that does not complete a CR LF pair.      *)
(* (The LF of a CR LF pair occupies column 1 of the new line: the named     *)
(* deviation CrLfColumn in Session.tla.)                                    *)
NextPos(pos, c) ==
    IF c = CR \/ (c = LF /\ pos[3] # CR)
    THEN <<pos[1] + 1, 1, c>>
    ELSE <<pos[1], pos[2] + 1, c>>

RECURSIVE Advance(_, _)
Advance(pos, cs) ==
    IF cs = <<>> THEN pos ELSE Advance(NextPos(pos, cs[1]), Tail(cs))

(* The order of source positions: lexicographic.                            *)
PosLess(a, b) == \/ a[1] < b[1]
                 \/ a[1] = b[1] /\ a[2] < b[2]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]

------------------------------------------------------------------------------
(* Result values                                                            *)
RChar(c) == <<1, c>>
RInt(n) == <<2, n>>
RList(items) == <<4, Len(items)>> \o FlattenSeq(items)
RSym(n) == <<5, n>>
ROdd(n) == <<9, n>>                      \* a parser, an error, ... as result
(* free binary operation of the folds (but error values swallow the state)   *)
RNode(a, b) == IF b = ROdd(2) THEN b ELSE <<6>> \o a \o b
(* free unary functions of transform, and constant ones                      *)
RApp(f, a) == IF f \in 61..70 THEN ROdd(f - 60) ELSE <<7, f>> \o a
RVoid == <<8>>                          \* default of optional
RInst(items) == <<10, Len(items)>> \o FlattenSeq(items)  \* sequence_apply

(* Error messages                                                           *)
MDigit == <<1>>
MEnd == <<2>>
MToFail == <<3>>
MIndex(f, t, n) == <<4, f, t, n>>
MLetter == <<5>>
MLit(c) == <<6, c>>
MNone == <<7>>
MChar == <<8>>
MEof == <<9>>
MUnpaired(l, c, m) == <<10, l, c>> \o m
MSpace == <<11>>
MUser(n) == <<100, n>>
MWrap(f, m) == <<101, f>> \o m          \* free unary function on messages

------------------------------------------------------------------------------
(* Outcomes                                                                 *)
Acc(r, s, pos) == [ok |-> TRUE, res |-> r, rem |-> s, pos |-> pos]
RejS(M, pos) == [ok |-> FALSE, msgs |-> M, pos |-> pos]
Rej(m, pos) == RejS({m}, pos)

------------------------------------------------------------------------------
(* Abstract syntax: constructors                                            *)
OneChar == [k |-> "one_char"]
Lit(c) == [k |-> "lit", c |-> c]
Digit == [k |-> "digit"]
DigitVal == [k |-> "digit_val"]
Letter == [k |-> "letter"]
Space == [k |-> "space"]
Alphanum == [k |-> "alphanum"]
PInt == [k |-> "int"]
Spaces == [k |-> "spaces"]
PRange(a, b) == [k |-> "range", a |-> a, b |-> b]
CharExcept(cs) == [k |-> "ocx", cs |-> cs]
OneOfC(cs) == [k |-> "oneofc", cs |-> cs]
Ret(r) == [k |-> "ret", r |-> r]
Empty(r) == [k |-> "empty", r |-> r]
Fail(m) == [k |-> "fail", m |-> m]
Keyword(s, r) == [k |-> "keyword", s |-> s, r |-> r]
Always(p, r) == [k |-> "always", p |-> p, r |-> r]
AlwaysC(c, r) == [k |-> "always_c", c |-> c, r |-> r]
ChMsg(p, m) == [k |-> "chmsg", p |-> p, m |-> m]
AcceptWhen(p, pr, m) == [k |-> "accept_when", p |-> p, pred |-> pr, m |-> m]
Transform(p, f) == [k |-> "transform", p |-> p, f |-> f]
TErr(p, f) == [k |-> "terr", p |-> p, f |-> f]
TErrMsg(p, f) == [k |-> "terrmsg", p |-> p, f |-> f]
Sq(ps) == [k |-> "seq", ps |-> ps]
Nth(n, ps) == [k |-> "nth", n |-> n, ps |-> ps]
PFirst(ps) == [k |-> "first", ps |-> ps]
PLast(ps) == [k |-> "last", ps |-> ps]
Middle(p, q, z) == [k |-> "middle", p |-> p, q |-> q, z |-> z]
SeqApply(ps) == [k |-> "seqapply", ps |-> ps]
Iterate(p, n) == [k |-> "iterate", p |-> p, n |-> n]
OneOf(ps) == [k |-> "oneof", ps |-> ps]
RepOneOf(ps) == [k |-> "rep1of", ps |-> ps]
RepOneOf1(ps) == [k |-> "rep1of1", ps |-> ps]
Optional(p, r) == [k |-> "optional", p |-> p, r |-> r]
IfP(p, t, e) == [k |-> "if", p |-> p, t |-> t, e |-> e]
Except(p, r, m) == [k |-> "except", p |-> p, r |-> r, m |-> m]
Look(p) == [k |-> "look", p |-> p]
Fafce(p) == [k |-> "fafce", p |-> p]
Entire(p, m) == [k |-> "entire", p |-> p, m |-> m]
Token(p) == [k |-> "token", p |-> p]
Fold(kind, p, r) == [k |-> kind, p |-> p, r |-> r]
     \* kind: foldl foldl1 foldlri foldlri1 foldr foldr1 foldrri foldrri1
FoldSP(kind, p, q) == [k |-> kind, p |-> p, q |-> q]
     \* kind: foldlsp foldlrisp foldrsp
Rep(kind, p) == [k |-> kind, p |-> p]
     \* kind: rep rep1 repri repri1
(* A parser that must not be applied (and functions, numbered 99, that must  *)
(* not be called): stand-ins for what a run has no use for                   *)
Bomb == [k |-> "bomb"]
(* p, to be applied to texts of the given lengths only                      *)
OnlyAt(p, at) == [k |-> "only", p |-> p, at |-> at]
BombF == 99
Nt(n) == [k |-> "nt", n |-> n]          \* a parser defined by recursion

FoldKinds == {"foldl", "foldl1", "foldlri", "foldlri1",
              "foldr", "foldr1", "foldrri", "foldrri1"}
FoldSPKinds == {"foldlsp", "foldlrisp", "foldrsp"}
RepKinds == {"rep", "rep1", "repri", "repri1"}

(* Result used for the parsers whose result the documentation leaves open.  *)
Unspec == RSym(77)

------------------------------------------------------------------------------
(* Parsers defined by recursion (a parser class naming itself).             *)
(*   1  nested:  '(' nested ')' | 'x'                                        *)
(*   2  sum:     term ('+' term)*        3  term: prim ('*' prim)*           *)
(*   4  prim:    int | '(' sum ')'                                           *)
(*   5  list:    'a' list | return                                           *)
(*   6  pal:     'a' pal 'a' | 'b' pal 'b' | 'c'                             *)
(*   7  sexpr:   int | '(' sexpr* ')' with white space                       *)
(*   8  array:   digit | '[' array (',' array)* ']', no half-written element *)
(*   9  power:   (base '^')* base        10  base: digit | '(' power ')'     *)
(*  11  block:   ('a' ['{' block '}'])*, no half-written statement           *)
(*  12  abc:     a^n b^n c^n by looking ahead; 13: a^n b^n, 14: b^n c^n      *)
(*  15  even, 16  odd number of a                                            *)
(*  17  comment: '(' (comment | not a parenthesis)* ')'                      *)
(*  18  until x: anything but x, repeatedly                                  *)
(*  19  tagged:  '<' letter '>' tagged* '<' '/' letter '>' | letter          *)
(*  20  lambda:  letter lambda | '.' lambda, results transformed on the way  *)
(*  21  sized:   three numbers, or a bracketed pair of such                  *)
NTDef(n) ==
    CASE n = 1 -> OneOf(<<Middle(Lit(40), Nt(1), Lit(41)), Lit(120)>>)
      [] n = 2 -> FoldSP("foldlsp", PLast(<<Lit(43), Nt(3)>>), Nt(3))
      [] n = 3 -> FoldSP("foldlsp", PLast(<<Lit(42), Nt(4)>>), Nt(4))
      [] n = 4 -> OneOf(<<PInt, Middle(Lit(40), Nt(2), Lit(41))>>)
      [] n = 5 -> OneOf(<<Sq(<<Lit(97), Nt(5)>>), Ret(RSym(0))>>)
      [] n = 6 -> OneOf(<<Sq(<<Lit(97), Nt(6), Lit(97)>>),
                          Sq(<<Lit(98), Nt(6), Lit(98)>>), Lit(99)>>)
      [] n = 7 -> Token(OneOf(<<PInt, Middle(Token(Lit(40)), Rep("rep", Nt(7)), Lit(41))>>))
      [] n = 8 -> OneOf(<<Digit, Middle(Lit(91), FoldSP("foldlrisp", PLast(<<Lit(44), Nt(8)>>), Nt(8)), Lit(93))>>)
      [] n = 9 -> FoldSP("foldrsp", PFirst(<<Nt(10), Lit(94)>>), Nt(10))
      [] n = 10 -> OneOf(<<DigitVal, Middle(Lit(40), Nt(9), Lit(41))>>)
      [] n = 11 -> Rep("repri", PLast(<<Lit(97), Optional(Middle(Lit(123), Nt(11), Lit(125)), RSym(1))>>))
      [] n = 12 -> PLast(<<Look(Sq(<<Nt(13), Lit(99)>>)), Rep("rep1", Lit(97)), Nt(14)>>)
      [] n = 13 -> Sq(<<Lit(97), Optional(Nt(13), RSym(2)), Lit(98)>>)
      [] n = 14 -> Sq(<<Lit(98), Optional(Nt(14), RSym(3)), Lit(99)>>)
      [] n = 15 -> OneOf(<<SeqApply(<<Lit(97), Nt(16)>>), Ret(RSym(4))>>)
      [] n = 16 -> SeqApply(<<Lit(97), Nt(15)>>)
      [] n = 17 -> Sq(<<Lit(40), RepOneOf(<<Nt(17), CharExcept(<<40, 41>>)>>), Lit(41)>>)
      [] n = 18 -> PLast(<<Except(Lit(120), RSym(5), MUser(6)), Sq(<<OneChar, Optional(Nt(18), RSym(7))>>)>>)
      [] n = 19 -> OneOf(<<Sq(<<Middle(Lit(60), Letter, Lit(62)), Fold("foldr", Nt(19), RSym(8)), Middle(Keyword(<<60, 47>>, RSym(9)), Letter, Lit(62))>>), Letter>>)
      [] n = 20 -> OneOf(<<Transform(Sq(<<Letter, Nt(20)>>), 1), TErrMsg(Transform(PLast(<<Lit(46), Nt(20)>>), 2), 3), Empty(RSym(10))>>)
      [] n = 21 -> OneOf(<<Iterate(Digit, 3), Middle(Lit(40), Iterate(Nt(21), 2), Lit(41))>>)
NtCount == 21

------------------------------------------------------------------------------
(* Semantics                                                                *)
RECURSIVE Parse(_, _, _), ParseSeq(_, _, _, _, _), LoopL(_, _, _, _),
          Choice(_, _, _, _, _), Loop(_, _, _, _), FoldBack(_, _, _),
          LoopInt(_, _, _), Kw(_, _, _, _)

(* One character satisfying a test; eofmsg at the end of the input          *)
CharWhen(test, eofmsg, msg, s, pos) ==
    IF s = <<>> THEN Rej(eofmsg, pos)
    ELSE IF test THEN Acc(RChar(s[1]), Tail(s), NextPos(pos, s[1]))
    ELSE Rej(msg, pos)

(* ps[i..] one after the other; acc: results so far.  An accepting outcome  *)
(* carries the sequence of results in field items.                          *)
ParseSeq(ps, i, acc, s, pos) ==
    IF i > Len(ps)
    THEN [ok |-> TRUE, items |-> acc, rem |-> s, pos |-> pos]
    ELSE LET o == Parse(ps[i], s, pos) IN
         IF o.ok THEN ParseSeq(ps, i + 1, Append(acc, o.res), o.rem, o.pos)
                 ELSE o

(* Repeated application of p; stops at the first rejection, which is kept.  *)
Loop(p, acc, s, pos) ==
    LET o == Parse(p, s, pos) IN
    IF o.ok THEN Loop(p, Append(acc, o.res), o.rem, o.pos)
            ELSE [items |-> acc, rem |-> s, pos |-> pos, err |-> o]

LoopL(items, i, st, dummy) ==
    IF i > Len(items) THEN st ELSE LoopL(items, i + 1, RNode(st, items[i]), dummy)

FoldBack(items, i, st) ==
    IF i = 0 THEN st ELSE FoldBack(items, i - 1, RNode(st, items[i]))

FoldLeft2(items, st) == LoopL(items, 1, st, 0)
FoldRight2(items, st) == FoldBack(items, Len(items), st)

(* Numbers up to 2147483646; longer ones are outside the model (the          *)
(* generator does not produce them).                                        *)
Times10(n, d) == IF n > 214748364 \/ (n = 214748364 /\ d > 6) THEN n ELSE n * 10 + d
LoopInt(s, pos, n) ==
    IF s = <<>> \/ ~IsDigit(s[1]) THEN Acc(RInt(n), s, pos)
    ELSE LoopInt(Tail(s), NextPos(pos, s[1]), Times10(n, s[1] - 48))

(* The furthest of two rejections; equally far: either message.             *)
Furthest(e1, e2) ==
    IF PosLess(e2.pos, e1.pos) THEN e1
    ELSE IF PosLess(e1.pos, e2.pos) THEN e2
    ELSE RejS(e1.msgs \cup e2.msgs, e1.pos)

Choice(ps, i, best, s, pos) ==
    IF i > Len(ps) THEN best
    ELSE LET o == Parse(ps[i], s, pos) IN
         IF o.ok THEN o ELSE Choice(ps, i + 1, Furthest(best, o), s, pos)

Kw(w, r, s, pos) ==
    IF w = <<>> THEN Acc(r, s, pos)
    ELSE IF s = <<>> \/ s[1] # w[1] THEN Rej(MLit(w[1]), pos)
    ELSE Kw(Tail(w), r, Tail(s), NextPos(pos, s[1]))

Incomplete(l) == l.err.pos # l.pos

NthOut(n, ps, s, pos) ==
    IF ps = <<>> THEN RejS({MIndex(0, -1, 0), MIndex(0, -1, n)}, pos)
    ELSE IF n < 0 \/ n >= Len(ps)
    THEN Rej(MIndex(0, Len(ps) - 1, n), pos)
    ELSE LET o == ParseSeq(ps, 1, <<>>, s, pos) IN
         IF o.ok THEN Acc(o.items[n + 1], o.rem, o.pos) ELSE o

(* Renders the outcome of a loop: kind decides direction and strictness     *)
LoopOut(l, first1, ri, value) ==
    IF first1 /\ l.items = <<>> THEN l.err
    ELSE IF ri /\ Incomplete(l) THEN l.err
    ELSE Acc(value, l.rem, l.pos)

Parse(p, s, pos) ==
  CASE p.k = "one_char" ->
         IF s = <<>> THEN Rej(MEof, pos)
         ELSE Acc(RChar(s[1]), Tail(s), NextPos(pos, s[1]))
    [] p.k = "lit" -> CharWhen(s # <<>> /\ s[1] = p.c, MLit(p.c), MLit(p.c), s, pos)
    [] p.k = "digit" -> CharWhen(s # <<>> /\ IsDigit(s[1]), MDigit, MDigit, s, pos)
    [] p.k = "digit_val" ->
         IF s # <<>> /\ IsDigit(s[1])
         THEN Acc(RInt(s[1] - 48), Tail(s), NextPos(pos, s[1]))
         ELSE Rej(MDigit, pos)
    [] p.k = "letter" -> CharWhen(s # <<>> /\ IsLetter(s[1]), MEof, MLetter, s, pos)
    [] p.k = "space" -> CharWhen(s # <<>> /\ IsSpace(s[1]), MEof, MSpace, s, pos)
    [] p.k = "alphanum" -> Parse(OneOf(<<Letter, Digit>>), s, pos)
    [] p.k = "int" ->
         IF s # <<>> /\ IsDigit(s[1]) THEN LoopInt(s, pos, 0)
         ELSE Rej(MDigit, pos)
    [] p.k = "spaces" -> Parse(Rep("rep1", Space), s, pos)
    [] p.k = "range" ->
         CharWhen(s # <<>> /\ p.a <= s[1] /\ s[1] <= p.b, MEof, MChar, s, pos)
    [] p.k = "ocx" ->
         CharWhen(s # <<>> /\ \A i \in 1..Len(p.cs) : p.cs[i] # s[1],
                  MEof, MChar, s, pos)
    [] p.k = "oneofc" ->
         IF s # <<>> /\ \E i \in 1..Len(p.cs) : p.cs[i] = s[1]
         THEN Acc(RChar(s[1]), Tail(s), NextPos(pos, s[1]))
         ELSE RejS({MNone, MEof} \cup {MLit(p.cs[i]) : i \in 1..Len(p.cs)}, pos)
    [] p.k = "ret" -> Acc(p.r, s, pos)
    [] p.k = "empty" -> IF s = <<>> THEN Acc(p.r, s, pos) ELSE Rej(MEnd, pos)
    [] p.k = "fail" -> Rej(p.m, pos)
    [] p.k = "bomb" -> Rej(MUser(BombF), pos)
    [] p.k = "only" -> IF \E i \in 1..Len(p.at) : p.at[i] = Len(s) THEN Parse(p.p, s, pos) ELSE Rej(MUser(BombF), pos)
    [] p.k = "keyword" -> Kw(p.s, p.r, s, pos)
    [] p.k = "always" ->
         LET o == Parse(p.p, s, pos) IN
         IF o.ok THEN Acc(p.r, o.rem, o.pos) ELSE o
    [] p.k = "always_c" -> Parse(Always(Lit(p.c), p.r), s, pos)
    [] p.k = "chmsg" ->
         LET o == Parse(p.p, s, pos) IN IF o.ok THEN o ELSE Rej(p.m, pos)
    [] p.k = "accept_when" ->
         LET o == Parse(p.p, s, pos) IN
         IF ~o.ok THEN o
         ELSE IF PredR(p.pred, o.res) THEN o
         ELSE Rej(p.m, pos)
    [] p.k = "transform" ->
         LET o == Parse(p.p, s, pos) IN
         IF o.ok THEN Acc(RApp(p.f, o.res), o.rem, o.pos) ELSE o
    [] p.k \in {"terr", "terrmsg"} ->
         LET o == Parse(p.p, s, pos) IN
         IF o.ok THEN o ELSE RejS({MWrap(p.f, m) : m \in o.msgs}, IF p.k = "terr" THEN TErrPos(p.f, o.pos) ELSE o.pos)
    [] p.k = "seq" ->
         LET o == ParseSeq(p.ps, 1, <<>>, s, pos) IN
         IF o.ok THEN Acc(RList(o.items), o.rem, o.pos) ELSE o
    [] p.k = "seqapply" ->
         LET o == ParseSeq(p.ps, 1, <<>>, s, pos) IN
         IF o.ok THEN Acc(RInst(o.items), o.rem, o.pos) ELSE o
    [] p.k = "iterate" ->
         LET o == ParseSeq([i \in 1..p.n |-> p.p], 1, <<>>, s, pos) IN
         IF o.ok THEN Acc(RList(o.items), o.rem, o.pos) ELSE o
    [] p.k = "nth" -> NthOut(p.n, p.ps, s, pos)
    [] p.k = "first" -> NthOut(0, p.ps, s, pos)
    [] p.k = "last" -> NthOut(Len(p.ps) - 1, p.ps, s, pos)
    [] p.k = "middle" ->
         LET o1 == Parse(p.p, s, pos) IN
         IF ~o1.ok THEN o1 ELSE
         LET o2 == Parse(p.q, o1.rem, o1.pos) IN
         IF ~o2.ok THEN o2 ELSE
         LET o3 == Parse(p.z, o2.rem, o2.pos) IN
         IF o3.ok THEN Acc(o2.res, o3.rem, o3.pos)
         ELSE RejS({MUnpaired(pos[1], pos[2], m) : m \in o3.msgs}, o3.pos)
    [] p.k = "oneof" -> Choice(p.ps, 1, Rej(MNone, pos), s, pos)
    [] p.k = "rep1of" -> Parse(Rep("rep", OneOf(p.ps)), s, pos)
    [] p.k = "rep1of1" -> Parse(Rep("rep1", OneOf(p.ps)), s, pos)
    [] p.k = "optional" ->
         LET o == Parse(p.p, s, pos) IN IF o.ok THEN o ELSE Acc(p.r, s, pos)
    [] p.k = "if" -> Acc(IF Parse(p.p, s, pos).ok THEN p.t ELSE p.e, s, pos)
    [] p.k = "except" ->
         IF Parse(p.p, s, pos).ok THEN Rej(p.m, pos) ELSE Acc(p.r, s, pos)
    [] p.k = "look" ->
         LET o == Parse(p.p, s, pos) IN IF o.ok THEN Acc(o.res, s, pos) ELSE o
    [] p.k = "fafce" ->
         LET o == Parse(p.p, s, pos) IN
         IF o.ok THEN Rej(MToFail, pos)
         ELSE IF o.pos = pos THEN Acc(Unspec, s, pos)
         ELSE o
    [] p.k = "entire" ->
         LET o == Parse(p.p, s, pos) IN
         IF ~o.ok THEN o
         ELSE IF o.rem = <<>> THEN o ELSE Rej(p.m, o.pos)
    [] p.k = "token" ->
         LET o == Parse(p.p, s, pos) IN
         IF ~o.ok THEN o
         ELSE LET l == Loop(Space, <<>>, o.rem, o.pos) IN Acc(o.res, l.rem, l.pos)
    [] p.k \in {"foldl", "foldl1", "foldlri", "foldlri1"} ->
         LET l == Loop(p.p, <<>>, s, pos) IN
         LoopOut(l, p.k \in {"foldl1", "foldlri1"}, p.k \in {"foldlri", "foldlri1"},
                 FoldLeft2(l.items, p.r))
    [] p.k \in {"foldr", "foldr1", "foldrri", "foldrri1"} ->
         LET l == Loop(p.p, <<>>, s, pos) IN
         LoopOut(l, p.k \in {"foldr1", "foldrri1"}, p.k \in {"foldrri", "foldrri1"},
                 FoldRight2(l.items, p.r))
    [] p.k \in {"foldlsp", "foldlrisp"} ->
         LET o == Parse(p.q, s, pos) IN
         IF ~o.ok THEN o
         ELSE LET l == Loop(p.p, <<>>, o.rem, o.pos) IN
              LoopOut(l, FALSE, p.k = "foldlrisp", FoldLeft2(l.items, o.res))
    [] p.k = "foldrsp" ->
         LET l == Loop(p.p, <<>>, s, pos)
             o == Parse(p.q, l.rem, l.pos) IN
         IF ~o.ok THEN o
         ELSE Acc(FoldRight2(l.items, o.res), o.rem, o.pos)
    [] p.k \in RepKinds ->
         LET l == Loop(p.p, <<>>, s, pos) IN
         LoopOut(l, p.k \in {"rep1", "repri1"}, p.k \in {"repri", "repri1"},
                 RList(l.items))
    [] p.k = "nt" -> Parse(NTDef(p.n), s, pos)

------------------------------------------------------------------------------
(* Nullable(p): p may accept without consuming (an over-approximation).     *)
(* A repetition of such a parser does not terminate; the library documents  *)
(* no meaning for it.                                                       *)
RECURSIVE Nullable(_), WellFormed(_)
Nullable(p) ==
  CASE p.k \in {"one_char", "lit", "digit", "digit_val", "letter", "space",
                "alphanum", "int", "spaces", "range", "ocx", "oneofc", "fail", "bomb",
                "always_c"} -> FALSE
    [] p.k \in {"ret", "empty", "optional", "if", "except", "look", "fafce",
                "foldl", "foldlri", "foldr", "foldrri", "rep", "repri",
                "rep1of"} -> TRUE
    [] p.k = "keyword" -> p.s = <<>>
    [] p.k \in {"always", "only", "chmsg", "accept_when", "transform", "terr", "terrmsg",
                "entire", "token", "foldl1", "foldlri1", "foldr1", "foldrri1",
                "rep1", "repri1"} -> Nullable(p.p)
    [] p.k \in {"seq", "seqapply", "first", "last"} ->
         \A i \in 1..Len(p.ps) : Nullable(p.ps[i])
    [] p.k = "nth" -> \A i \in 1..Len(p.ps) : Nullable(p.ps[i])
    [] p.k = "middle" -> Nullable(p.p) /\ Nullable(p.q) /\ Nullable(p.z)
    [] p.k = "iterate" -> p.n = 0 \/ Nullable(p.p)
    [] p.k \in {"oneof", "rep1of1"} -> \E i \in 1..Len(p.ps) : Nullable(p.ps[i])
    [] p.k \in FoldSPKinds -> Nullable(p.q)
    [] p.k = "nt" -> p.n = 5

WellFormed(p) ==
  CASE p.k \in {"one_char", "lit", "digit", "digit_val", "letter", "space",
                "alphanum", "int", "spaces", "range", "ocx", "oneofc", "fail", "bomb",
                "always_c", "ret", "empty", "keyword", "nt"} -> TRUE
    [] p.k \in {"always", "only", "chmsg", "transform", "terr", "terrmsg",
                "entire", "token", "optional", "if", "except", "look", "fafce",
                "iterate", "accept_when"} -> WellFormed(p.p)
    [] p.k \in FoldKinds \cup RepKinds -> WellFormed(p.p) /\ ~Nullable(p.p)
    [] p.k \in FoldSPKinds -> WellFormed(p.p) /\ WellFormed(p.q) /\ ~Nullable(p.p)
    [] p.k \in {"seq", "seqapply", "first", "last", "nth", "oneof"} ->
         \A i \in 1..Len(p.ps) : WellFormed(p.ps[i])
    [] p.k \in {"rep1of", "rep1of1"} ->
         \A i \in 1..Len(p.ps) : WellFormed(p.ps[i]) /\ ~Nullable(p.ps[i])
    [] p.k = "middle" -> WellFormed(p.p) /\ WellFormed(p.q) /\ WellFormed(p.z)

==============================================================================
