------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* A stack machine executing parser terms, one action per step a parser    *)
(* takes: rewriting a derived combinator into the combinators the          *)
(* documentation defines it by, consuming a character (or failing to),     *)
(* calling a sub-parser, and resuming a suspended combinator with the      *)
(* outcome of its sub-parser.                                              *)
(*                                                                         *)
(* Metaparse.tla defines every combinator directly; this module executes   *)
(* the core ones and rewrites all others by the equivalences of the        *)
(* reference documentation (first_of<p, spaces>, last_of<look_ahead<p>,    *)
(* foldl<..>>, ...).  Agreement (invariant) says both give the same        *)
(* outcome on every explored case.                                         *)
(***************************************************************************)
EXTENDS Metaparse

CONSTANTS NCases,        \* number of cases to execute
          CaseAt(_)      \* the i-th case: [p, in, start]

VARIABLES cid,           \* which case is being executed
          case,          \* the case: [p, in, start]
          ctl,           \* "eval" | "ret" | "done"
          t,             \* term being applied
          s, pos,        \* where it is applied
          out,           \* outcome being returned
          stk            \* suspended combinators, innermost last

mvars == <<cid, case, ctl, t, s, pos, out, stk>>

Unp(p, l, c) == [k |-> "unp", p |-> p, a |-> l, b |-> c]

(* Documented equivalences: one rewriting step for derived combinators.     *)
Derived == {"always", "always_c", "alphanum", "spaces", "keyword", "token",
            "entire", "optional", "if", "iterate", "middle", "rep1of", "rep1of1",
            "foldl1", "foldr1", "foldlri", "foldlri1", "foldrri", "foldrri1",
            "rep1", "repri", "repri1", "foldlrisp", "nt"}
Rewrite(p, ps) ==
  CASE p.k = "always" -> PLast(<<p.p, Ret(p.r)>>)
    [] p.k = "always_c" -> Always(Lit(p.c), p.r)
    [] p.k = "alphanum" -> OneOf(<<Letter, Digit>>)
    [] p.k = "spaces" -> Rep("rep1", Space)
    [] p.k = "keyword" -> PLast([i \in 1..Len(p.s) |-> Lit(p.s[i])] \o <<Ret(p.r)>>)
    [] p.k = "token" -> PFirst(<<p.p, Rep("rep", Space)>>)
    [] p.k = "entire" -> PFirst(<<p.p, ChMsg(Empty(RSym(0)), p.m)>>)
    [] p.k = "optional" -> OneOf(<<p.p, Ret(p.r)>>)
    [] p.k = "if" -> OneOf(<<PLast(<<Look(p.p), Ret(p.t)>>), Ret(p.e)>>)
    [] p.k = "iterate" -> Sq([i \in 1..p.n |-> p.p])
    [] p.k = "middle" -> Nth(1, <<p.p, p.q, Unp(p.z, ps[1], ps[2])>>)
    [] p.k = "rep1of" -> Rep("rep", OneOf(p.ps))
    [] p.k = "rep1of1" -> Rep("rep1", OneOf(p.ps))
    [] p.k = "foldl1" -> PLast(<<Look(p.p), Fold("foldl", p.p, p.r)>>)
    [] p.k = "foldr1" -> PLast(<<Look(p.p), Fold("foldr", p.p, p.r)>>)
    [] p.k = "foldlri" -> PFirst(<<Fold("foldl", p.p, p.r), Fafce(p.p)>>)
    [] p.k = "foldrri" -> PFirst(<<Fold("foldr", p.p, p.r), Fafce(p.p)>>)
    [] p.k = "foldlri1" -> PLast(<<Look(p.p), Fold("foldlri", p.p, p.r)>>)
    [] p.k = "foldrri1" -> PLast(<<Look(p.p), Fold("foldrri", p.p, p.r)>>)
    [] p.k = "rep1" -> PLast(<<Look(p.p), Rep("rep", p.p)>>)
    [] p.k = "repri" -> PFirst(<<Rep("rep", p.p), Fafce(p.p)>>)
    [] p.k = "repri1" -> PLast(<<Look(p.p), Rep("repri", p.p)>>)
    [] p.k = "foldlrisp" -> PFirst(<<FoldSP("foldlsp", p.p, p.q), Fafce(p.p)>>)
    [] p.k = "nt" -> NTDef(p.n)

Leafs == {"one_char", "lit", "digit", "digit_val", "letter", "space", "range",
          "ocx", "oneofc", "ret", "empty", "fail", "bomb"}

Frame(f, term, i, acc, best) ==
    [f |-> f, t |-> term, i |-> i, acc |-> acc, s |-> s, pos |-> pos, best |-> best]
NoBest == Rej(MNone, pos)

(* What a finished sequence of results becomes.                             *)
SeqResult(p, items) ==
    CASE p.k = "seq" -> RList(items)
      [] p.k = "seqapply" -> RInst(items)
      [] p.k = "nth" -> items[p.n + 1]
      [] p.k = "first" -> items[1]
      [] p.k = "last" -> items[Len(items)]

RECURSIVE Decimal(_, _)
Decimal(items, n) ==
    IF items = <<>> THEN n ELSE Decimal(Tail(items), Times10(n, items[1][2]))

BadIndex(p) == \/ p.k = "nth" /\ (p.n < 0 \/ p.n >= Len(p.ps))
               \/ p.k \in {"first", "last"} /\ p.ps = <<>>

Return(o) == /\ ctl' = "ret" /\ out' = o
             /\ UNCHANGED <<cid, case, t, s, pos, stk>>
Eval(p, s1, pos1, stk1) == /\ ctl' = "eval" /\ t' = p /\ s' = s1 /\ pos' = pos1
                           /\ stk' = stk1 /\ UNCHANGED <<cid, case, out>>

Desugar == /\ ctl = "eval" /\ t.k \in Derived
           /\ t' = Rewrite(t, pos)
           /\ UNCHANGED <<cid, case, ctl, s, pos, out, stk>>

Consume == /\ ctl = "eval" /\ t.k \in Leafs
           /\ Return(Parse(t, s, pos))

CallSeq == /\ ctl = "eval" /\ t.k \in {"seq", "seqapply", "nth", "first", "last"}
           /\ IF BadIndex(t)
              THEN Return(Parse(t, s, pos))
              ELSE IF t.ps = <<>> THEN Return(Acc(SeqResult(t, <<>>), s, pos))
              ELSE Eval(t.ps[1], s, pos, Append(stk, Frame("seq", t, 1, <<>>, NoBest)))

CallChoice == /\ ctl = "eval" /\ t.k = "oneof"
              /\ IF t.ps = <<>> THEN Return(NoBest)
                 ELSE Eval(t.ps[1], s, pos, Append(stk, Frame("oneof", t, 1, <<>>, NoBest)))

LoopBody(p) == IF p.k = "int" THEN DigitVal ELSE p.p
CallLoop == /\ ctl = "eval" /\ t.k \in {"foldl", "foldr", "rep", "int", "foldrsp"}
            /\ Eval(LoopBody(t), s, pos, Append(stk, Frame("loop", t, 0, <<>>, NoBest)))
CallState == /\ ctl = "eval" /\ t.k = "foldlsp"
             /\ Eval(t.q, s, pos, Append(stk, Frame("state", t, 0, <<>>, NoBest)))

Unary == {"only", "look", "except", "fafce", "chmsg", "accept_when", "transform",
          "terr", "terrmsg", "unp"}
CallUnary == /\ ctl = "eval" /\ t.k \in Unary
             /\ Eval(t.p, s, pos, Append(stk, Frame("unary", t, 0, <<>>, NoBest)))

Top == stk[Len(stk)]
Popped == SubSeq(stk, 1, Len(stk) - 1)
Resuming(f) == ctl = "ret" /\ stk # <<>> /\ Top.f = f
Leave(o) == /\ out' = o /\ stk' = Popped
            /\ UNCHANGED <<cid, case, ctl, t, s, pos>>
Again(p, s1, pos1, fr) == Eval(p, s1, pos1, Append(Popped, fr))

ResumeSeq ==
    /\ Resuming("seq")
    /\ LET fr == Top
           acc == Append(fr.acc, out.res) IN
       IF ~out.ok THEN Leave(out)
       ELSE IF fr.i = Len(fr.t.ps)
            THEN Leave(Acc(SeqResult(fr.t, acc), out.rem, out.pos))
       ELSE Again(fr.t.ps[fr.i + 1], out.rem, out.pos,
                  [fr EXCEPT !.i = @ + 1, !.acc = acc])

ResumeChoice ==
    /\ Resuming("oneof")
    /\ LET fr == Top IN
       IF out.ok THEN Leave(out)
       ELSE IF fr.i = Len(fr.t.ps) THEN Leave(Furthest(fr.best, out))
       ELSE Again(fr.t.ps[fr.i + 1], fr.s, fr.pos,
                  [fr EXCEPT !.i = @ + 1, !.best = Furthest(fr.best, out)])

(* The loop frame's s, pos: where the last application started.             *)
ResumeLoop ==
    /\ Resuming("loop")
    /\ LET fr == Top IN
       IF out.ok
       THEN Again(LoopBody(fr.t), out.rem, out.pos,
                  [fr EXCEPT !.acc = Append(@, out.res), !.s = out.rem, !.pos = out.pos])
       ELSE CASE fr.t.k = "foldl" ->
                   Leave(Acc(FoldLeft2(fr.acc, fr.t.r), fr.s, fr.pos))
              [] fr.t.k = "foldlsp" ->
                   Leave(Acc(FoldLeft2(Tail(fr.acc), fr.acc[1]), fr.s, fr.pos))
              [] fr.t.k = "foldr" ->
                   Leave(Acc(FoldRight2(fr.acc, fr.t.r), fr.s, fr.pos))
              [] fr.t.k = "rep" -> Leave(Acc(RList(fr.acc), fr.s, fr.pos))
              [] fr.t.k = "int" ->
                   IF fr.acc = <<>> THEN Leave(out)
                   ELSE Leave(Acc(RInt(Decimal(fr.acc, 0)), fr.s, fr.pos))
              [] fr.t.k = "foldrsp" ->
                   Again(fr.t.q, fr.s, fr.pos, [fr EXCEPT !.f = "final"])

ResumeState ==
    /\ Resuming("state")
    /\ LET fr == Top IN
       IF ~out.ok THEN Leave(out)
       ELSE Again(fr.t.p, out.rem, out.pos,
                  [fr EXCEPT !.f = "loop", !.acc = <<out.res>>,
                             !.s = out.rem, !.pos = out.pos])

ResumeFinal ==
    /\ Resuming("final")
    /\ LET fr == Top IN
       IF ~out.ok THEN Leave(out)
       ELSE Leave(Acc(FoldRight2(fr.acc, out.res), out.rem, out.pos))

ResumeUnary ==
    /\ Resuming("unary")
    /\ LET fr == Top
           k == fr.t.k IN
       Leave(
         CASE k = "only" -> out
           [] k = "look" -> IF out.ok THEN Acc(out.res, fr.s, fr.pos) ELSE out
           [] k = "except" -> IF out.ok THEN Rej(fr.t.m, fr.pos)
                              ELSE Acc(fr.t.r, fr.s, fr.pos)
           [] k = "fafce" -> IF out.ok THEN Rej(MToFail, fr.pos)
                             ELSE IF out.pos = fr.pos THEN Acc(Unspec, fr.s, fr.pos)
                             ELSE out
           [] k = "chmsg" -> IF out.ok THEN out ELSE Rej(fr.t.m, fr.pos)
           [] k = "accept_when" ->
                IF ~out.ok \/ PredR(fr.t.pred, out.res) THEN out
                ELSE Rej(fr.t.m, fr.pos)
           [] k = "transform" ->
                IF out.ok THEN Acc(RApp(fr.t.f, out.res), out.rem, out.pos) ELSE out
           [] k \in {"terr", "terrmsg"} ->
                IF out.ok THEN out ELSE RejS({MWrap(fr.t.f, m) : m \in out.msgs}, IF k = "terr" THEN TErrPos(fr.t.f, out.pos) ELSE out.pos)
           [] k = "unp" ->
                IF out.ok THEN out
                ELSE RejS({MUnpaired(fr.t.a, fr.t.b, m) : m \in out.msgs}, out.pos))

Halt == /\ ctl = "ret" /\ stk = <<>> /\ ctl' = "done"
        /\ UNCHANGED <<cid, case, t, s, pos, out, stk>>
Stay == ctl = "done" /\ UNCHANGED mvars

MInit == /\ cid \in 1..NCases
         /\ case = CaseAt(cid)
         /\ ctl = "eval" /\ t = case.p /\ s = case.in /\ pos = case.start
         /\ out = Rej(MNone, case.start) /\ stk = <<>>

MNext == \/ Desugar \/ Consume \/ CallSeq \/ CallChoice \/ CallLoop \/ CallState
         \/ CallUnary \/ ResumeSeq \/ ResumeChoice \/ ResumeLoop \/ ResumeState
         \/ ResumeFinal \/ ResumeUnary \/ Halt \/ Stay

MSpec == MInit /\ [][MNext]_mvars

------------------------------------------------------------------------------
(* Properties                                                               *)
IsSuffixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, Len(b) - Len(a) + 1, Len(b))
Consumed(rest) == SubSeq(case.in, 1, Len(case.in) - Len(rest))

(* Wherever a parser is applied: on a suffix of the input, at the position  *)
(* reached by advancing over what was consumed.                             *)
AppliedInPlace ==
    ctl = "eval" => /\ IsSuffixOf(s, case.in)
                    /\ pos = Advance(case.start, Consumed(s))
(* Accepting: the remaining input is a suffix of what the parser was given  *)
(* and the position matches.                                                *)
AcceptInPlace ==
    (ctl \in {"ret", "done"} /\ out.ok) =>
        /\ IsSuffixOf(out.rem, case.in)
        /\ out.pos = Advance(case.start, Consumed(out.rem))
(* Rejecting: the error is somewhere in the input, at or after the start.   *)
RejectInPlace ==
    (ctl \in {"ret", "done"} /\ ~out.ok) =>
        /\ out.msgs # {}
        /\ Moved(out.pos) \/ \E n \in 0..Len(case.in) :
              out.pos = Advance(case.start, SubSeq(case.in, 1, n))
(* Machine (documented equivalences) and denotation agree.                  *)
Agreement == ctl = "done" => out = Parse(case.p, case.in, case.start)
(* Positions strictly increase along the input.                             *)
Monotone ==
    ctl = "done" =>
      \A n \in 0..(Len(case.in) - 1) :
        PosLess(Advance(case.start, SubSeq(case.in, 1, n)),
                Advance(case.start, SubSeq(case.in, 1, n + 1)))
(* What a run has no use for is not applied, and functions are only called   *)
(* on what they are for.                                                    *)
Called(fr) == CASE fr.t.k = "transform" -> fr.t.f = BombF /\ out.ok
                [] fr.t.k \in {"terr", "terrmsg"} -> fr.t.f = BombF /\ ~out.ok
                [] fr.t.k = "accept_when" -> fr.t.pred = "bomb" /\ out.ok
                [] fr.f = "loop" -> "b" \in DOMAIN fr.t /\ out.ok
                [] OTHER -> FALSE
OnlyNeeded == /\ ctl = "eval" => t.k # "bomb" /\ (t.k = "only" => \E i \in 1..Len(t.at) : t.at[i] = Len(s))
              /\ (ctl = "ret" /\ stk # <<>>) => ~Called(Top)
(* Bounded work for well-formed terms: the stack never outgrows the term    *)
(* and the input (so no run is infinite: TLC explores all of it).           *)
=============================================================================
