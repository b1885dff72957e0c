------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The values clients and custom parsers are built from: source positions  *)
(* and their order, parsing results and their accessors, and the character *)
(* and number utilities.  A client computes a growing list of values       *)
(* (registers), each from earlier ones; every value is immutable.          *)
(***************************************************************************)
EXTENDS Metaparse

------------------------------------------------------------------------------
(* Utilities: Call(f, args) is the boxed value, as <<kind, value>>           *)
Bool(p) == <<3, IF p THEN 1 ELSE 0>>
(* <<h, l>> stands for h * 2^31 + l, 0 <= l < 2^31                            *)
WideLeq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Call(f, x) ==
    CASE f = "is_digit" -> Bool(IsDigit(x[1]))
      [] f = "is_letter" -> Bool(IsLetter(x[1]))
      [] f = "is_lcase_letter" -> Bool(IsLower(x[1]))
      [] f = "is_ucase_letter" -> Bool(IsUpper(x[1]))
      [] f = "is_whitespace" -> Bool(IsSpace(x[1]))
      [] f = "digit_to_int" -> IF IsDigit(x[1]) THEN <<2, x[1] - 48>> ELSE <<9, 1>>    \* the error digit_expected
      [] f = "int_to_digit" -> <<1, x[1] + 48>>
      [] f = "in_range" -> Bool(x[1] <= x[3] /\ x[3] <= x[2])
      [] f = "in_wide_range" -> Bool(WideLeq(x[1], x[3]) /\ WideLeq(x[3], x[2]))
RoundTrip == \A d \in 0..9 : Call("digit_to_int", <<Call("int_to_digit", <<d>>)[2]>>) = <<2, d>>
Classes == \A ch \in -128..127 :
             /\ (Call("is_letter", <<ch>>) = Bool(TRUE)) <=> (Call("is_lcase_letter", <<ch>>) = Bool(TRUE) \/ Call("is_ucase_letter", <<ch>>) = Bool(TRUE))
             /\ (Call("is_digit", <<ch>>) = Bool(TRUE)) <=> (Call("digit_to_int", <<ch>>)[1] = 2)
             /\ Cardinality({f \in {"is_digit", "is_letter", "is_whitespace"} : Call(f, <<ch>>) = Bool(TRUE)}) <= 1

------------------------------------------------------------------------------
CONSTANTS Lines, Cols, Chs, MaxRegs
VARIABLE reg
Pos(l, co, ch) == [t |-> "pos", v |-> <<l, co, ch>>]
IsPos(i) == i \in 1..Len(reg) /\ reg[i].t = "pos"
IsOut(i) == i \in 1..Len(reg) /\ reg[i].t \in {"acc", "rej"}
Add(v) == reg' = Append(reg, v)

Position(l, co, ch) == Add(Pos(l, co, ch))
NextChar(i, ch) == IsPos(i) /\ Add(Pos(reg[i].v[1], reg[i].v[2] + 1, ch))
NextLine(i, ch) == IsPos(i) /\ Add(Pos(reg[i].v[1] + 1, 1, ch))
MkAccept(r, w, i) == IsPos(i) /\ Add([t |-> "acc", res |-> r, rem |-> w, pos |-> reg[i].v])
MkReject(m, i) == IsPos(i) /\ Add([t |-> "rej", msg |-> m, pos |-> reg[i].v])
GetPosition(i) == IsOut(i) /\ Add([t |-> "pos", v |-> reg[i].pos])
UnlessError(i, j) == IsOut(i) /\ IsOut(j) /\ Add(IF reg[i].t = "rej" THEN reg[i] ELSE reg[j])

VInit == reg = <<>>
VNext == /\ Len(reg) < MaxRegs
         /\ \/ \E l \in Lines, co \in Cols, ch \in Chs : Position(l, co, ch)
            \/ \E i \in 1..Len(reg), ch \in Chs : NextChar(i, ch) \/ NextLine(i, ch)
            \/ \E i \in 1..Len(reg) : MkAccept(RSym(1), <<97>>, i) \/ MkReject(MDigit, i) \/ GetPosition(i)
            \/ \E i, j \in 1..Len(reg) : UnlessError(i, j)
VSpec == VInit /\ [][VNext]_reg

(* Comparing positions: < = > and their complements                         *)
Six(p, q) == LET lt == PosLess(p, q)  gt == PosLess(q, p)  eq == p = q IN
             [i \in 1..6 |-> IF <<eq, ~eq, lt, lt \/ eq, gt, gt \/ eq>>[i] THEN 1 ELSE 0]
PosSet == {reg[i].v : i \in {k \in 1..Len(reg) : reg[k].t = "pos"}}
TotalOrder == \A p, q \in PosSet : Cardinality({s \in 1..3 : <<PosLess(p, q), p = q, PosLess(q, p)>>[s]}) = 1
Transitive == \A p, q, r \in PosSet : (PosLess(p, q) /\ PosLess(q, r)) => PosLess(p, r)
(* Whatever is read, the position moves forward                             *)
Forward == \A p \in PosSet : \A ch \in Chs : PosLess(p, NextPos(p, ch))
(* Values never change once computed                                        *)
Immutable == [][SubSeq(reg', 1, Len(reg)) = reg]_reg
=============================================================================
