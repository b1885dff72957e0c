----------------------------- MODULE StringSeq -----------------------------
(***************************************************************************)
(* Compile-time strings as sequences: a history of the sequence operations *)
(* applied to one string, with everything a client can observe about it    *)
(* after each.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Chars, MaxLen      \* of the exhaustive exploration
MCChars == {-128, 0, 97}
VARIABLES str, op            \* the string; the operation that produced it

vars == <<str, op>>

PushBack(c) == str' = Append(str, c) /\ op' = <<"pb", c>>
PushFront(c) == str' = <<c>> \o str /\ op' = <<"pf", c>>
PopBack == str # <<>> /\ str' = SubSeq(str, 1, Len(str) - 1) /\ op' = <<"xb">>
PopFront == str # <<>> /\ str' = Tail(str) /\ op' = <<"xf">>
Clear == str' = <<>> /\ op' = <<"cl">>

(* Comparing with another string, and with something that is no string      *)
Compare(w) == UNCHANGED str /\ op' = <<"eq">> \o w

(* What is observable                                                       *)
Bool(b) == IF b THEN 1 ELSE 0
Obs(s) == [size |-> Len(s), empty |-> Bool(s = <<>>),
           ends |-> IF s = <<>> THEN <<>> ELSE <<s[1], s[Len(s)]>>,
           fwd |-> s, bwd |-> Reverse(s), at |-> s,
           cstr |-> Append(s, 0),     \* the array, with its terminator
           targs |-> s,               \* the type is string<s1, ..., sn> itself
           \* begin = end?, end - begin, begin - end, second via advance, last via prior
           iter |-> <<Bool(s = <<>>), Len(s), -Len(s)>>]
EqObs(s, w) == <<Bool(s = w), Bool(s = w), Bool(s = w), 0, 0>>

Init == str \in UNION {[1..n -> Chars] : n \in 0..2} /\ op = <<"new">>
Next == \/ \E c \in Chars : (Len(str) < MaxLen /\ (PushBack(c) \/ PushFront(c)))
        \/ PopBack \/ PopFront \/ Clear
        \/ \E n \in 0..1 : \E w \in [1..n -> Chars] : Compare(w)
Spec == Init /\ [][Next]_vars

(* Laws of the sequence                                                     *)
TypeOK == str \in UNION {[1..n -> Chars] : n \in 0..MaxLen}
BackLaw == [][ (op'[1] = "pb") => /\ Len(str') = Len(str) + 1
                                  /\ SubSeq(str', 1, Len(str)) = str ]_vars
FrontLaw == [][ (op'[1] = "pf") => /\ Tail(str') = str /\ str'[1] = op'[2] ]_vars
PopLaw == [][ (op'[1] \in {"xb", "xf"}) => Len(str') = Len(str) - 1 ]_vars
ObsConsistent == LET o == Obs(str) IN
    /\ o.size = Len(o.fwd) /\ o.bwd = Reverse(o.fwd) /\ o.at = o.targs
    /\ (o.empty = 1) = (o.size = 0) /\ o.cstr = Append(o.at, 0)
=============================================================================
