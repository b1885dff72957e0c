----------------------------- MODULE Generate ------------------------------
(* Writes the cases of property VP_PROP to VP_OUT.                         *)
EXTENDS Families
(* int: at most nine digits                                                 *)
NineDigits(cs) == \A i \in 1..(Len(cs.in) - 9) : \E j \in i..(i + 9) : ~IsDigit(cs.in[j])
Huge == TLCEval({Digits(n) : n \in {m \in Nums : m > 999999999}})
Modelled(cs) == NineDigits(cs) \/ (Len(cs.in) = 10 /\ cs.in \in Huge)
ASSUME LET C == SelectSeq(TLCEval(Cases), Modelled) IN
       /\ \A i \in 1..Len(C) : \A j \in 1..Len(C[i].ps) :
             WellFormed(C[i].ps[j]) \/ (PrintT(C[i]) /\ FALSE)
       /\ ndJsonSerialize(IOEnv.VP_OUT, C)
=============================================================================
