------------------------------ MODULE Explore ------------------------------
(* Executes generated cases (VP_OUT, written by Generate) on the machine,  *)
(* checking its invariants.                                                *)
EXTENDS Machine, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_OUT)
MNC == LET n == atoi(IOEnv.VP_MACHINE) IN IF n < Len(Cases) THEN n ELSE Len(Cases)
CaseOf(i) == LET k == 1 + (((i - 1) * Len(Cases)) \div MNC) IN
             [p |-> Cases[k].ps[1], in |-> Cases[k].in, start |-> Cases[k].start]
=============================================================================
