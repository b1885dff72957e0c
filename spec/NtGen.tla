------------------------------- MODULE NtGen --------------------------------
(* The parsers defined by recursion, for the harness.                      *)
EXTENDS Metaparse, IOUtils, Json
ASSUME ndJsonSerialize(IOEnv.VP_OUT, [n \in 1..NtCount |-> [p |-> NTDef(n)]])
=============================================================================
