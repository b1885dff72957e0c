---------------------------- MODULE GrammarTrace ----------------------------
(***************************************************************************)
(* Validates recorded uses of grammar<>: the definitions, then for every   *)
(* input what the grammar's parser did with it, or that the compiler       *)
(* refused the grammar.                                                    *)
(***************************************************************************)
EXTENDS Grammar, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES sid, l, verdict
tvars == <<svars, gvars, sid, l, verdict>>

T == Traces[sid]
Ev == T.ev[l]
More == verdict = "ok" /\ l <= Len(T.ev)

TraceInit == /\ sid \in 1..Len(Traces) /\ l = 1 /\ verdict = "ok"
             /\ g = <<>> /\ built = "open" /\ Open(<<>>, StartPos)

IsOp(op) == More /\ Ev.op = op
Step == l' = l + 1 /\ UNCHANGED <<sid, verdict>>

EvImport == IsOp("import") /\ Import(Ev.name, Ev.p) /\ Step /\ UNCHANGED svars
EvRule == IsOp("rule") /\ Ev.got = "taken" /\ AddRule(Ev.text, Ev.act) /\ Step /\ UNCHANGED svars
EvRuleRefused == IsOp("rule") /\ Ev.got = "refused" /\ RefuseRule(Ev.text) /\ Step /\ UNCHANGED svars
EvUseRefused == IsOp("use") /\ Ev.st = "refused" /\ RefuseUse(T.start) /\ Step /\ UNCHANGED svars
(* one application of the grammar to a fresh input                          *)
EvUse == /\ IsOp("use") /\ Use(T.start)
         /\ LET o == Parse(Denote(g, T.start), Ev.in, Ev.at) IN
            \/ Ev.st = "acc" /\ o = [ok |-> TRUE, res |-> Ev.res, rem |-> Ev.rem, pos |-> Ev.pos]
            \/ Ev.st = "rej" /\ ~o.ok /\ Ev.msg \in o.msgs /\ Ev.pos = o.pos
         /\ input' = Ev.in /\ start' = Ev.at /\ live' = (Ev.st = "acc")
         /\ rem' = (IF Ev.st = "acc" THEN Ev.rem ELSE Ev.in)
         /\ pos' = (IF Ev.st = "acc" THEN Ev.pos ELSE Ev.at)
         /\ Step

Known == EvImport \/ EvRule \/ EvRuleRefused \/ EvUseRefused \/ EvUse
EvRefused == /\ More /\ ~ENABLED Known
             /\ PrintT(<<"REFUSED", T.id, l, Ev,
                         IF Ev.op = "use" /\ Closed(g, T.start, 20) THEN Parse(Denote(g, T.start), Ev.in, Ev.at) ELSE <<>>>>)
             /\ verdict' = "refused" /\ UNCHANGED <<svars, gvars, sid, l>>
Finished == ~More /\ UNCHANGED tvars
TraceNext == Known \/ EvRefused \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Explained == verdict = "ok"
=============================================================================
