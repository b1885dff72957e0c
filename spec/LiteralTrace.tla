---------------------------- MODULE LiteralTrace ----------------------------
(* Recorded translation units: redefinitions of the limit and literals,    *)
(* each with the string the library made of it, or its refusal.            *)
EXTENDS Literal, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES sid, l, verdict
tvars == <<limit, lit, fed, todo, made, st, sid, l, verdict>>
T == Traces[sid]
Ev == T.ev[l]
More == verdict = "ok" /\ l <= Len(T.ev)

TInit == /\ sid \in 1..Len(Traces) /\ l = 1 /\ verdict = "ok" /\ limit = T.limit
         /\ lit = <<>> /\ fed = <<>> /\ todo = 0 /\ made = <<>> /\ st = "idle"

(* one event of the trace = Redefine, or Begin; the steps of the machine in *)
(* between are not observable                                               *)
TRedefine == More /\ st = "idle" /\ Ev.op = "limit" /\ Redefine(Ev.n) /\ l' = l + 1 /\ UNCHANGED <<sid, verdict>>
TBegin == More /\ st = "idle" /\ Ev.op = "make" /\ Begin(Ev.w) /\ UNCHANGED <<sid, l, verdict>>
TChunk == More /\ Chunk /\ UNCHANGED <<sid, l, verdict>>
Seen == IF st = "refused" THEN Ev.got = "refused"
        ELSE Ev.got = "string" /\ Ev.str = made
TDone == /\ More /\ Done /\ Seen /\ l' = l + 1 /\ UNCHANGED <<sid, verdict>>
TStep == TRedefine \/ TBegin \/ TChunk \/ TDone
TRefused == /\ More /\ ~ENABLED TStep
            /\ PrintT(<<"REFUSED", T.id, l>>)
            /\ verdict' = "refused" /\ UNCHANGED <<limit, lit, fed, todo, made, st, sid, l>>
TEnd == ~More /\ UNCHANGED tvars
TNext == TStep \/ TRefused \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
Explained == verdict = "ok"
=============================================================================
