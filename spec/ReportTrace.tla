---------------------------- MODULE ReportTrace -----------------------------
(* Validates recorded uses of build_parser and debug_parsing_error.        *)
EXTENDS Report, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES sid, verdict
tvars == <<job, mode, phase, o, m, printed, value, sid, verdict>>
T == Traces[sid]
TInit == sid \in 1..Len(Traces) /\ verdict = "ok" /\ RInit
Keep == UNCHANGED <<sid, verdict>>

TBegin == verdict = "ok" /\ job = <<>> /\ Begin(T.p, T.in, T.op) /\ Keep
(* what was seen agrees with the end of a run in which m is the message     *)
SeenBuilt == mode = "build" /\ o.ok /\ T.got = "built" /\ T.res = o.res
SeenRefused == /\ mode = "build" /\ ~o.ok /\ T.got = "refused"
               /\ T.msg = m /\ T.at = <<o.pos[1], o.pos[2]>>
SeenReport == mode = "debug" /\ T.got = "report" /\ T.exit = 0
              /\ T.out = Lines(Header(job[2]) \o (IF o.ok THEN Good(o) ELSE Bad(o, m)))
(* Another choice of the message may explain what was seen.                 *)
Possible == \/ mode = "build" /\ (SeenBuilt \/ (~o.ok /\ T.got = "refused" /\ T.msg \in o.msgs /\ T.at = <<o.pos[1], o.pos[2]>>))
            \/ mode = "debug" /\ T.got = "report" /\ T.exit = 0 /\ T.out \in Reports(T.p, T.in)
TStep == /\ verdict = "ok" /\ job # <<>> /\ phase \notin {"ended", "refused"} /\ (SeenBuilt \/ SeenRefused \/ SeenReport)
         /\ (Build \/ PrintTitle \/ PrintInput \/ PrintVerdict \/ Exit) /\ Keep
TRefused == /\ verdict = "ok" /\ phase = "parsed" /\ ~Possible
            /\ PrintT(<<"REFUSED", T.id, o>>)
            /\ verdict' = "refused" /\ UNCHANGED <<job, mode, phase, o, m, printed, value, sid>>
TIdle == UNCHANGED tvars
TNext == TBegin \/ TStep \/ TRefused \/ TIdle
TSpec == TInit /\ [][TNext]_tvars
Explained == verdict = "ok"
=============================================================================
