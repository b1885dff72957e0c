------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates sessions recorded from the real library against Session.      *)
(* Every recorded session is a behaviour: its events must be taken by the  *)
(* Accept/Reject actions with the recorded outcome.  asp is the aspect the *)
(* property at hand talks about: "all", or a projection of the outcome.    *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES sid, l, verdict
tvars == <<input, start, rem, pos, live, sid, l, verdict>>

T == Traces[sid]
Asp == T.asp
Ev == T.ev[l]
More == verdict = "ok" /\ l <= Len(T.ev)

TraceInit == /\ sid \in 1..Len(Traces)
             /\ l = 1 /\ verdict = "ok"
             /\ Open(T.in, T.start)

(* "pos": acceptance, consumption and positions; "rem": acceptance and      *)
(* consumption; "err": acceptance, message and position of errors;          *)
(* "all": everything.                                                       *)
LogAccept(e, o) == [ok |-> TRUE,
                    res |-> IF Asp \in {"pos", "rem", "err"} THEN o.res ELSE e.res,
                    rem |-> IF Asp = "err" THEN o.rem ELSE e.rem,
                    pos |-> IF Asp \in {"rem", "err"} THEN o.pos ELSE e.pos]

EvAccept == /\ More /\ Ev.st = "acc"
            /\ LET o == Parse(Ev.p, rem, pos) IN
               o.ok /\ Accept(Ev.p, LogAccept(Ev, o))
            /\ l' = l + 1 /\ UNCHANGED <<sid, verdict>>

EvReject == /\ More /\ Ev.st = "rej"
            /\ LET o == Parse(Ev.p, rem, pos) IN
               /\ ~o.ok
               /\ Reject(Ev.p,
                         IF Asp \in {"pos", "rem"} THEN CHOOSE m \in o.msgs : TRUE
                         ELSE Ev.msg,
                         IF Asp = "rem" THEN o.pos ELSE Ev.pos)
            /\ l' = l + 1 /\ UNCHANGED <<sid, verdict>>

(* No action of the specification explains the event.                       *)
EvRefused == /\ More
             /\ ~ENABLED EvAccept /\ ~ENABLED EvReject
             /\ PrintT(<<"REFUSED", T.id, l, Parse(Ev.p, rem, pos), Ev>>)
             /\ verdict' = "refused"
             /\ UNCHANGED <<input, start, rem, pos, live, sid, l>>

Finished == /\ ~More /\ UNCHANGED tvars

TraceNext == EvAccept \/ EvReject \/ EvRefused \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Explained == verdict = "ok"
(* A session ends early only by a rejection.                                *)
Complete == (verdict = "ok" /\ l > Len(T.ev)) => (live => Len(T.ev) = T.n)
=============================================================================
