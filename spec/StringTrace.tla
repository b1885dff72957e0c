---------------------------- MODULE StringTrace ----------------------------
(* Histories recorded from the library must be behaviours of StringSeq.    *)
EXTENDS StringSeq, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES sid, l, verdict
tvars == <<str, op, sid, l, verdict>>
T == Traces[sid]
Ev == T.ev[l]
More == verdict = "ok" /\ l <= Len(T.ev)

TInit == /\ sid \in 1..Len(Traces) /\ l = 1 /\ verdict = "ok"
         /\ str = T.init /\ op = <<"new">>

Fields == {"size", "empty", "ends", "fwd", "bwd", "at", "cstr", "targs", "iter"}
Seen(s) == \A f \in Fields : Ev.obs[f] = Obs(s)[f]

Step == CASE Ev.op = "new" -> UNCHANGED <<str, op>> /\ Seen(str)
          [] Ev.op = "pb" -> PushBack(Ev.c) /\ Seen(str')
          [] Ev.op = "pf" -> PushFront(Ev.c) /\ Seen(str')
          [] Ev.op = "xb" -> PopBack /\ Seen(str')
          [] Ev.op = "xf" -> PopFront /\ Seen(str')
          [] Ev.op = "cl" -> Clear /\ Seen(str')
          [] Ev.op = "eq" -> Compare(Ev.w) /\ Ev.res = EqObs(str, Ev.w)
          [] OTHER -> FALSE

TStep == More /\ Step /\ l' = l + 1 /\ UNCHANGED <<sid, verdict>>
TRefused == /\ More /\ ~ENABLED TStep
            /\ PrintT(<<"REFUSED", T.id, l>>)
            /\ verdict' = "refused" /\ UNCHANGED <<str, op, sid, l>>
TEnd == ~More /\ UNCHANGED tvars
TNext == TStep \/ TRefused \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
Explained == verdict = "ok"
=============================================================================
