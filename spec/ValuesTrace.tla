---------------------------- MODULE ValuesTrace -----------------------------
(* Recorded computations: how each value was made and what was seen of it. *)
EXTENDS Values, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES sid, l, verdict
tvars == <<reg, sid, l, verdict>>
T == Traces[sid]
Ev == T.ev[l]
More == verdict = "ok" /\ l <= Len(T.ev)
TInit == sid \in 1..Len(Traces) /\ l = 1 /\ verdict = "ok" /\ VInit
IsOp(op) == More /\ Ev.op = op
(* the value made last, as the harness renders it                            *)
Flat(v) == CASE v.t = "pos" -> v.v
             [] v.t = "acc" -> <<0>> \o v.res \o <<Len(v.rem)>> \o v.rem \o v.pos
             [] v.t = "rej" -> <<1>> \o v.msg \o v.pos
Seen == Ev.got = Flat(reg'[Len(reg')])
Step == l' = l + 1 /\ UNCHANGED <<sid, verdict>>
EPosition == IsOp("pos") /\ Position(Ev.l, Ev.c, Ev.ch) /\ Seen /\ Step
ENextChar == IsOp("nextchar") /\ NextChar(Ev.i, Ev.ch) /\ Seen /\ Step
ENextLine == IsOp("nextline") /\ NextLine(Ev.i, Ev.ch) /\ Seen /\ Step
EAccept == IsOp("accept") /\ MkAccept(Ev.r, Ev.w, Ev.i) /\ Seen /\ Step
EReject == IsOp("reject") /\ MkReject(Ev.m, Ev.i) /\ Seen /\ Step
EGet == IsOp("getpos") /\ GetPosition(Ev.i) /\ Seen /\ Step
EUnless == IsOp("unless") /\ UnlessError(Ev.i, Ev.j) /\ Seen /\ Step
ECompare == IsOp("cmp") /\ IsPos(Ev.i) /\ IsPos(Ev.j) /\ Ev.got = Six(reg[Ev.i].v, reg[Ev.j].v) /\ Step /\ UNCHANGED reg
ECall == IsOp("call") /\ Ev.got = Call(Ev.f, Ev.x) /\ Step /\ UNCHANGED reg
TStep == EPosition \/ ENextChar \/ ENextLine \/ EAccept \/ EReject \/ EGet \/ EUnless \/ ECompare \/ ECall
TRefused == /\ More /\ ~ENABLED TStep
            /\ PrintT(<<"REFUSED", T.id, l, Ev>>)
            /\ verdict' = "refused" /\ UNCHANGED <<reg, sid, l>>
TIdle == ~More /\ UNCHANGED tvars
TNext == TStep \/ TRefused \/ TIdle
TSpec == TInit /\ [][TNext]_tvars
Explained == verdict = "ok"
=============================================================================
