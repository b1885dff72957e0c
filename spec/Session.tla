------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A parsing session as a client of the library drives it: an input text   *)
(* and a start position are opened, then parsers are applied one after the *)
(* other, each on the remaining input and position the previous one        *)
(* returned; a rejection ends the session.                                 *)
(***************************************************************************)
EXTENDS Metaparse

VARIABLES input, start,   \* what the session was opened with
          rem, pos,       \* remaining input and position
          live            \* FALSE after a rejection

svars == <<input, start, rem, pos, live>>

Open(i, st) == /\ input = i /\ start = st /\ rem = i /\ pos = st /\ live = TRUE

(* Applying parser p accepts with outcome o                                 *)
Accept(p, o) ==
    /\ live /\ o = Parse(p, rem, pos) /\ o.ok
    /\ rem' = o.rem /\ pos' = o.pos
    /\ UNCHANGED <<input, start, live>>

(* Applying parser p rejects with message m at position ep                  *)
Reject(p, m, ep) ==
    /\ live
    /\ LET o == Parse(p, rem, pos) IN ~o.ok /\ m \in o.msgs /\ ep = o.pos
    /\ live' = FALSE
    /\ UNCHANGED <<input, start, rem, pos>>

------------------------------------------------------------------------------
ConsumedText == SubSeq(input, 1, Len(input) - Len(rem))
(* The remaining input is what is left of the input...                      *)
RemIsSuffix == Len(rem) <= Len(input)
               /\ rem = SubSeq(input, Len(input) - Len(rem) + 1, Len(input))
(* ... and the position is the one of the text consumed so far.             *)
PosTracks == pos = Advance(start, ConsumedText)

(* What a text editor would display: line endings are CR LF, CR and LF, the *)
(* column restarts at 1 after each.                                         *)
RECURSIVE Editor(_, _)
Editor(ps, cs) ==
    IF cs = <<>> THEN ps
    ELSE Editor(IF cs[1] = LF /\ ps[3] = CR THEN <<ps[1], ps[2], LF>>
                ELSE IF cs[1] \in {CR, LF} THEN <<ps[1] + 1, 1, cs[1]>>
                ELSE <<ps[1], ps[2] + 1, cs[1]>>, Tail(cs))
(* The library's deviation from it: on a line that begins after CR LF the   *)
(* column is one too high.                                                  *)
EditorColumns == LET ed == Editor(start, ConsumedText) IN pos[1] = ed[1] /\ pos[2] = ed[2]
CrLfColumn(ps, ed) == ps[1] = ed[1] /\ ps[2] = ed[2] + 1 /\ ps[3] = ed[3]
=============================================================================
