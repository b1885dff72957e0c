------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What a user of the library sees of a parse:                             *)
(*   - build_parser turns a parser into a function from texts to results;  *)
(*     where the parser rejects, the program does not compile and the      *)
(*     diagnostic names the line, the column and the error message;        *)
(*   - debug_parsing_error prints a report of the parse and exits;         *)
(*   - every error message has a text.                                     *)
(***************************************************************************)
EXTENDS Metaparse

------------------------------------------------------------------------------
(* Texts of error messages                                                  *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Dec(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)

TDigit == <<68, 105, 103, 105, 116>>                          \* "Digit"
TExpected == <<32, 101, 120, 112, 101, 99, 116, 101, 100>>    \* " expected"
TEnd == <<69, 110, 100, 32, 111, 102, 32, 105, 110, 112, 117, 116>>                  \* "End of input"
TToFail == <<80, 97, 114, 115, 101, 114>> \o TExpected \o <<32, 116, 111, 32, 102, 97, 105, 108>>  \* "Parser expected to fail"
TLetter == <<76, 101, 116, 116, 101, 114>>                    \* "Letter"
TExpectedColon == <<69, 120, 112, 101, 99, 116, 101, 100, 58, 32>>                   \* "Expected: "
TNone == <<78, 111, 110, 101, 32, 111, 102, 32, 116, 104, 101>> \o TExpected
         \o <<32, 99, 97, 115, 101, 115, 32, 102, 111, 117, 110, 100>>               \* "None of the expected cases found"
TUnexpected == <<85, 110, 101, 120, 112, 101, 99, 116, 101, 100, 32>>                \* "Unexpected "
TCharacter == <<99, 104, 97, 114, 97, 99, 116, 101, 114>>     \* "character"
TEndOfInput == <<101, 110, 100, 32, 111, 102, 32, 105, 110, 112, 117, 116>>          \* "end of input"
TWhitespace == <<87, 104, 105, 116, 101, 115, 112, 97, 99, 101>>                     \* "Whitespace"
TIndex == <<105, 110, 100, 101, 120, 32, 40>>                 \* "index ("
TOutOf == <<41, 32, 111, 117, 116, 32, 111, 102, 32, 114, 97, 110, 103, 101, 32, 91>>  \* ") out of range ["
TSee == <<32, 40, 115, 101, 101, 32>>                         \* " (see "
TUser == <<117, 115, 101, 114, 32>>                           \* "user " (the harness' own errors)
TWrap == <<119, 114, 97, 112>>                                \* "wrap"  (the harness' own errors)

RECURSIVE Text(_)
Text(m) ==
    CASE m[1] = 1 -> TDigit \o TExpected
      [] m[1] = 2 -> TEnd \o TExpected
      [] m[1] = 3 -> TToFail
      [] m[1] = 4 -> TIndex \o Dec(m[4]) \o TOutOf \o Dec(m[2]) \o <<45>> \o Dec(m[3]) \o <<93>>
      [] m[1] = 5 -> TLetter \o TExpected
      [] m[1] = 6 -> TExpectedColon \o <<m[2]>>
      [] m[1] = 7 -> TNone
      [] m[1] = 8 -> TUnexpected \o TCharacter
      [] m[1] = 9 -> TUnexpected \o TEndOfInput
      [] m[1] = 10 -> Text(SubSeq(m, 4, Len(m))) \o TSee \o Dec(m[2]) \o <<58>> \o Dec(m[3]) \o <<41>>
      [] m[1] = 11 -> TWhitespace \o TExpected
      [] m[1] = 100 -> TUser \o Dec(m[2])
      [] m[1] = 101 -> TWrap \o Dec(m[2]) \o <<40>> \o Text(SubSeq(m, 3, Len(m))) \o <<41>>

------------------------------------------------------------------------------
(* The printed report, line by line                                         *)
HTitle == <<67, 111, 109, 112, 105, 108, 101, 45, 116, 105, 109, 101, 32, 112, 97, 114, 115, 105, 110, 103, 32, 114, 101, 115, 117, 108, 116, 115>>
HRule == [i \in 1..28 |-> 45]
HInput == <<73, 110, 112, 117, 116, 32, 116, 101, 120, 116, 58>>      \* "Input text:"
HOk == <<80, 97, 114, 115, 105, 110, 103, 32, 119, 97, 115, 32, 115, 117, 99, 99, 101, 115, 115, 102, 117, 108, 46, 32, 82, 101, 109, 97, 105, 110, 105, 110,
         103, 32, 115, 116, 114, 105, 110, 103, 32, 105, 115, 58>>    \* "Parsing was successful. Remaining string is:"
HFailed == <<80, 97, 114, 115, 105, 110, 103, 32, 102, 97, 105, 108, 101, 100, 58>>  \* "Parsing failed:"
HLine == <<108, 105, 110, 101, 32>>                           \* "line "
HCol == <<44, 32, 99, 111, 108, 32>>                          \* ", col "
HSep == <<58, 32>>                                            \* ": "

Header(w) == <<HTitle, HRule, HInput, w, <<>>>>
Good(o) == <<HOk, o.rem>>
Bad(o, m) == <<HFailed, HLine \o Dec(o.pos[1]) \o HCol \o Dec(o.pos[2]) \o HSep \o Text(m)>>
RECURSIVE Lines(_)
Lines(ls) == IF ls = <<>> THEN <<>> ELSE ls[1] \o <<LF>> \o Lines(Tail(ls))
(* The reports that are right for parser p on text w                        *)
Reports(p, w) ==
    LET o == Parse(p, w, StartPos) IN
    IF o.ok THEN {Lines(Header(w) \o Good(o))} ELSE {Lines(Header(w) \o Bad(o, m)) : m \in o.msgs}

------------------------------------------------------------------------------
(* The client as a state machine: one parser and text at a time             *)
CONSTANTS Parsers, Texts
VARIABLES job,      \* <<parser, text>>, or <<>>
          mode,     \* "build" | "debug"
          phase,    \* "idle" "parsed" "title" "input" "verdict" "ended" "refused"
          o, m,     \* outcome and the message chosen for it
          printed,  \* what has been written
          value     \* what build_parser yielded
rvars == <<job, mode, phase, o, m, printed, value>>

RInit == job = <<>> /\ mode = "build" /\ phase = "idle" /\ o = <<>> /\ m = <<>> /\ printed = <<>> /\ value = <<>>
Begin(p, w, md) ==
    /\ phase = "idle" /\ job' = <<p, w>> /\ mode' = md /\ phase' = "parsed"
    /\ o' = Parse(p, w, StartPos)
    /\ IF o'.ok THEN m' = <<>> ELSE m' \in o'.msgs
    /\ UNCHANGED <<printed, value>>
Build == /\ phase = "parsed" /\ mode = "build"
         /\ IF o.ok THEN value' = o.res /\ phase' = "ended" ELSE phase' = "refused" /\ UNCHANGED value
         /\ UNCHANGED <<job, mode, o, m, printed>>
Put(ls, next) == printed' = printed \o Lines(ls) /\ phase' = next /\ UNCHANGED <<job, mode, o, m, value>>
PrintTitle == phase = "parsed" /\ mode = "debug" /\ Put(<<HTitle, HRule>>, "title")
PrintInput == phase = "title" /\ Put(<<HInput, job[2], <<>>>>, "input")
PrintVerdict == phase = "input" /\ Put(IF o.ok THEN Good(o) ELSE Bad(o, m), "verdict")
Exit == phase = "verdict" /\ phase' = "ended" /\ UNCHANGED <<job, mode, o, m, printed, value>>
Again == phase \in {"ended", "refused"} /\ phase' = "idle" /\ job' = <<>> /\ o' = <<>> /\ m' = <<>> /\ printed' = <<>> /\ value' = <<>> /\ UNCHANGED mode
RNext == (\E p \in Parsers : \E w \in Texts : \E md \in {"build", "debug"} : Begin(p, w, md))
         \/ Build \/ PrintTitle \/ PrintInput \/ PrintVerdict \/ Exit \/ Again
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(Build \/ PrintTitle \/ PrintInput \/ PrintVerdict \/ Exit)

(* A program using build_parser compiles exactly if the text is accepted,   *)
(* whatever is left of the text                                             *)
RefusedIffRejected == (phase = "refused") => ~Parse(job[1], job[2], StartPos).ok
BuiltIsResult == (phase = "ended" /\ mode = "build") => (o.ok /\ value = Parse(job[1], job[2], StartPos).res)
(* The printed report is one of the right ones, and is printed in full      *)
ReportRight == (phase = "ended" /\ mode = "debug") => printed \in Reports(job[1], job[2])
(* The place reported lies within the text                                  *)
PlaceInText == (phase # "idle" /\ ~o.ok) => Moved(o.pos) \/ \E n \in 0..Len(job[2]) : o.pos = Advance(StartPos, SubSeq(job[2], 1, n))
EveryMessageHasText == (phase # "idle" /\ ~o.ok) => Text(m) # <<>>
Answers == (phase = "parsed") ~> (phase \in {"ended", "refused"})

MCParsers == {Lit(97), PInt, Sq(<<Lit(97), Lit(98)>>), Middle(Lit(40), PInt, Lit(41)), OneOf(<<Lit(97), Sq(<<Lit(97), Digit>>), Letter>>),
              Nth(3, <<Lit(97)>>), Entire(Rep("rep", Letter), MEnd), TErrMsg(Space, 2), Fail(MUser(4)), Ret(RSym(1)), Spaces, Fafce(Lit(98)),
              PRange(48, 57), ChMsg(Lit(98), MUser(2))}
MCTexts == UNION {[1..n -> {97, 98, 40, 49, LF}] : n \in 0..3}
=============================================================================
