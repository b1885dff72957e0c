------------------------------ MODULE Literal ------------------------------
(***************************************************************************)
(* Turning a string literal into a string.  The expansion feeds a fixed    *)
(* number of characters (the literal, padded with NULs), which are taken   *)
(* in chunks of powers of two until the length of the literal is reached.  *)
(* The limit on the length can be redefined at any time.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

CONSTANTS Chars, MaxLen, Limits, MaxTake, Block
VARIABLES limit,    \* the current limit
          lit,      \* the literal being turned into a string (<<>> when idle)
          fed,      \* the characters still to be taken
          todo,     \* how many of them belong to the literal
          made,     \* the string so far
          st        \* "idle" | "making" | "refused"
vars == <<limit, lit, fed, todo, made, st>>

MCChars == {0, 97, -128}
MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m
Pow2 == {2^k : k \in 0..9}
Take(n) == IF n = 0 THEN 0 ELSE MaxOf({p \in Pow2 : p <= n /\ p <= MaxTake})
Blocks(n) == IF n = 0 THEN 1 ELSE (n + Block - 1) \div Block
At(w, i) == IF i <= Len(w) THEN w[i] ELSE 0
Feed(w) == [i \in 1..(Blocks(limit) * Block) |-> At(w, i)]

Redefine(n) == st = "idle" /\ limit' = n /\ UNCHANGED <<lit, fed, todo, made, st>>
Begin(w) == /\ st = "idle" /\ lit' = w /\ UNCHANGED limit
            /\ IF Len(w) > limit THEN st' = "refused" /\ UNCHANGED <<fed, todo, made>>
               ELSE st' = "making" /\ fed' = Feed(w) /\ todo' = Len(w) /\ made' = <<>>
Chunk == /\ st = "making" /\ todo > 0
         /\ LET n == Take(todo)
            IN /\ made' = made \o SubSeq(fed, 1, n) /\ fed' = SubSeq(fed, n + 1, Len(fed)) /\ todo' = todo - n
         /\ UNCHANGED <<limit, lit, st>>
Done == /\ ((st = "making" /\ todo = 0) \/ st = "refused") /\ st' = "idle" /\ lit' = <<>> /\ fed' = <<>> /\ todo' = 0 /\ made' = <<>>
        /\ UNCHANGED limit

Init == limit \in Limits /\ lit = <<>> /\ fed = <<>> /\ todo = 0 /\ made = <<>> /\ st = "idle"
Next == (\E n \in Limits : Redefine(n)) \/ (\E n \in 0..MaxLen : \E w \in [1..n -> Chars] : Begin(w)) \/ Chunk \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Chunk) /\ WF_vars(Done)

(* The string is the literal: nothing truncated, padded, or out of order    *)
Faithful == (st = "making" /\ todo = 0) => made = lit
PrefixSoFar == st = "making" => made = SubSeq(lit, 1, Len(lit) - todo)
Enough == st = "making" => Len(fed) >= todo
RefusedIff == (st = "refused") => Len(lit) > limit
Ends == (st = "making") ~> (st = "idle")

(* What a client sees of one literal                                        *)
Outcome(lim, w) == IF Len(w) <= lim THEN <<"string", w>> ELSE <<"refused", <<>>>>
=============================================================================
