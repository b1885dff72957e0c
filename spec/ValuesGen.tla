----------------------------- MODULE ValuesGen ------------------------------
EXTENDS Metaparse, Randomization, IOUtils, Json
Quick == IOEnv.VP_TIER # "thorough"
Sz(q, th) == IF Quick THEN q ELSE th
AllChars == -128..127
U(ev) == [ev |-> ev]
EPos(l, k, ch) == [op |-> "pos", l |-> l, c |-> k, ch |-> ch]
ENC(i, ch) == [op |-> "nextchar", i |-> i, ch |-> ch]
ENL(i, ch) == [op |-> "nextline", i |-> i, ch |-> ch]
EAcc(r, w, i) == [op |-> "accept", r |-> r, w |-> w, i |-> i]
ERej(m, i) == [op |-> "reject", m |-> m, i |-> i]
EGP(i) == [op |-> "getpos", i |-> i]
EUn(i, j) == [op |-> "unless", i |-> i, j |-> j]
ECmp(i, j) == [op |-> "cmp", i |-> i, j |-> j]
ECall(f, x) == [op |-> "call", f |-> f, x |-> x]

(* all comparisons between positions that differ in any way                  *)
Ls == {1, 2, 9, 10}
Ks == {1, 2, 9, 10}
Ps == {-128, -1, 0, 10, 97}
AllPos == {<<l, k, ch>> : l \in Ls, k \in Ks, ch \in Ps} \cup {<<1000000, 1, 0>>, <<1, 1000000, 0>>, <<2147483600, 2147483600, 127>>, <<0, 0, 0>>, <<-5, 3, 0>>}
Compared(S) == SetToSeq({U(<<EPos(p[1], p[2], p[3]), EPos(q[1], q[2], q[3]), ECmp(1, 2), ECmp(2, 1), ECmp(1, 1)>>) : p \in S, q \in S})
(* line and column far apart, in either direction                            *)
Bigs == {3, 99, 100, 101, 127, 128, 255, 256, 257, 512, 999, 1000, 1001, 10000, 65535, 65536, 100001, 1000000, 16777216}
Far == SetToSeq({U(<<EPos(l, k, 97), EPos(l + d, j, ch), ECmp(1, 2), ECmp(2, 1)>>) :
                   l \in {1, 2}, k \in Bigs \cup {1}, d \in {0, 1}, j \in {1, 2} \cup Sz(RandomSubset(6, Bigs), Bigs), ch \in {-1, 97}})
       \o SetToSeq({U(<<EPos(l, k, ch), EPos(<<l + 1, 2 * l, 1>>[m], k, 10), ECmp(1, 2), ECmp(2, 1)>>) : l \in Bigs, k \in {1, 300}, m \in 1..3, ch \in {-128, 10, 127}})
       \o SetToSeq({U(<<EPos(3, 4, p), EPos(3, 4, q), ECmp(1, 2), ECmp(2, 1)>>) : p \in Sz(RandomSubset(12, AllChars), AllChars) \cup {-128, -1, 0, 127}, q \in {-128, -127, -1, 0, 1, 13, 126, 127}})
Comparisons == Far \o Compared(Sz(RandomSubset(24, AllPos), AllPos)) \o Compared({<<l, k, ch>> : l \in {1, 2}, k \in {1, 2}, ch \in {0, 97}})

Advances == SetToSeq({U(<<EPos(p[1], p[2], p[3]), ENC(1, ch), ENL(1, ch), ENC(2, 97), ENL(2, 10), ENL(3, 13), ENC(3, ch), ECmp(1, 2), ECmp(2, 3), ECmp(3, 2), ECmp(4, 2)>>) :
                      p \in {<<1, 1, 0>>, <<3, 7, 13>>}, ch \in AllChars})

(* random computations                                                       *)
RECURSIVE Rand(_, _, _)
Kind(n) == RandomElement(1..n)
Of(ks, k) == {i \in 1..Len(ks) : ks[i] = k}
Msgs == {MDigit, MEnd, MUser(3), MLit(97), MIndex(0, 2, 5), MUnpaired(1, 2, MLetter), MSpace}
Ress == {RSym(1), RChar(97), RInt(5), RChar(-1)}
Ws == {<<>>, <<97>>, <<97, 98, 99>>, <<10, -1>>}
Rand(n, ev, ks) ==
    IF n = 0 THEN ev
    ELSE LET k == Kind(10)  P == Of(ks, "p")  O == Of(ks, "o") IN
         IF P = {} \/ k = 1 THEN Rand(n - 1, Append(ev, EPos(Kind(5), Kind(5), RandomElement(Ps))), Append(ks, "p"))
         ELSE CASE k \in {2, 3} -> Rand(n - 1, Append(ev, ENC(RandomElement(P), RandomElement(AllChars))), Append(ks, "p"))
                [] k = 4 -> Rand(n - 1, Append(ev, ENL(RandomElement(P), RandomElement(AllChars))), Append(ks, "p"))
                [] k = 5 -> Rand(n - 1, Append(ev, EAcc(RandomElement(Ress), RandomElement(Ws), RandomElement(P))), Append(ks, "o"))
                [] k = 6 -> Rand(n - 1, Append(ev, ERej(RandomElement(Msgs), RandomElement(P))), Append(ks, "o"))
                [] k = 7 /\ O # {} -> Rand(n - 1, Append(ev, EGP(RandomElement(O))), Append(ks, "p"))
                [] k = 8 /\ O # {} -> Rand(n - 1, Append(ev, EUn(RandomElement(O), RandomElement(O))), Append(ks, "o"))
                [] OTHER -> Rand(n - 1, Append(ev, ECmp(RandomElement(P), RandomElement(P))), ks)
Randoms == TLCEval([i \in 1..Sz(400, 6000) |-> U(Rand(4 + (i % 12), <<>>, <<>>))])

Calls == SetToSeq({U([i \in 1..7 |-> IF i <= 5 THEN ECall(<<"is_digit", "is_letter", "is_lcase_letter", "is_ucase_letter", "is_whitespace">>[i], <<ch>>)
                                       ELSE ECall("digit_to_int", <<ch>>)]) : ch \in AllChars})
         \o SetToSeq({U(<<ECall("int_to_digit", <<d>>), ECall("int_to_digit", <<9 - d>>)>>) : d \in 0..9})
Edge == {-2000000000, -129, -128, -1, 0, 1, 9, 10, 97, 127, 128, 2000000000}
Ranges == SetToSeq({U(<<ECall("in_range", <<lo, hi, v>>), ECall("in_range", <<lo, hi, lo>>), ECall("in_range", <<lo, hi, hi>>)>>) : lo \in Edge, hi \in Edge, v \in Sz({-1, 0, 10, 127}, Edge)})
          \o SetToSeq({U([v \in 1..7 |-> ECall("in_range", <<lo, hi, v - 4>>)]) : lo \in -2..2, hi \in -2..2})
Wide == {<<h, l>> : h \in {-2000000000, -2, -1, 0, 1, 2, 3, 2000000000}, l \in {0, 1, 15, 2147483647}}
WideRanges == LET S == Sz(RandomSubset(14, Wide) \cup {<<0, 10>>, <<0, 20>>, <<2, 15>>, <<-2, 15>>}, Wide) IN
              SetToSeq({U(<<ECall("in_wide_range", <<lo, hi, v>>), ECall("in_wide_range", <<lo, hi, lo>>)>>) : lo \in S, hi \in S, v \in Sz(RandomSubset(8, S) \cup {<<2, 15>>}, S)})
Want == IF IOEnv.VP_PROP = "util" THEN Calls \o Ranges \o WideRanges ELSE Comparisons \o Advances \o Randoms
ASSUME ndJsonSerialize(IOEnv.VP_OUT, TLCEval(Want))
=============================================================================
