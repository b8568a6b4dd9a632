----------------------------- MODULE MCCrnSend -----------------------------
(* A writer of code tables: it sends the lengths of a code one by one or in runs, as it likes; what it has
   sent is received as the model of that code, whatever runs it chose, or refused if the lengths are no code. *)
EXTENDS CrnCodec
CONSTANTS Counts, Values, MaxRuns, AnyRun
VARIABLES cs,      \* the lengths to send
          sent,    \* how many are sent
          bits
vars == <<cs, sent, bits>>
Num(v, k) == [i \in 1..k |-> (v \div Pow2(k - i)) % 2]
\* a code for the 21 symbols of the lengths: five bits each, so symbol s has the code s
Head0(k) == Num(k, 14) \o Num(21, 5) \o Flat([i \in 1..21 |-> Num(5, 3)])
RECURSIVE Lists(_)
Lists(k) == IF k = 0 THEN {<<>>} ELSE {<<>>} \cup {Repeat(v, c) \o t : v \in Values, c \in Counts, t \in Lists(k - 1)}
Init == /\ cs \in Lists(MaxRuns) \ {<<>>}
        /\ sent = 0 /\ bits = Head0(Len(cs))
Same(v, k) == sent + k <= Len(cs) /\ \A i \in 1..k : cs[sent + i] = v
Put(sym, v, w, k) == /\ bits' = bits \o Num(sym, 5) \o Num(v, w)
                     /\ sent' = sent + k /\ UNCHANGED cs
One == sent < Len(cs) /\ Put(cs[sent + 1], 0, 0, 1)
\* all lengths of a run, or only the shortest and the longest there can be
Runs(v, w, least) == LET all == {k \in least..(least + Pow2(w) - 1) : Same(v, k)}
                     IN IF AnyRun THEN all ELSE {k \in all : k = least \/ k + 1 \notin all}
Run(sym, v, w, least) == \E k \in Runs(v, w, least) : Put(sym, k - least, w, k)
Again == sent > 0 /\ cs[sent] > 0
Next == \/ One
        \/ Run(17, 0, 3, 3) \/ Run(18, 0, 7, 11)
        \/ (Again /\ (Run(19, cs[sent], 2, 3) \/ Run(20, cs[sent], 6, 7)))
Spec == Init /\ [][Next]_vars
Octets == LET k == (Len(bits) + 7) \div 8
              B(i) == IF i > Len(bits) THEN 0 ELSE bits[i]
              V(i) == 128 * B(8*i-7) + 64 * B(8*i-6) + 32 * B(8*i-5) + 16 * B(8*i-4) + 8 * B(8*i-3) + 4 * B(8*i-2) + 2 * B(8*i-1) + B(8*i)
          IN [i \in 1..k |-> V(i)]
Received ==
  sent = Len(cs) =>
    LET x == TLCEval(ReceiveModel(TLCEval(Octets), << 0, (Len(bits) + 7) \div 8 >>, 0))
    IN IF IsCode(cs) THEN x = << MakeModel(cs), Len(bits) >> ELSE x[2] = Fail
\* a table that breaks off is refused
Short == sent < Len(cs) =>
  ReceiveModel(TLCEval(Octets), << 0, Len(bits) \div 8 >>, 0)[2] = Fail
=============================================================================
