----------------------------- MODULE MCCrnCode -----------------------------
(* The canonical codes of CrnCodec, for every sequence of code lengths within the bounds: which of them are
   codes, that a code is prefix-free, and that what is written by adding up the intervals of the code words
   is read back, and nothing else is. *)
EXTENDS CrnCodec
CONSTANTS MaxSyms, MaxL
VARIABLE cs
Init == \E k \in 1..MaxSyms : cs \in [1..k -> 0..MaxL]
Next == UNCHANGED cs
Used == {i \in 1..Len(cs) : cs[i] > 0}
Share(i) == Pow2(16 - cs[i])              \* of 2^16
Before(i) == {j \in Used : cs[j] < cs[i] \/ (cs[j] = cs[i] /\ j < i)}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Share(i) + Total(S \ {i})
Lo(i) == Total(Before(i))                 \* code words own intervals [Lo, Lo + Share) of the 16-bit numbers
W(v) == << (v \div 256) % 256, v % 256, 170, 170 >>
Kraft == IsCode(cs) <=> (Used # {} /\ Total(Used) <= 65536)
M == TLCEval(MakeModel(cs))
ReadBack ==
  IsCode(cs) => LET m == TLCEval(MakeModel(cs)) IN
    /\ \A i \in Used : \A v \in {Lo(i), Lo(i) + Share(i) - 1, Lo(i) + (Share(i) \div 3)} :
         /\ Symbol(W(v), <<0, 4>>, 0, m) = << i - 1, cs[i] >>
         \* a code word has to end within the section
         /\ Symbol(<<0>> \o W(v), <<1, 2>>, 16 - cs[i] + 1, m)[2] # cs[i]
    /\ Total(Used) < 65536 => /\ Symbol(W(Total(Used)), <<0, 4>>, 0, m)[2] = Fail
                              /\ Symbol(W(65535), <<0, 4>>, 0, m)[2] = Fail
PrefixFree ==
  IsCode(cs) => \A i, j \in Used : i # j /\ cs[i] <= cs[j] => Lo(i) \div Share(i) # Lo(j) \div Share(i)
\* code words of a length are consecutive numbers
Consecutive ==
  IsCode(cs) => \A i \in Used : Lo(i) % Share(i) = 0 /\ \A j \in Used : cs[j] = cs[i] /\ j > i
                   /\ (\A k \in (i + 1)..(j - 1) : cs[k] # cs[i]) => Lo(j) = Lo(i) + Share(i)
=============================================================================
