------------------------------ MODULE CrnCodec ------------------------------
(***************************************************************************)
(* The symbol codec of Crunch: a section of the file is a string of bits,  *)
(* most significant bit of each byte first, holding numbers of fixed width *)
(* and symbols of canonical Huffman codes, whose code lengths are sent     *)
(* first, run-length and Huffman coded themselves.                         *)
(*                                                                         *)
(* A section is <<start, size>>, a position `at' counts bits from its      *)
(* start; -1 is "not decodable": past the end of the section, a code no    *)
(* symbol has, or a code table that is none.                               *)
(***************************************************************************)
EXTENDS Bits, FiniteSets
LOCAL INSTANCE SequencesExt
Flat(ss) == FlattenSeq(ss)

Fail == -1

\* 16 bits from bit `at'; what lies behind the section reads as 0
SecByte(d, s, k) == IF k < s[2] THEN d[s[1] + k + 1] ELSE 0
Peek16(d, s, at) ==
  LET k == at \div 8
      v == 65536 * SecByte(d, s, k) + 256 * SecByte(d, s, k + 1) + SecByte(d, s, k + 2)
  IN (v \div Pow2(8 - (at % 8))) % 65536

\* a number of n <= 16 bits: <<value, position after it>>
Take(d, s, at, n) ==
  IF at = Fail \/ at + n > 8 * s[2] THEN <<0, Fail>> ELSE <<Peek16(d, s, at) \div Pow2(16 - n), at + n>>

(* --- canonical codes --------------------------------------------------- *)
(* Symbols in order of (length, number) get consecutive codes; a code of   *)
(* the next length starts where the last one ended, extended by zeros.     *)
MaxLen == 16
CountOf(cs, L) == Cardinality({i \in 1..Len(cs) : cs[i] = L})
RECURSIVE Firsts(_, _, _)
\* <<first code of length L, number of symbols of length L>> for L = 1, 2, ..
Firsts(cs, L, code) ==
  IF L > MaxLen THEN <<>>
  ELSE LET c == CountOf(cs, L) IN << <<code, c>> >> \o Firsts(cs, L + 1, 2 * (code + c))

NoModel == [n |-> 0, rows |-> <<>>, syms |-> <<>>]
\* rows: per used length, <<length, first code, codes below this (16 bits, left aligned) are of this
\* or a shorter length, number of symbols with shorter codes>>
MakeModel(cs) ==
  LET fs   == TLCEval(Firsts(cs, 1, 0))
      used == SelectSeq([L \in 1..MaxLen |-> L], LAMBDA L : fs[L][2] > 0)
      ids  == [i \in 1..Len(cs) |-> i - 1]
      Of(L) == SelectSeq(ids, LAMBDA i : cs[i + 1] = L)
      Before(j) == LET RECURSIVE S(_)
                       S(i) == IF i = 0 THEN 0 ELSE fs[used[i]][2] + S(i - 1)
                   IN S(j - 1)
  IN [n    |-> Len(cs),
      rows |-> [j \in 1..Len(used) |->
                 LET L == used[j] IN <<L, fs[L][1], (fs[L][1] + fs[L][2]) * Pow2(MaxLen - L), Before(j)>>],
      syms |-> Flat([j \in 1..Len(used) |-> Of(used[j])])]
\* code lengths some prefix code has (it need not be complete)
IsCode(cs) == /\ \E i \in 1..Len(cs) : cs[i] > 0
              /\ LET fs == TLCEval(Firsts(cs, 1, 0))
                 IN \A L \in 1..MaxLen : fs[L][1] + fs[L][2] <= Pow2(L)

\* one symbol: <<symbol, position after it>>
Symbol(d, s, at, m) ==
  IF at = Fail THEN <<0, Fail>>
  ELSE LET w  == Peek16(d, s, at)
           RECURSIVE Row(_)
           Row(j) == IF j > Len(m.rows) THEN 0 ELSE IF w < m.rows[j][3] THEN j ELSE Row(j + 1)
           j == Row(1)
       IN IF j = 0 THEN <<0, Fail>>
          ELSE LET r == m.rows[j]
               IN IF at + r[1] > 8 * s[2] THEN <<0, Fail>>
                  ELSE <<m.syms[1 + r[4] + (w \div Pow2(MaxLen - r[1])) - r[2]], at + r[1]>>

\* one symbol of each of the models: <<symbols, position after them>>
RECURSIVE Symbols(_, _, _, _)
Symbols(d, s, at, ms) ==
  IF Len(ms) = 0 THEN <<<<>>, at>>
  ELSE LET x == Symbol(d, s, at, Head(ms))
       IN IF x[2] = Fail THEN <<<<>>, Fail>>
          ELSE LET y == Symbols(d, s, x[2], Tail(ms)) IN <<<<x[1]>> \o y[1], y[2]>>

(* --- how a code is sent ------------------------------------------------ *)
LengthOrder == <<17, 18, 19, 20, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15, 16>>
MaxSymbols == 8192
RECURSIVE LengthLengths(_, _, _, _)
LengthLengths(d, s, at, k) ==
  IF k = 0 THEN <<<<>>, at>>
  ELSE LET x == Take(d, s, at, 3)
           y == LengthLengths(d, s, x[2], k - 1)
       IN IF x[2] = Fail THEN <<<<>>, Fail>> ELSE <<<<x[1]>> \o y[1], y[2]>>

Repeat(v, k) == [i \in 1..k |-> v]
\* the n code lengths, coded with m; cs = those that are known
RECURSIVE Lengths(_, _, _, _, _, _)
Lengths(d, s, at, m, n, cs) ==
  IF Len(cs) = n THEN <<cs, at>>
  ELSE LET x == Symbol(d, s, at, m)
           Run(bits, least, v) ==
             LET y == Take(d, s, x[2], bits)
             IN IF y[2] = Fail \/ y[1] + least > n - Len(cs) THEN <<cs, Fail>>
                ELSE Lengths(d, s, y[2], m, n, TLCEval(cs \o Repeat(v, y[1] + least)))
       IN IF x[2] = Fail THEN <<cs, Fail>>
          ELSE IF x[1] <= 16 THEN Lengths(d, s, x[2], m, n, Append(cs, x[1]))
          ELSE IF x[1] = 17 THEN Run(3, 3, 0)
          ELSE IF x[1] = 18 THEN Run(7, 11, 0)
          ELSE IF Len(cs) = 0 \/ cs[Max2(1, Len(cs))] = 0 THEN <<cs, Fail>>
          ELSE IF x[1] = 19 THEN Run(2, 3, cs[Len(cs)])
          ELSE Run(6, 7, cs[Len(cs)])

\* <<model, position after it>>
ReceiveModel(d, s, at) ==
  LET t == Take(d, s, at, 14)
      k == Take(d, s, t[2], 5)
  IN IF t[2] = Fail THEN <<NoModel, Fail>>
     ELSE IF t[1] = 0 THEN <<NoModel, t[2]>>
     ELSE IF k[2] = Fail \/ t[1] > MaxSymbols \/ k[1] < 1 \/ k[1] > 21 THEN <<NoModel, Fail>>
     ELSE LET ll == TLCEval(LengthLengths(d, s, k[2], k[1]))
              cl == TLCEval([i \in 1..21 |->
                       IF \E j \in 1..Len(ll[1]) : LengthOrder[j] = i - 1
                       THEN ll[1][CHOOSE j \in 1..Len(ll[1]) : LengthOrder[j] = i - 1] ELSE 0])
          IN IF ll[2] = Fail THEN <<NoModel, Fail>>
             ELSE IF ~IsCode(cl) THEN <<NoModel, Fail>>
             ELSE LET x == TLCEval(Lengths(d, s, ll[2], TLCEval(MakeModel(cl)), t[1], <<>>))
                  IN IF x[2] = Fail THEN <<NoModel, Fail>>
                     ELSE IF ~IsCode(x[1]) THEN <<NoModel, Fail>>
                     ELSE <<TLCEval(MakeModel(x[1])), x[2]>>
=============================================================================
