------------------------------- MODULE MCASTC -------------------------------
(***************************************************************************)
(* The ASTC of the specification on its own: what its parts promise each   *)
(* other (integer sequences are read back as they are packed, every range  *)
(* is reached, unquantised values are in order, bounds hold) and whole     *)
(* blocks against a writer that only knows the order of the fields.        *)
(***************************************************************************)
EXTENDS ASTC, Pack, FiniteSets
CONSTANTS Rounds, Kinds
VARIABLE t
Footprints == << <<4,4>>, <<5,4>>, <<5,5>>, <<6,5>>, <<6,6>>, <<8,5>>, <<8,6>>, <<8,8>>, <<10,5>>, <<10,6>>, <<10,8>>,
                 <<10,10>>, <<12,10>>, <<12,12>> >>
\* t = << kind, number, number, round >>
Init == t \in {x \in ({"mode"} \X (0..7) \X {0} \X {0})                              \* 8 lanes of 256 modes
              \cup ({"seq"} \X (1..17) \X {1} \X (0..(Rounds - 1)))           \* a colour range, a length
              \cup ({"wseq"} \X (2..15) \X {1} \X (0..(Rounds - 1)))
              \cup ({"part"} \X (1..14) \X {0} \X (2..4))
              \cup ({"block"} \X (0..15) \X {0} \X (0..(Rounds - 1)))
              \cup ({"packs", "decimate", "ends"} \X {0} \X {0} \X {0}) : x[1] \in Kinds}
Stop == CASE t[1] = "mode" -> 255 [] t[1] = "seq" -> 18 [] t[1] = "wseq" -> 64
          [] t[1] = "part" -> 15 [] t[1] = "block" -> 63 [] OTHER -> 0
Next == t[3] < Stop /\ t' = [t EXCEPT ![3] = @ + 1]
N(k, n) == Vary(977 * t[4] + 61 * t[3] + 4001 * t[2] + k, n)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

-----------------------------------------------------------------------------
(* Packing *)
Tuple3(n) == << n % 3, (n \div 3) % 3, (n \div 9) % 3, (n \div 27) % 3, (n \div 81) % 3 >>
Tuple5(n) == << n % 5, (n \div 5) % 5, (n \div 25) % 5 >>
Packs ==
  t[1] = "packs" =>
    /\ \A T \in 0..255 : Trits[T] \in [1..5 -> 0..2]
    /\ \A Q \in 0..127 : Quints[Q] \in [1..3 -> 0..4]
    /\ {Trits[T] : T \in 0..255} = {Tuple3(n) : n \in 0..242}       \* every five trits can be said
    /\ {Quints[Q] : Q \in 0..127} = {Tuple5(n) : n \in 0..124}      \* every three quints
    \* a short last group: its zero bits say zeros for the values that are not there
    /\ \A k \in 1..4 : \A x \in {Tuple3(n) : n \in 0..(<< 3, 9, 27, 81 >>[k] - 1)} :
         \E T \in 0..(Pow2(<< 2, 4, 5, 7 >>[k]) - 1) : \A j \in 1..k : Trits[T][j] = x[j]
    /\ \A k \in 1..2 : \A x \in {Tuple5(n) : n \in 0..(<< 5, 25 >>[k] - 1)} :
         \E Q \in 0..(Pow2(<< 3, 5 >>[k]) - 1) : \A j \in 1..k : Quints[Q][j] = x[j]

\* a sequence of values written: groups of five (three), plain bits and pieces of the packed number in turn
PieceT == << 2, 2, 1, 2, 1 >>
PieceQ == << 3, 2, 2 >>
Written(rng, vals) ==
  LET n == Len(vals)
      b == rng[2]
      g == IF rng[1] = 3 THEN 5 ELSE IF rng[1] = 5 THEN 3 ELSE 1
      At(i) == IF i <= n THEN vals[i] ELSE << 0, 0 >>
      \* the packed number of group k: with zeros for what is not there, as small as can be
      Number(k) ==
        LET want == [j \in 1..g |-> At((k - 1) * g + j)[2]]
            have == n - (k - 1) * g
            Fits(x) == \A j \in 1..g : j <= have => (IF rng[1] = 3 THEN Trits[x] ELSE Quints[x])[j] = want[j]
        IN CHOOSE x \in 0..(IF rng[1] = 3 THEN 255 ELSE 127) : Fits(x) /\ \A y \in 0..(x - 1) : ~Fits(y)
      Group(k) ==
        LET num == TLCEval(Number(k))
            piece == IF rng[1] = 3 THEN PieceT ELSE PieceQ
            RECURSIVE From(_, _)
            From(j, used) == IF j > g THEN << >>
                             ELSE << << At((k - 1) * g + j)[1], b >>, << num \div Pow2(used), piece[j] >> >>
                                  \o From(j + 1, used + piece[j])
        IN From(1, 0)
      all == IF rng[1] = 0 THEN [i \in 1..n |-> << vals[i][1], b >>]
             ELSE Cat([k \in 1..DivUp(n, g) |-> Group(k)])
  IN SubSeq(Stream(all), 1, SeqBits(rng, n))
ValueAt(rng, i, r) ==
  << IF r = 1 THEN Pow2(rng[2]) - 1 ELSE N(3 * i, rng[2]),
     IF rng[1] = 0 THEN 0 ELSE IF r = 1 THEN rng[1] - 1 ELSE N(3 * i + 1, 10) % rng[1] >>
Padded(bits, from) == Bytes([k \in 1..from |-> 1] \o bits \o [k \in 1..(256 - from - Len(bits)) |-> 1])   \* ones around it
SeqReadBack ==
  t[1] \in {"seq", "wseq"} =>
    LET rng == IF t[1] = "seq" THEN ColourRanges[t[2]] ELSE IF t[2] \in {8, 9} THEN << 0, 1 >> ELSE WeightRange(t[2])
        n == t[3]
        vals == [i \in 1..n |-> ValueAt(rng, i, t[4] % 3)]
        bits == TLCEval(Written(rng, vals))
        fits == Len(bits) <= 128
    IN fits => LET d == TLCEval(Padded(bits, 17)) IN IntSeq(d, 0, 17, rng, n) = vals

-----------------------------------------------------------------------------
(* Unquantised values *)
Values(rng) == (0..(Pow2(rng[2]) - 1)) \X (0..(IF rng[1] = 0 THEN 0 ELSE rng[1] - 1))
Levels ==
  /\ (t[1] = "seq" /\ t[3] = 1) =>
       LET rng == ColourRanges[t[2]]
           V == TLCEval({UnquantColour(rng, q) : q \in Values(rng)})
           n == Pow2(rng[2]) * (IF rng[1] = 0 THEN 1 ELSE rng[1])
       IN /\ V \subseteq 0..255 /\ Cardinality(V) = n /\ 0 \in V /\ 255 \in V
          /\ \A x \in V : (255 - x) \in V                         \* symmetric
          /\ \A x \in V \ {255} : \E y \in V : x < y /\ y - x <= 2 * (256 \div n) + 2      \* evenly spread
  /\ (t[1] = "wseq" /\ t[3] = 1 /\ t[2] \notin {8, 9}) =>
       LET rng == WeightRange(t[2])
           V == TLCEval({UnquantWeight(rng, q) : q \in Values(rng)})
           n == Pow2(rng[2]) * (IF rng[1] = 0 THEN 1 ELSE rng[1])
       IN /\ V \subseteq 0..64 /\ Cardinality(V) = n /\ 0 \in V /\ 64 \in V
          /\ \A x \in V : (64 - x) \in V

-----------------------------------------------------------------------------
(* Block modes *)
Modes ==
  t[1] = "mode" =>
    LET m == 256 * t[2] + t[3]
        d == << m % 256, m \div 256 >> \o [i \in 1..14 |-> 0]
    IN IsReservedMode(d, 0) \/ IsVoidExtent(d, 0) \/
         LET x == Mode(d, 0) IN
           /\ x.w \in 2..12 /\ x.h \in 2..12 /\ x.dual \in 0..1
           /\ x.R \in 2..7 \cup 10..15 /\ WeightRange(x.R)[2] \in 0..5
           \* a dual-plane block has twice the weights
           /\ LET H == Header(d, 0, 12, 12)
                  nw == x.w * x.h * (1 + x.dual)
                  wb == SeqBits(WeightRange(x.R), nw)
              IN (nw > 64 \/ wb < 24 \/ wb > 96) => ~H.legal

-----------------------------------------------------------------------------
(* Partitions *)
Partitions ==
  t[1] = "part" =>
    LET f == Footprints[t[2]]
        pn == t[4]
    IN \A j \in 0..3 :
         LET p == TLCEval(PartitionTable(64 * t[3] + 17 * j, pn, f[1], f[2]))
         IN Len(p) = f[1] * f[2] /\ \A i \in 1..Len(p) : p[i] \in 0..(pn - 1)

-----------------------------------------------------------------------------
(* End points: sixteen modes, their values and bounds *)
Corner == {0, 1, 63, 64, 127, 128, 191, 192, 255}
Ends ==
  t[1] = "ends" =>
    /\ \A cem \in 0..15 : \A x, y \in Corner : \A s \in 0..3 :
         LET v == [i \in 1..8 |-> IF i % 2 = 1 THEN (x + 85 * s * (i \div 3)) % 256 ELSE (y + 57 * s * (i \div 2)) % 256]
             e == Endpoints(cem, v)
         IN \A k \in 1..2 : \A c \in 1..4 :
              /\ e[k][c] \in 0..(IF (IF c = 4 THEN HdrAlpha(cem) ELSE HdrColour(cem)) THEN 4095 ELSE 255)
    \* interpolation stays between its end points and hits them
    /\ \A a, b \in Corner : LdrTexel(a, b, 0) = a /\ LdrTexel(a, b, 64) = b
         /\ \A w \in 1..63 : LdrTexel(a, b, w) \in Min2(a, b)..Max2(a, b)
    /\ \A a, b \in {0, 1, 15, 128, 1023, 1024, 2048, 3000, 4094, 4095} : \A w \in 0..64 :
         HdrTexel(a, b, w) \in 0..255
\* every texel mixes stored weights: the four shares are non-negative and add up to 16
Decimate ==
  t[1] = "decimate" =>
    \A k \in 1..14 : \A W \in 2..Footprints[k][1] : \A s \in 0..(Footprints[k][1] - 1) :
      LET bw == Footprints[k][1]
          ds == (1024 + bw \div 2) \div (bw - 1)
          gs == (ds * s * (W - 1) + 32) \div 64
      IN /\ gs \div 16 <= W - 1 /\ (gs \div 16 = W - 1 => gs % 16 = 0)       \* nothing past the last column
         /\ (s = 0 => gs = 0) /\ (s = bw - 1 => gs = 16 * (W - 1))
         /\ \A ft \in 0..15 : LET w11 == ((gs % 16) * ft + 8) \div 16
                              IN w11 >= 0 /\ ft - w11 >= 0 /\ (gs % 16) - w11 >= 0 /\ 16 - (gs % 16) - ft + w11 >= 0

-----------------------------------------------------------------------------
(* Whole blocks, one to four partitions, one plane or two, single or mixed end point classes.
   The grid has as many weights as the footprint, so that every texel has its own. *)
ModeFor(w, h, dual, R) ==  CHOOSE m \in 0..2047 :
  LET d == << m % 256, m \div 256 >> IN ~IsReservedMode(d, 0) /\ ~IsVoidExtent(d, 0)
       /\ Mode(d, 0) = [w |-> w, h |-> h, dual |-> dual, R |-> R]
BlockReadBack ==
  t[1] = "block" =>
    LET R == << 2, 3, 4, 5, 6, 7, 10, 11 >>[1 + ((t[2] + t[3]) % 8)]
        dual == (t[2] \div 8) % 2
        pn == 1 + (t[3] % (IF dual = 1 THEN 3 ELSE 4))
        side == IF dual = 1 \/ R > 6 THEN << 4, 4 >> ELSE << 5, 4 >>
        mode == ModeFor(side[1], side[2], dual, R)
        base == IF pn = 1 THEN 0 ELSE (t[3] \div 4) % 4            \* 0: all partitions share the mode
        \* the end point modes: LDR ones of small classes
        low(k) == N(300 + k, 2)
        cls(k) == IF base = 0 THEN 0 ELSE base - 1 + (N(310 + k, 1))
        cem == IF pn = 1 THEN << t[2] % 16 >> ELSE IF base = 0 THEN [k \in 1..pn |-> t[2] % 16]
               ELSE [k \in 1..pn |-> 4 * cls(k) + low(k)]
        nv == SumVals(cem, pn)
        rng == WeightRange(R)
        nw == side[1] * side[2] * (1 + dual)
        wvals == [i \in 1..nw |-> ValueAt(rng, i, t[4] % 3)]
        wbits == TLCEval(Written(rng, wvals))
        index == N(320, 10)
        plane == N(321, 2)
        extra == IF pn > 1 /\ base > 0 THEN 3 * pn - 4 ELSE 0
        \* class bits, then mode bits: six in the header, the rest below the weights
        multi == IF pn = 1 \/ base = 0 THEN << >>
                 ELSE Stream([k \in 1..pn |-> << cls(k) - (base - 1), 1 >>] \o [k \in 1..pn |-> << low(k), 2 >>])
        head == IF pn = 1 THEN << << mode, 11 >>, << 0, 2 >>, << cem[1], 4 >> >>
                ELSE << << mode, 11 >>, << pn - 1, 2 >>, << index, 10 >>, << base, 2 >> >>
        headbits == Stream(head) \o (IF pn = 1 THEN << >> ELSE IF base = 0 THEN BitsOf(cem[1], 4) ELSE SubSeq(multi, 1, 4))
        tail == (IF dual = 1 THEN BitsOf(plane, 2) ELSE << >>)
                \o (IF extra = 0 THEN << >> ELSE SubSeq(multi, 5, Len(multi)))
                \o [k \in 1..Len(wbits) |-> wbits[Len(wbits) + 1 - k]]       \* weights: from the top, downwards
        left == 128 - Len(headbits) - Len(tail)
        legal == nv <= 18 /\ left >= DivUp(13 * nv, 5) /\ Len(wbits) \in 24..96 /\ nw <= 64
    IN legal =>
      LET ok == {i \in 1..17 : SeqBits(ColourRanges[i], nv) <= left}
          crng == ColourRanges[CHOOSE i \in ok : \A j \in ok : i <= j]       \* the finest that fits
          cvals == [i \in 1..nv |-> ValueAt(crng, 50 + i, (t[4] + t[3]) % 3)]
          cbits == TLCEval(Written(crng, cvals))
          bits == headbits \o cbits \o [k \in 1..(left - Len(cbits)) |-> N(k, 1)] \o tail
          d == TLCEval(Bytes(bits))
          v == [i \in 1..nv |-> UnquantColour(crng, cvals[i])]
          ends == TLCEval([p \in 1..pn |-> Endpoints(cem[p], SubSeq(v, SumVals(cem, p - 1) + 1, SumVals(cem, p)))])
          part == IF pn = 1 THEN [i \in 1..(side[1] * side[2]) |-> 0] ELSE PartitionTable(index, pn, side[1], side[2])
          Texel(i) ==
            LET p == part[i] + 1
                w(k) == UnquantWeight(rng, wvals[(i - 1) * (1 + dual) + k])
                Ch(c) == LET x == IF dual = 1 /\ plane = c - 1 THEN w(2) ELSE w(1)
                         IN IF (IF c = 4 THEN HdrAlpha(cem[p]) ELSE HdrColour(cem[p]))
                            THEN HdrTexel(ends[p][1][c], ends[p][2][c], x) ELSE LdrTexel(ends[p][1][c], ends[p][2][c], x)
            IN Pix(Ch(1), Ch(2), Ch(3), Ch(4))
      IN /\ Len(bits) = 128
         /\ ASTCBlock(d, 0, side[1], side[2]) = [i \in 1..(side[1] * side[2]) |-> Texel(i)]
         /\ Give("astc", side[1], side[2], side[1], side[2], d)
=============================================================================
