-------------------------------- MODULE BC7 --------------------------------
(***************************************************************************)
(* BC7 (BPTC UNORM).                                                       *)
(***************************************************************************)
EXTENDS Bits, BPTC, FiniteSets

\* ns subsets, pb partition bits, rb rotation bits, isb index selection bit, cb colour bits,
\* ab alpha bits, epb: one p-bit per end point, spb: one p-bit per subset, ib/ib2 index bits
Mode(m) ==
  CASE m = 0 -> [ns |-> 3, pb |-> 4, rb |-> 0, isb |-> 0, cb |-> 4, ab |-> 0, epb |-> 1, spb |-> 0, ib |-> 3, ib2 |-> 0]
    [] m = 1 -> [ns |-> 2, pb |-> 6, rb |-> 0, isb |-> 0, cb |-> 6, ab |-> 0, epb |-> 0, spb |-> 1, ib |-> 3, ib2 |-> 0]
    [] m = 2 -> [ns |-> 3, pb |-> 6, rb |-> 0, isb |-> 0, cb |-> 5, ab |-> 0, epb |-> 0, spb |-> 0, ib |-> 2, ib2 |-> 0]
    [] m = 3 -> [ns |-> 2, pb |-> 6, rb |-> 0, isb |-> 0, cb |-> 7, ab |-> 0, epb |-> 1, spb |-> 0, ib |-> 2, ib2 |-> 0]
    [] m = 4 -> [ns |-> 1, pb |-> 0, rb |-> 2, isb |-> 1, cb |-> 5, ab |-> 6, epb |-> 0, spb |-> 0, ib |-> 2, ib2 |-> 3]
    [] m = 5 -> [ns |-> 1, pb |-> 0, rb |-> 2, isb |-> 0, cb |-> 7, ab |-> 8, epb |-> 0, spb |-> 0, ib |-> 2, ib2 |-> 2]
    [] m = 6 -> [ns |-> 1, pb |-> 0, rb |-> 0, isb |-> 0, cb |-> 7, ab |-> 7, epb |-> 1, spb |-> 0, ib |-> 4, ib2 |-> 0]
    [] m = 7 -> [ns |-> 2, pb |-> 6, rb |-> 0, isb |-> 0, cb |-> 5, ab |-> 5, epb |-> 1, spb |-> 0, ib |-> 2, ib2 |-> 0]

\* position of the index of texel i (1..16) in a string of nb-bit indices, the anchors one bit short
IndexPos(nb, anchors, i) == (i - 1) * nb - Cardinality({a \in anchors : a < i - 1})

BC7Block(d, at) ==
  LET first == Byte(d, at)
      mode == IF first = 0 THEN 8 ELSE CHOOSE m \in 0..7 : Field(first, 0, m + 1) = Pow2(m)
  IN IF mode = 8 THEN [i \in 1..16 |-> 0]          \* reserved: transparent black
     ELSE
  LET mi == Mode(mode)
      ns == mi.ns
      o1 == mode + 1                               \* partition
      o2 == o1 + mi.pb                             \* rotation
      o3 == o2 + mi.rb                             \* index selection
      o4 == o3 + mi.isb                            \* colour end points R, G, B
      o5 == o4 + 6 * ns * mi.cb                    \* alpha end points
      o6 == o5 + 2 * ns * mi.ab                    \* p-bits
      o7 == o6 + (IF mi.epb = 1 THEN 2 * ns ELSE IF mi.spb = 1 THEN ns ELSE 0)   \* primary indices
      part == LE(d, at, o1, mi.pb)
      rot  == LE(d, at, o2, mi.rb)
      sel  == LE(d, at, o3, mi.isb)
      hasP == mi.epb + mi.spb > 0
      PBit(e) == IF mi.epb = 1 THEN LE(d, at, o6 + e, 1) ELSE LE(d, at, o6 + (e \div 2), 1)
      Widen(v, n) == v * Pow2(8 - n) + (v \div Pow2(2 * n - 8))
      \* channel c (0 R, 1 G, 2 B, 3 A) of end point e (0 .. 2 ns - 1)
      EP(c, e) ==
        IF c = 3 /\ mi.ab = 0 THEN 255
        ELSE LET n == IF c = 3 THEN mi.ab ELSE mi.cb
                 v == LE(d, at, (IF c = 3 THEN o5 ELSE o4 + c * 2 * ns * mi.cb) + e * n, n)
             IN IF hasP THEN Widen(2 * v + PBit(e), n + 1) ELSE Widen(v, n)
      ep == TLCEval([c \in 0..3 |-> [e \in 0..(2 * ns - 1) |-> EP(c, e)]])
      anchors == {AnchorOf(ns, part, s) : s \in 0..(ns - 1)}
      Short(i) == IF (i - 1) \in anchors THEN 1 ELSE 0
      Idx1(i) == LE(d, at, o7 + IndexPos(mi.ib, anchors, i), mi.ib - Short(i))
      s7 == o7 + 16 * mi.ib - ns
      Idx2(i) == LE(d, at, s7 + IndexPos(mi.ib2, anchors, i), mi.ib2 - Short(i))
      W1(i) == Weights(mi.ib)[Idx1(i) + 1]
      W2(i) == IF mi.ib2 = 0 THEN W1(i) ELSE Weights(mi.ib2)[Idx2(i) + 1]
      Lerp(a, b, w) == (a * (64 - w) + b * w + 32) \div 64
  IN [i \in 1..16 |->
       LET s == SubsetOf(ns, part, i)
           wc == IF sel = 1 THEN W2(i) ELSE W1(i)
           wa == IF sel = 1 THEN W1(i) ELSE W2(i)
           r == Lerp(ep[0][2 * s], ep[0][2 * s + 1], wc)
           g == Lerp(ep[1][2 * s], ep[1][2 * s + 1], wc)
           b == Lerp(ep[2][2 * s], ep[2][2 * s + 1], wc)
           a == Lerp(ep[3][2 * s], ep[3][2 * s + 1], wa)
       IN CASE rot = 0 -> Pix(r, g, b, a)
            [] rot = 1 -> Pix(a, g, b, r)
            [] rot = 2 -> Pix(r, a, b, g)
            [] rot = 3 -> Pix(r, g, a, b)]
=============================================================================
