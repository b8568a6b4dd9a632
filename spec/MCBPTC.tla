------------------------------- MODULE MCBPTC -------------------------------
(***************************************************************************)
(* BC6H and BC7 against writers that only know the order of the fields:    *)
(* every mode takes exactly 128 bits, every bit of the block belongs to    *)
(* one field, and what is written is what is decoded.                      *)
(***************************************************************************)
EXTENDS BC6H, Pack
B7 == INSTANCE BC7
CONSTANTS Rounds, Kinds
VARIABLE t
\* t = << "bc7" | "bc6" | "tables", mode, partition, round >>
Init == t \in {x \in ({"bc7"} \X (0..7) \X {0} \X (0..(Rounds - 1)))
              \cup ({"bc6"} \X (0..31) \X {0} \X (0..(Rounds - 1)))
              \cup ({"tables"} \X (2..4) \X {0} \X {0}) : x[1] \in Kinds}
\* from partition to partition
Next == t[1] # "tables" /\ t[3] < (IF t[1] = "bc7" THEN 63 ELSE 31) /\ t' = [t EXCEPT ![3] = @ + 1]
N(k, n) == Vary(1000 * t[4] + 37 * t[3] + 131 * t[2] + k, n)     \* the k-th number of this state

-----------------------------------------------------------------------------
Lerp(a, b, w) == (a * (64 - w) + b * w + 32) \div 64
\* BC7, the fields in the order the format lists them
BC7Meant ==
  LET m == t[2]
      mi == B7!Mode(m)
      part == t[3] % Pow2(mi.pb)
      rot == N(1, mi.rb)
      sel == N(2, mi.isb)
      ne == 2 * mi.ns
      Ep(c, e) == N(10 + 10 * c + e, IF c = 3 THEN mi.ab ELSE mi.cb)
      np == IF mi.epb = 1 THEN ne ELSE IF mi.spb = 1 THEN mi.ns ELSE 0
      P(k) == N(60 + k, 1)
      Pof(e) == P(IF mi.epb = 1 THEN e ELSE e \div 2)
      Anchor(i) == \E s \in 0..(mi.ns - 1) : AnchorOf(mi.ns, part, s) = i
      \* an anchor's index has its top bit clear
      I1(i) == IF Anchor(i) THEN N(100 + i, mi.ib - 1) ELSE N(100 + i, mi.ib)
      I2(i) == IF i = 0 THEN N(200 + i, mi.ib2 - 1) ELSE N(200 + i, mi.ib2)
      msg == << << Pow2(m), m + 1 >>, << part, mi.pb >>, << rot, mi.rb >>, << sel, mi.isb >> >>
             \o Cat([c \in 1..3 |-> [e \in 1..ne |-> << Ep(c - 1, e - 1), mi.cb >>]])
             \o [e \in 1..ne |-> << IF mi.ab = 0 THEN 0 ELSE Ep(3, e - 1), mi.ab >>]
             \o [k \in 1..np |-> << P(k - 1), 1 >>]
             \o [i \in 1..16 |-> << I1(i - 1), IF Anchor(i - 1) THEN mi.ib - 1 ELSE mi.ib >>]
             \o (IF mi.ib2 = 0 THEN << >>
                 ELSE [i \in 1..16 |-> << I2(i - 1), IF i = 1 THEN mi.ib2 - 1 ELSE mi.ib2 >>])
      \* what was written, as colours: bits repeated to eight
      Full(v, n) == v * Pow2(8 - n) + (v \div Pow2(2 * n - 8))
      Val(c, e) == IF c = 3 /\ mi.ab = 0 THEN 255
                   ELSE LET n == IF c = 3 THEN mi.ab ELSE mi.cb
                        IN IF np > 0 THEN Full(2 * Ep(c, e) + Pof(e), n + 1) ELSE Full(Ep(c, e), n)
      Pixel(i) ==
        LET s == SubsetOf(mi.ns, part, i + 1)
            w1 == Weights(mi.ib)[I1(i) + 1]
            w2 == IF mi.ib2 = 0 THEN w1 ELSE Weights(mi.ib2)[I2(i) + 1]
            wc == IF sel = 0 THEN w1 ELSE w2
            wa == IF sel = 0 THEN w2 ELSE w1
            C(c) == Lerp(Val(c, 2 * s), Val(c, 2 * s + 1), IF c = 3 THEN wa ELSE wc)
            v == << C(0), C(1), C(2), C(3) >>
        IN IF rot = 0 THEN Pix(v[1], v[2], v[3], v[4])
           ELSE LET q == [v EXCEPT ![rot] = v[4], ![4] = v[rot]] IN Pix(q[1], q[2], q[3], q[4])
  IN [bits |-> Stream(msg), px |-> [i \in 1..16 |-> Pixel(i - 1)]]
BC7ReadBack ==
  t[1] = "bc7" => LET x == TLCEval(BC7Meant)
                  IN /\ Len(x.bits) = 128
                     /\ B7!BC7Block(Bytes(x.bits), 0) = x.px
                     /\ Give("bc7", 0, 0, 4, 4, Bytes(x.bits))

-----------------------------------------------------------------------------
\* BC6H: the fields are scattered; each bit of each component is in one place, each place holds one bit
Holds(mi) ==   \* << channel, end point, bit of it, position >>
  UNION { UNION { UNION { { << c, e, q[1] + j, q[3] + j >> : j \in 0..(q[2] - 1) }
                          : q \in { mi.f[c][e][k] : k \in 1..Len(mi.f[c][e]) } }
                  : e \in 1..(2 * mi.subsets) } : c \in 1..3 }
RECURSIVE SumLen(_, _, _)
SumLen(mi, c, e) ==
  IF c = 0 THEN 0 ELSE IF e = 0 THEN SumLen(mi, c - 1, 2 * mi.subsets)
  ELSE LET RECURSIVE L(_)
           L(k) == IF k = 0 THEN 0 ELSE mi.f[c][e][k][2] + L(k - 1)
       IN L(Len(mi.f[c][e])) + SumLen(mi, c, e - 1)
BC6Layout ==
  t[1] = "bc6" /\ IsMode(t[2]) /\ t[3] = 0 =>
    LET mi == ModeOf(t[2])
        H == TLCEval(Holds(mi))
        first == IF t[2] < 2 THEN 2 ELSE 5
        Width(c, e) == IF e = 1 \/ ~mi.tr THEN mi.bits ELSE mi.delta[c]
    IN /\ {h[4] : h \in H} = first..(mi.head - 1)                      \* every bit of the head
       /\ Cardinality(H) = mi.head - first                             \* once
       /\ SumLen(mi, 3, 2 * mi.subsets) = mi.head - first
       /\ \A c \in 1..3 : \A e \in 1..(2 * mi.subsets) :
             {h[3] : h \in {x \in H : x[1] = c /\ x[2] = e}} = 0..(Width(c, e) - 1)
       \* partition and indices fill the rest
       /\ mi.head + (IF mi.subsets = 2 THEN 5 + 16 * 3 - 2 ELSE 16 * 4 - 1) = 128
       \* the mode number is readable: two-bit modes cannot be taken for five-bit ones
       /\ (t[2] >= 2 => t[2] % 4 >= 2)
BC6ReadBack ==
  t[1] = "bc6" /\ IsMode(t[2]) =>
    LET mi == ModeOf(t[2])
        ne == 2 * mi.subsets
        first == IF t[2] < 2 THEN 2 ELSE 5
        H == TLCEval(Holds(mi))
        part == IF mi.subsets = 2 THEN t[3] ELSE 0
        nb == IF mi.subsets = 2 THEN 3 ELSE 4
        Comp(c, e) == LET n == IF e = 1 \/ ~mi.tr THEN mi.bits ELSE mi.delta[c]
                          r == (t[3] + t[4]) % 4                       \* zeros, ones and mixed
                      IN IF r = 1 THEN Pow2(n) - 1 ELSE IF r = 2 THEN 0 ELSE N(10 * c + e, n)
        At(p) == LET h == CHOOSE h \in H : h[4] = p IN Bit(Comp(h[1], h[2]), h[3])
        Anchor(i) == \E s \in 0..(mi.subsets - 1) : AnchorOf(mi.subsets, part, s) = i
        Ix(i) == N(100 + i, IF Anchor(i) THEN nb - 1 ELSE nb)
        bits == BitsOf(t[2], first) \o [k \in 1..(mi.head - first) |-> At(first + k - 1)]
                \o (IF mi.subsets = 2 THEN BitsOf(part, 5) ELSE << >>)
                \o Stream([i \in 1..16 |-> << Ix(i - 1), IF Anchor(i - 1) THEN nb - 1 ELSE nb >>])
        \* the end points meant
        Wrap(x, signed) == LET y == x % Pow2(mi.bits) IN IF signed THEN Signed(y, mi.bits) ELSE y
        End(c, e, signed) == IF e = 1 \/ ~mi.tr THEN Wrap(Comp(c, e), signed)
                             ELSE Wrap(Comp(c, 1) + Signed(Comp(c, e), mi.delta[c]), signed)
        Texel(i, signed) ==
          LET s == SubsetOf(mi.subsets, part, i + 1)
              w == Weights(nb)[Ix(i) + 1]
              U(v) == IF signed THEN UnqS(v, mi.bits) ELSE UnqU(v, mi.bits)
              V(c) == LET x == Lerp(U(End(c, 2 * s + 1, signed)), U(End(c, 2 * s + 2, signed)), w)
                      IN IF signed THEN (IF x < 0 THEN 0 ELSE HalfToU8((x * 31) \div 32)) ELSE HalfToU8((x * 31) \div 64)
          IN Pix(V(1), V(2), V(3), 255)
        d == TLCEval(Bytes(bits))
    IN /\ Len(bits) = 128
       /\ \A s \in BOOLEAN : BC6Block(d, 0, s) = [i \in 1..16 |-> Texel(i - 1, s)]
       /\ Give("bc6_signed", 0, 0, 4, 4, d) /\ Give("bc6_unsigned", 0, 0, 4, 4, d)
BC6Reserved ==
  t[1] = "bc6" /\ ~IsMode(t[2]) /\ t[2] % 4 >= 2 =>
    BC6Block(<< t[2] + 32 * (N(1, 3)) >> \o [i \in 1..15 |-> N(i, 8)], 0, FALSE) = [i \in 1..16 |-> 0]

-----------------------------------------------------------------------------
Tables ==
  t[1] = "tables" =>
    LET W == Weights(t[2]) IN
      /\ Len(W) = Pow2(t[2]) /\ W[1] = 0 /\ W[Len(W)] = 64
      /\ \A k \in 1..(Len(W) - 1) : W[k] < W[k + 1]
      /\ \A k \in 1..Len(W) : W[k] + W[Len(W) + 1 - k] = 64             \* end points may be swapped
      /\ \A bits \in {6, 7, 8, 9, 10, 11, 12, 16} :                                           \* expansion: into 0..65535, in order, the ends exact
           /\ UnqU(0, bits) = 0 /\ UnqU(Pow2(bits) - 1, bits) = 65535
           /\ UnqS(-Pow2(bits - 1), bits) >= -32768 /\ UnqS(Pow2(bits - 1) - 1, bits) = 32767
           /\ \A v \in 0..(Min2(Pow2(bits), 4096) - 2) : UnqU(v, bits) < UnqU(v + 1, bits)
           /\ \A v \in 0..(Min2(Pow2(bits - 1), 4096) - 2) :
                 UnqS(v, bits) < UnqS(v + 1, bits) /\ UnqS(-v, bits) = -UnqS(v, bits)
=============================================================================
