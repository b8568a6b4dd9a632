-------------------------------- MODULE ASTC --------------------------------
(***************************************************************************)
(* Two-dimensional ASTC blocks of 16 bytes, any footprint bw x bh.         *)
(*                                                                         *)
(* Written from the Khronos Data Format specification (chapter ASTC), not  *)
(* from the decoder's tables: integer sequences are unpacked by the        *)
(* specification's bit equations.                                          *)
(***************************************************************************)
EXTENDS Half

ErrorColour == Pix(255, 0, 255, 255)

-----------------------------------------------------------------------------
(* Block mode *)
Mode(d, at) ==
  LET m == U16LE(d, at)
      A == Field(m, 5, 2)
      B == Field(m, 7, 2)
      D == Bit(m, 10)
      H == Bit(m, 9)
      M(w, h, dual, hi, r) == [w |-> w, h |-> h, dual |-> dual, R |-> 8 * hi + r]
      R1 == 2 * (m % 4) + Bit(m, 4)
      R2 == 2 * Field(m, 2, 2) + Bit(m, 4)
  IN IF m % 4 # 0
     THEN CASE Field(m, 2, 2) = 0 -> M(B + 4, A + 2, D, H, R1)
            [] Field(m, 2, 2) = 1 -> M(B + 8, A + 2, D, H, R1)
            [] Field(m, 2, 2) = 2 -> M(A + 2, B + 8, D, H, R1)
            [] OTHER -> IF Bit(m, 8) = 0 THEN M(A + 2, Bit(m, 7) + 6, D, H, R1)
                        ELSE M(Bit(m, 7) + 2, A + 2, D, H, R1)
     ELSE CASE B = 0 -> M(12, A + 2, D, H, R2)
            [] B = 1 -> M(A + 2, 12, D, H, R2)
            [] B = 2 -> M(A + 6, Field(m, 9, 2) + 6, 0, 0, R2)
            [] OTHER -> IF A = 0 THEN M(6, 10, D, H, R2) ELSE M(10, 6, D, H, R2)

IsVoidExtent(d, at) == U16LE(d, at) % 512 = 508
IsReservedMode(d, at) ==
  LET m == U16LE(d, at)
  IN m % 16 = 0 \/ (m % 4 = 0 /\ Field(m, 6, 3) = 7)

\* weight ranges: <<trits/quints radix or 0, plain bits>>; R = 0, 1, 8, 9 are reserved
WeightRange(R) ==
  CASE R = 2 -> <<0, 1>>  [] R = 3 -> <<3, 0>>  [] R = 4 -> <<0, 2>>  [] R = 5 -> <<5, 0>>
    [] R = 6 -> <<3, 1>>  [] R = 7 -> <<0, 3>>  [] R = 10 -> <<5, 1>> [] R = 11 -> <<3, 2>>
    [] R = 12 -> <<0, 4>> [] R = 13 -> <<5, 2>> [] R = 14 -> <<3, 3>> [] R = 15 -> <<0, 5>>

\* end point ranges from 256 levels down to 6
ColourRanges == << <<0,8>>, <<3,6>>, <<5,5>>, <<0,7>>, <<3,5>>, <<5,4>>, <<0,6>>, <<3,4>>, <<5,3>>,
                   <<0,5>>, <<3,3>>, <<5,2>>, <<0,4>>, <<3,2>>, <<5,1>>, <<0,3>>, <<3,1>> >>

\* bits an integer sequence of n values takes
SeqBits(rng, n) == n * rng[2] + (IF rng[1] = 3 THEN DivUp(8 * n, 5) ELSE IF rng[1] = 5 THEN DivUp(7 * n, 3) ELSE 0)

-----------------------------------------------------------------------------
(* Bounded integer sequences.  A value is <<plain bits, trit or quint>>. *)
TritsOf(T) ==
  LET b(i) == Bit(T, i)
      all == Field(T, 2, 3) = 7
      C == IF all THEN 4 * Field(T, 5, 3) + (T % 4) ELSE T % 32
      c(i) == Bit(C, i)
      t4 == IF all THEN 2 ELSE IF Field(T, 5, 2) = 3 THEN 2 ELSE b(7)
      t3 == IF all THEN 2 ELSE IF Field(T, 5, 2) = 3 THEN b(7) ELSE Field(T, 5, 2)
  IN IF C % 4 = 3 THEN << 2 * c(3) + c(2) * (1 - c(3)), c(4), 2, t3, t4 >>
     ELSE IF Field(C, 2, 2) = 3 THEN << C % 4, 2, 2, t3, t4 >>
     ELSE << 2 * c(1) + c(0) * (1 - c(1)), Field(C, 2, 2), c(4), t3, t4 >>
QuintsOf(Q) ==
  LET q(i) == Bit(Q, i)
  IN IF Field(Q, 1, 2) = 3 /\ Field(Q, 5, 2) = 0
     THEN << 4, 4, 4 * q(0) + 2 * q(4) * (1 - q(0)) + q(3) * (1 - q(0)) >>
     ELSE LET q2 == IF Field(Q, 1, 2) = 3 THEN 4 ELSE Field(Q, 5, 2)
              C == IF Field(Q, 1, 2) = 3 THEN 8 * Field(Q, 3, 2) + 2 * (3 - Field(Q, 5, 2)) + q(0) ELSE Q % 32
          IN IF C % 8 = 5 THEN << Field(C, 3, 2), 4, q2 >> ELSE << C % 8, Field(C, 3, 2), q2 >>
Trits  == [T \in 0..255 |-> TritsOf(T)]
Quints == [Q \in 0..127 |-> QuintsOf(Q)]

\* Values of the sequence of n values in range rng that starts at bit `from' of the 16-byte string s
IntSeq(s, at, from, rng, n) ==
  LET b == rng[2]
      end == from + SeqBits(rng, n)
      \* bits beyond the end of the sequence read as zero
      F(p, k) == IF p >= end \/ k = 0 THEN 0 ELSE LE(s, at, p, Min2(k, end - p))
  IN IF rng[1] = 0 THEN TLCEval([i \in 1..n |-> << F(from + (i - 1) * b, b), 0 >>])
     ELSE IF rng[1] = 3
     THEN LET off == << 0, 2, 4, 5, 7 >>
              grp == TLCEval([g \in 1..DivUp(n, 5) |->
                        LET p == from + (g - 1) * (8 + 5 * b)
                        IN Trits[ F(p + b, 2) + 4 * F(p + 2 * b + 2, 2) + 16 * F(p + 3 * b + 4, 1)
                                  + 32 * F(p + 4 * b + 5, 2) + 128 * F(p + 5 * b + 7, 1) ]])
          IN TLCEval([i \in 1..n |-> LET g == 1 + (i - 1) \div 5
                                         j == 1 + ((i - 1) % 5)
                                     IN << F(from + (g - 1) * (8 + 5 * b) + off[j] + (j - 1) * b, b), grp[g][j] >>])
     ELSE LET off == << 0, 3, 5 >>
              grp == TLCEval([g \in 1..DivUp(n, 3) |->
                        LET p == from + (g - 1) * (7 + 3 * b)
                        IN Quints[ F(p + b, 3) + 8 * F(p + 2 * b + 3, 2) + 32 * F(p + 3 * b + 5, 2) ]])
          IN TLCEval([i \in 1..n |-> LET g == 1 + (i - 1) \div 3
                                         j == 1 + ((i - 1) % 3)
                                     IN << F(from + (g - 1) * (7 + 3 * b) + off[j] + (j - 1) * b, b), grp[g][j] >>])

-----------------------------------------------------------------------------
(* Unquantisation *)
\* xor of an n-bit value with the replicated low bit
XorAll(v, bit, n) == IF bit = 1 THEN Pow2(n) - 1 - v ELSE v

\* repeat the top bits of a k-bit value down to n bits (k <= n <= 4k handled as needed)
RECURSIVE Replicate(_, _, _)
Replicate(v, k, n) == IF n <= k THEN v \div Pow2(k - n) ELSE v * Pow2(n - k) + Replicate(v, k, n - k)

UnquantColour(rng, q) ==
  LET b == rng[2]
      x == q[1] \div 2                         \* the plain bits above the lowest
      a == q[1] % 2
      B == IF rng[1] = 3
           THEN CASE b = 1 -> 0
                  [] b = 2 -> 278 * x                                   \* b000b0bb0
                  [] b = 3 -> 128 * x + 4 * x + x                       \* cb000cbcb
                  [] b = 4 -> 64 * x + x                                \* dcb000dcb
                  [] b = 5 -> 32 * x + x \div 4                         \* edcb000ed
                  [] b = 6 -> 16 * x + x \div 16                        \* fedcb000f
           ELSE CASE b = 1 -> 0
                  [] b = 2 -> 268 * x                                   \* b0000bb00
                  [] b = 3 -> 128 * x + 2 * x + x \div 2                \* cb0000cbc
                  [] b = 4 -> 64 * x + x \div 2                         \* dcb0000dc
                  [] b = 5 -> 32 * x + x \div 8                         \* edcb0000e
      C == IF rng[1] = 3 THEN << 204, 93, 44, 22, 11, 5 >>[b] ELSE << 113, 54, 26, 13, 6 >>[b]
  IN IF rng[1] = 0 THEN Replicate(q[1], b, 8)
     ELSE 128 * a + ((XorAll(q[2] * C + B, a, 9) \div 4) % 128)

UnquantWeight(rng, q) ==
  LET b == rng[2]
      a == q[1] % 2
      x == q[1] \div 2
      raw == IF rng[1] = 0 THEN Replicate(q[1], b, 6)
             ELSE IF b = 0 THEN (IF rng[1] = 3 THEN << 0, 32, 63 >> ELSE << 0, 16, 32, 47, 63 >>)[q[2] + 1]
             ELSE LET B == IF rng[1] = 3
                           THEN CASE b = 1 -> 0
                                  [] b = 2 -> 69 * x                    \* b000b0b
                                  [] b = 3 -> 32 * x + x                \* cb000cb
                           ELSE CASE b = 1 -> 0
                                  [] b = 2 -> 66 * x                    \* b0000b0
                      C == IF rng[1] = 3 THEN << 50, 23, 11 >>[b] ELSE << 28, 13 >>[b]
                  IN 32 * a + ((XorAll(q[2] * C + B, a, 7) \div 4) % 32)
  IN IF raw > 32 THEN raw + 1 ELSE raw

-----------------------------------------------------------------------------
(* End points: <<e0, e1>>, each <<r, g, b, a>>, from the values v of one partition *)
Grey(y, a) == << y, y, y, a >>
Contract(c) == << (c[1] + c[3]) \div 2, (c[2] + c[3]) \div 2, c[3], c[4] >>      \* \div is the floor, as >> is
Clamped(c, hi) == [i \in 1..4 |-> Clamp(c[i], 0, hi)]
ClampPair(e, hi) == << Clamped(e[1], hi), Clamped(e[2], hi) >>

\* bit_transfer_signed: <<offset, base>>
Transfer(off, base) == << Signed((off \div 2) % 64, 6), base \div 2 + (IF off >= 128 THEN 128 ELSE 0) >>

Swap(c, major) == CASE major = 1 -> << c[2], c[1], c[3] >> [] major = 2 -> << c[3], c[2], c[1] >> [] OTHER -> c

\* mode 7: HDR RGB, base and scale
HDR7(v) ==
  LET mv == (v[1] \div 64) + 4 * Bit(v[2], 7) + 8 * Bit(v[3], 7)
      major == IF mv \div 4 # 3 THEN mv \div 4 ELSE IF mv # 15 THEN mv % 4 ELSE 0
      mode == IF mv \div 4 # 3 THEN mv % 4 ELSE IF mv # 15 THEN 4 ELSE 5
      x == << Bit(v[2], 6), Bit(v[2], 5), Bit(v[3], 6), Bit(v[3], 5), Bit(v[4], 7), Bit(v[4], 6), Bit(v[4], 5) >>
      On(s, i, k) == IF mode \in s THEN x[i + 1] * Pow2(k) ELSE 0
      red == (v[1] % 64) + On({0,1,3,4,5}, 4, 6) + On({2}, 3, 6) + On({4}, 5, 7) + On({0,1,2,3}, 2, 7)
             + On({0,2}, 1, 8) + On({1,3}, 0, 8) + On({0,2}, 0, 9) + On({1}, 6, 9) + On({0}, 3, 10) + On({1}, 5, 10)
      green == (v[2] % 32) + On({4,5}, 0, 6) + On({1,3,4,5}, 1, 5)
      blue  == (v[3] % 32) + On({4,5}, 2, 6) + On({1,3,4,5}, 3, 5)
      scale == (v[4] % 32) + On({0,2,3,4,5}, 6, 5) + On({0,2,3,5}, 5, 6) + On({2}, 4, 7)
      sh == Pow2(<< 1, 1, 2, 3, 4, 5 >>[mode + 1])
      r == red * sh
      g == IF mode = 5 THEN green * sh ELSE r - green * sh
      b == IF mode = 5 THEN blue * sh ELSE r - blue * sh
      s == scale * sh
      c == Swap(<< r, g, b >>, major)
  IN ClampPair(<< << c[1] - s, c[2] - s, c[3] - s, 1920 >>, << c[1], c[2], c[3], 1920 >> >>, 4095)

\* modes 11, 14, 15: HDR RGB from six values, alphas given
HDR11(v, a0, a1) ==
  LET major == Bit(v[5], 7) + 2 * Bit(v[6], 7)
      mode == Bit(v[2], 7) + 2 * Bit(v[3], 7) + 4 * Bit(v[4], 7)
      x == << Bit(v[3], 6), Bit(v[4], 6), Bit(v[5], 6), Bit(v[6], 6), Bit(v[5], 5), Bit(v[6], 5) >>
      On(s, i, k) == IF mode \in s THEN x[i + 1] * Pow2(k) ELSE 0
      sh == Pow2(3 - (mode \div 2))
      dbits == << 7, 6, 7, 6, 5, 6, 5, 6 >>[mode + 1]
      va == sh * (v[1] + 256 * Bit(v[2], 6) + On({2,5,7}, 0, 9) + On({3}, 2, 9) + On({4,6}, 4, 9)
                  + On({4,6}, 5, 10) + On({5,7}, 1, 10) + On({6,7}, 2, 11))
      vc == sh * ((v[2] % 64) + On({2}, 1, 6) + On({3,5,6,7}, 3, 6) + On({5}, 2, 7))
      vb0 == sh * ((v[3] % 64) + On({0,1,3,4,6}, 0, 6) + On({1,4}, 2, 7))
      vb1 == sh * ((v[4] % 64) + On({0,1,3,4,6}, 1, 6) + On({1,4}, 3, 7))
      vd0 == sh * Signed(v[5] % Pow2(dbits), dbits)
      vd1 == sh * Signed(v[6] % Pow2(dbits), dbits)
      e0 == Swap(<< va - vc, va - vb0 - vc - vd0, va - vb1 - vc - vd1 >>, major)
      e1 == Swap(<< va, va - vb0, va - vb1 >>, major)
  IN IF major = 3
     THEN << << v[1] * 16, v[3] * 16, (v[5] % 128) * 32, a0 >>, << v[2] * 16, v[4] * 16, (v[6] % 128) * 32, a1 >> >>
     ELSE ClampPair(<< << e0[1], e0[2], e0[3], a0 >>, << e1[1], e1[2], e1[3], a1 >> >>, 4095)

\* the alphas of mode 15
HDRAlpha(v7, v8) ==
  LET sel == Bit(v7, 7) + 2 * Bit(v8, 7)
      a == v7 % 128
      b == v8 % 128
      base == (a + (IF sel = 3 THEN 0 ELSE ((b \div Pow2(6 - sel)) * 128))) * Pow2(4 - sel)
      off == Signed(b % Pow2(6 - sel), 6 - sel) * Pow2(4 - sel)
  IN IF sel = 3 THEN << a * 32, b * 32 >> ELSE << base, Clamp(base + off, 0, 4095) >>

Endpoints(cem, v) ==
  CASE cem = 0 -> << Grey(v[1], 255), Grey(v[2], 255) >>
    [] cem = 1 -> LET l0 == v[1] \div 4 + 64 * (v[2] \div 64)
                  IN << Grey(l0, 255), Grey(Min2(l0 + (v[2] % 64), 255), 255) >>
    [] cem = 2 -> IF v[2] >= v[1] THEN << Grey(v[1] * 16, 1920), Grey(v[2] * 16, 1920) >>
                  ELSE << Grey(v[2] * 16 + 8, 1920), Grey(v[1] * 16 - 8, 1920) >>
    [] cem = 3 -> LET hi == v[1] >= 128
                      y0 == IF hi THEN (v[2] \div 32) * 512 + (v[1] % 128) * 4 ELSE (v[2] \div 16) * 256 + (v[1] % 128) * 2
                      dd == IF hi THEN (v[2] % 32) * 4 ELSE (v[2] % 16) * 2
                  IN << Grey(y0, 1920), Grey(Min2(y0 + dd, 4095), 1920) >>
    [] cem = 4 -> << Grey(v[1], v[3]), Grey(v[2], v[4]) >>
    [] cem = 5 -> LET l == Transfer(v[2], v[1])
                      a == Transfer(v[4], v[3])
                  IN ClampPair(<< Grey(l[2], a[2]), Grey(l[2] + l[1], a[2] + a[1]) >>, 255)
    [] cem \in {6, 10} ->
                  << << (v[1] * v[4]) \div 256, (v[2] * v[4]) \div 256, (v[3] * v[4]) \div 256,
                        IF cem = 6 THEN 255 ELSE v[5] >>,
                     << v[1], v[2], v[3], IF cem = 6 THEN 255 ELSE v[6] >> >>
    [] cem = 7 -> HDR7(v)
    [] cem \in {8, 12} ->
                  LET a0 == IF cem = 8 THEN 255 ELSE v[7]
                      a1 == IF cem = 8 THEN 255 ELSE v[8]
                      c0 == << v[1], v[3], v[5], a0 >>
                      c1 == << v[2], v[4], v[6], a1 >>
                  IN IF v[2] + v[4] + v[6] >= v[1] + v[3] + v[5] THEN << c0, c1 >>
                     ELSE << Contract(c1), Contract(c0) >>
    [] cem \in {9, 13} ->
                  LET r == Transfer(v[2], v[1])
                      g == Transfer(v[4], v[3])
                      b == Transfer(v[6], v[5])
                      a == IF cem = 9 THEN << 0, 255 >> ELSE Transfer(v[8], v[7])
                      c0 == << r[2], g[2], b[2], a[2] >>
                      c1 == << r[2] + r[1], g[2] + g[1], b[2] + b[1], a[2] + a[1] >>
                  IN IF r[1] + g[1] + b[1] >= 0 THEN ClampPair(<< c0, c1 >>, 255)
                     ELSE ClampPair(<< Contract(c1), Contract(c0) >>, 255)
    [] cem = 11 -> HDR11(v, 1920, 1920)
    [] cem = 14 -> HDR11(v, v[7], v[8])
    [] cem = 15 -> LET a == HDRAlpha(v[7], v[8]) IN HDR11(v, a[1], a[2])

HdrColour(cem) == cem \in {2, 3, 7, 11, 14, 15}
HdrAlpha(cem)  == cem \in {2, 3, 7, 11, 15}

-----------------------------------------------------------------------------
(* Interpolation *)
LdrTexel(e0, e1, w) == (((e0 * 257 * (64 - w) + e1 * 257 * w + 32) \div 64) * 255 + 32768) \div 65536
HdrTexel(e0, e1, w) ==
  LET c == (e0 * 16 * (64 - w) + e1 * 16 * w + 32) \div 64
      m == c % 2048
      mt == IF m < 512 THEN 3 * m ELSE IF m < 1536 THEN 4 * m - 512 ELSE 5 * m - 2048
      h == (c \div 2048) * 1024 + mt \div 8
  IN IF c \div 2048 = 31 THEN 255 ELSE HalfToU8(h)

-----------------------------------------------------------------------------
(* The partition hash, on 32-bit words as <<high 16, low 16>> *)
Xor2(x, y) == << x[1] ^^ y[1], x[2] ^^ y[2] >>
Add2(x, y) == LET l == x[2] + y[2] IN << (x[1] + y[1] + l \div 65536) % 65536, l % 65536 >>
Sub2(x, y) == LET l == x[2] - y[2] IN << (x[1] - y[1] + (IF l < 0 THEN -1 ELSE 0)) % 65536, l % 65536 >>
Shr2(x, k) == IF k >= 16 THEN << 0, x[1] \div Pow2(k - 16) >>
              ELSE << x[1] \div Pow2(k), x[2] \div Pow2(k) + (x[1] % Pow2(k)) * Pow2(16 - k) >>
Shl2(x, k) == IF k >= 16 THEN << (x[2] * Pow2(k - 16)) % 65536, 0 >>
              ELSE << ((x[1] * Pow2(k)) % 65536) + x[2] \div Pow2(16 - k), (x[2] * Pow2(k)) % 65536 >>
Hash52(s) ==
  LET p0 == << 0, s >>
      p1 == Xor2(p0, Shr2(p0, 15))
      p2 == Sub2(p1, Shl2(p1, 17))
      p3 == Add2(p2, Shl2(p2, 7))
      p4 == Add2(p3, Shl2(p3, 4))
      p5 == Xor2(p4, Shr2(p4, 5))
      p6 == Add2(p5, Shl2(p5, 16))
      p7 == Xor2(p6, Shr2(p6, 7))
      p8 == Xor2(p7, Shr2(p7, 3))
      p9 == Xor2(p8, Shl2(p8, 6))
  IN Xor2(p9, Shr2(p9, 17))

\* partition (0-based) of the texel at (x, y)
PartitionTable(index, pn, bw, bh) ==
  LET seed == index + 1024 * (pn - 1)
      h == TLCEval(Hash52(seed))
      nib(i) == IF i < 4 THEN Field(h[2], 4 * i, 4) ELSE Field(h[1], 4 * (i - 4), 4)
      shA == IF Bit(seed, 1) = 1 THEN 4 ELSE 5
      shB == IF pn = 3 THEN 6 ELSE 5
      s1 == IF Bit(seed, 0) = 1 THEN shA ELSE shB
      s2 == IF Bit(seed, 0) = 1 THEN shB ELSE shA
      sd == TLCEval([i \in 0..7 |-> (nib(i) * nib(i)) \div Pow2(IF i % 2 = 0 THEN s1 ELSE s2)])
      off == << h[2] \div 16384 + 4 * (h[1] % 16), Field(h[2], 10, 6), Field(h[2], 6, 6), Field(h[2], 2, 6) >>
      k == IF bw * bh < 31 THEN 2 ELSE 1
      V(j, x, y) == IF j >= pn THEN 0 ELSE (sd[2 * j] * x * k + sd[2 * j + 1] * y * k + off[j + 1]) % 64
  IN TLCEval([i \in 1..(bw * bh) |->
        LET x == (i - 1) % bw
            y == (i - 1) \div bw
            a == V(0, x, y)
            b == V(1, x, y)
            c == V(2, x, y)
            e == V(3, x, y)
        IN IF a >= b /\ a >= c /\ a >= e THEN 0 ELSE IF b >= c /\ b >= e THEN 1 ELSE IF c >= e THEN 2 ELSE 3])

-----------------------------------------------------------------------------
RevByte == [x \in 0..255 |-> Bit(x,0)*128 + Bit(x,1)*64 + Bit(x,2)*32 + Bit(x,3)*16
                             + Bit(x,4)*8 + Bit(x,5)*4 + Bit(x,6)*2 + Bit(x,7)]
RECURSIVE SumVals(_, _)
SumVals(c, i) == IF i = 0 THEN 0 ELSE 2 * (c[i] \div 4) + 2 + SumVals(c, i - 1)

\* Everything the header of an ordinary (not void-extent, not reserved) block says
Header(d, at, bw, bh) ==
  LET F(k, n) == LE(d, at, k, n)
      m == Mode(d, at)
      pn == F(11, 2) + 1
      rng == WeightRange(m.R)
      nw == m.w * m.h * (1 + m.dual)
      wb == SeqBits(rng, nw)
      ok1 == m.w <= bw /\ m.h <= bh /\ nw <= 64 /\ wb >= 24 /\ wb <= 96 /\ ~(m.dual = 1 /\ pn = 4)
      base == F(23, 2)
      extra == IF pn > 1 /\ base > 0 THEN 3 * pn - 4 ELSE 0
      \* the mode bits of a multi-class block: the first ones in the header, the rest below the weights
      mb(k) == IF k < 4 - pn THEN F(25 + pn + k, 1) ELSE F(128 - wb - extra + k - (4 - pn), 1)
      cem == IF pn = 1 THEN << F(13, 4) >>
             ELSE IF base = 0 THEN [i \in 1..pn |-> F(25, 4)]
             ELSE [i \in 1..pn |-> 4 * (base - 1 + F(24 + i, 1)) + mb(2 * i - 2) + 2 * mb(2 * i - 1)]
      config == (IF pn = 1 THEN 17 ELSE 29) + extra + 2 * m.dual
      nv == SumVals(cem, pn)
      left == 128 - config - wb
      ok2 == nv <= 18 /\ left >= DivUp(13 * nv, 5)
      plane == IF m.dual = 1 THEN F(128 - wb - extra - 2, 2) ELSE 0
      crng == CHOOSE i \in 1..17 : SeqBits(ColourRanges[i], nv) <= left
                 /\ \A j \in 1..(i - 1) : SeqBits(ColourRanges[j], nv) > left
  IN IF ~ok1 THEN [legal |-> FALSE]
     ELSE IF ~ok2 THEN [legal |-> FALSE]
     ELSE [legal |-> TRUE, m |-> m, pn |-> pn, rng |-> rng, nw |-> nw, cem |-> TLCEval(cem), plane |-> plane,
           nv |-> nv, crng |-> ColourRanges[crng], start |-> IF pn = 1 THEN 17 ELSE 29, part |-> F(13, 10)]

\* the texels of an ordinary legal block with header H
Ordinary(d, at, bw, bh, H) ==
  LET raw == IntSeq(d, at, H.start, H.crng, H.nv)
      v == TLCEval([i \in 1..H.nv |-> UnquantColour(H.crng, raw[i])])
      from == [p \in 1..H.pn |-> SumVals(H.cem, p - 1)]
      ends == TLCEval([p \in 1..H.pn |->
                 Endpoints(H.cem[p], SubSeq(v, from[p] + 1, from[p] + 2 * (H.cem[p] \div 4) + 2))])
      rev == TLCEval([i \in 1..16 |-> RevByte[d[at + 17 - i]]])
      wraw == IntSeq(rev, 0, 0, H.rng, H.nw)
      wv == TLCEval([i \in 1..H.nw |-> UnquantWeight(H.rng, wraw[i])])
      planes == 1 + H.m.dual
      W(x, y, p) == IF x >= H.m.w \/ y >= H.m.h THEN 0 ELSE wv[1 + (y * H.m.w + x) * planes + p]
      ds == (1024 + bw \div 2) \div (bw - 1)
      dt == (1024 + bh \div 2) \div (bh - 1)
      part == IF H.pn > 1 THEN PartitionTable(H.part, H.pn, bw, bh) ELSE << >>
  IN [i \in 1..(bw * bh) |->
        LET s == (i - 1) % bw
            t == (i - 1) \div bw
            gs == (ds * s * (H.m.w - 1) + 32) \div 64
            gt == (dt * t * (H.m.h - 1) + 32) \div 64
            js == gs \div 16
            fs == gs % 16
            jt == gt \div 16
            ft == gt % 16
            w11 == (fs * ft + 8) \div 16
            w10 == ft - w11
            w01 == fs - w11
            w00 == 16 - fs - ft + w11
            Wt(p) == (W(js, jt, p) * w00 + W(js + 1, jt, p) * w01 + W(js, jt + 1, p) * w10
                      + W(js + 1, jt + 1, p) * w11 + 8) \div 16
            wa == Wt(0)
            wb == IF planes = 2 THEN Wt(1) ELSE 0
            p == IF H.pn > 1 THEN part[i] + 1 ELSE 1
            e == ends[p]
            cem == H.cem[p]
            Ch(c) == LET w == IF planes = 2 /\ H.plane = c - 1 THEN wb ELSE wa
                     IN IF (IF c = 4 THEN HdrAlpha(cem) ELSE HdrColour(cem))
                        THEN HdrTexel(e[1][c], e[2][c], w) ELSE LdrTexel(e[1][c], e[2][c], w)
        IN Pix(Ch(1), Ch(2), Ch(3), Ch(4))]

\* the bw * bh pixels of the block at byte offset `at' of d
ASTCBlock(d, at, bw, bh) ==
  LET Const(c) == [i \in 1..(bw * bh) |-> c]
  IN IF IsVoidExtent(d, at)
     THEN IF Bit(U16LE(d, at), 9) = 1
          THEN Const(Pix(HalfToU8(U16LE(d, at + 8)), HalfToU8(U16LE(d, at + 10)),
                         HalfToU8(U16LE(d, at + 12)), HalfToU8(U16LE(d, at + 14))))
          ELSE Const(Pix(d[at + 10], d[at + 12], d[at + 14], d[at + 16]))
     ELSE IF IsReservedMode(d, at) THEN Const(ErrorColour)
     ELSE LET H == TLCEval(Header(d, at, bw, bh))
          IN IF ~H.legal THEN Const(ErrorColour) ELSE Ordinary(d, at, bw, bh, H)
=============================================================================
