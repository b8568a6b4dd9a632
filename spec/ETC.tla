-------------------------------- MODULE ETC --------------------------------
(***************************************************************************)
(* ETC1, ETC2 (RGB, RGB + punch-through alpha, RGBA8) and EAC R11/RG11.    *)
(* A block is a big-endian 64-bit word; texels are stored column by column *)
(* (texel i of the word is column i \div 4, row i % 4).                    *)
(***************************************************************************)
EXTENDS Bits

Modifier == << <<2, 8>>, <<5, 17>>, <<9, 29>>, <<13, 42>>, <<18, 60>>, <<24, 80>>, <<33, 106>>, <<47, 183>> >>
Distance == << 3, 6, 11, 16, 23, 32, 41, 64 >>
EACTable ==
 << << -3, -6,  -9, -15, 2, 5, 8, 14 >>, << -3, -7, -10, -13, 2, 6, 9, 12 >>,
    << -2, -5,  -8, -13, 1, 4, 7, 12 >>, << -2, -4,  -6, -13, 1, 3, 5, 12 >>,
    << -3, -6,  -8, -12, 2, 5, 7, 11 >>, << -3, -7,  -9, -11, 2, 6, 8, 10 >>,
    << -4, -7,  -8, -11, 3, 6, 7, 10 >>, << -3, -5,  -8, -11, 2, 4, 7, 10 >>,
    << -2, -6,  -8, -10, 1, 5, 7,  9 >>, << -2, -5,  -8, -10, 1, 4, 7,  9 >>,
    << -2, -4,  -8, -10, 1, 3, 7,  9 >>, << -2, -5,  -7, -10, 1, 4, 6,  9 >>,
    << -3, -4,  -7, -10, 2, 3, 6,  9 >>, << -1, -2,  -3, -10, 0, 1, 2,  9 >>,
    << -4, -6,  -8,  -9, 3, 5, 7,  8 >>, << -3, -5,  -7,  -9, 2, 4, 6,  8 >> >>

\* texel x,y (0..3) has index number 4x+y in the word
Col(i) == (i - 1) % 4            \* for the i-th pixel (1..16) in row order
Row(i) == (i - 1) \div 4
Num(i) == 4 * Col(i) + Row(i)

\* 2-bit index of texel number n: msb in bits 31..16, lsb in bits 15..0
Msb(d, at, n) == BE(d, at, 16 + n, 16 + n)
Lsb(d, at, n) == BE(d, at, n, n)

\* adding a modifier to a colour <<r,g,b>>
Shade(c, m, a) == Pix(Clamp8(c[1] + m), Clamp8(c[2] + m), Clamp8(c[3] + m), a)

Flip(d, at)  == BE(d, at, 32, 32)
Diff(d, at)  == BE(d, at, 33, 33)
Table1(d, at) == BE(d, at, 39, 37)
Table2(d, at) == BE(d, at, 36, 34)

\* the sub-block (1 or 2) of pixel i
SubBlock(d, at, i) == IF Flip(d, at) = 1 THEN (IF Row(i) < 2 THEN 1 ELSE 2)
                                         ELSE (IF Col(i) < 2 THEN 1 ELSE 2)

\* base colours, individual mode (4 bits each) and differential mode (5 bits + 3-bit delta)
Individual(d, at) ==
  << << 17 * BE(d, at, 63, 60), 17 * BE(d, at, 55, 52), 17 * BE(d, at, 47, 44) >>,
     << 17 * BE(d, at, 59, 56), 17 * BE(d, at, 51, 48), 17 * BE(d, at, 43, 40) >> >>
Base5(d, at)  == << BE(d, at, 63, 59), BE(d, at, 55, 51), BE(d, at, 47, 43) >>
Delta3(d, at) == << Signed(BE(d, at, 58, 56), 3), Signed(BE(d, at, 50, 48), 3), Signed(BE(d, at, 42, 40), 3) >>
Sum5(d, at)   == LET b == Base5(d, at)  e == Delta3(d, at)
                 IN << b[1] + e[1], b[2] + e[2], b[3] + e[3] >>
Overflows(x)  == x < 0 \/ x > 31
\* ETC1 has no other use for an overflow: the sum wraps around modulo 32
Differential(d, at) ==
  LET b == Base5(d, at)  s == Sum5(d, at)
  IN << << Expand(b[1], 5), Expand(b[2], 5), Expand(b[3], 5) >>,
        << Expand(s[1] % 32, 5), Expand(s[2] % 32, 5), Expand(s[3] % 32, 5) >> >>

SubBlockDecode(d, at, base) ==
  LET t == << Table1(d, at), Table2(d, at) >>
  IN [i \in 1..16 |->
        LET s == SubBlock(d, at, i)
            n == Num(i)
            m == Modifier[t[s] + 1][Lsb(d, at, n) + 1]
        IN Shade(base[s], IF Msb(d, at, n) = 1 THEN -m ELSE m, 255)]

ETC1Block(d, at) ==
  SubBlockDecode(d, at, IF Diff(d, at) = 1 THEN Differential(d, at) ELSE Individual(d, at))

-----------------------------------------------------------------------------
(* ETC2: the modes hidden in overflowing differential blocks *)

\* "T", "H", "planar" or "differential"
DiffMode(d, at) ==
  LET s == Sum5(d, at)
  IN IF Overflows(s[1]) THEN "T"
     ELSE IF Overflows(s[2]) THEN "H"
     ELSE IF Overflows(s[3]) THEN "planar"
     ELSE "differential"

TPaints(d, at) ==
  LET c1 == << 17 * (4 * BE(d, at, 60, 59) + BE(d, at, 57, 56)), 17 * BE(d, at, 55, 52), 17 * BE(d, at, 51, 48) >>
      c2 == << 17 * BE(d, at, 47, 44), 17 * BE(d, at, 43, 40), 17 * BE(d, at, 39, 36) >>
      ds == Distance[1 + 2 * BE(d, at, 35, 34) + BE(d, at, 32, 32)]
  IN << Shade(c1, 0, 255), Shade(c2, ds, 255), Shade(c2, 0, 255), Shade(c2, -ds, 255) >>

HPaints(d, at) ==
  LET c1 == << 17 * BE(d, at, 62, 59), 17 * (2 * BE(d, at, 58, 56) + BE(d, at, 52, 52)),
               17 * (8 * BE(d, at, 51, 51) + BE(d, at, 49, 47)) >>
      c2 == << 17 * BE(d, at, 46, 43), 17 * BE(d, at, 42, 39), 17 * BE(d, at, 38, 35) >>
      v1 == 65536 * c1[1] + 256 * c1[2] + c1[3]
      v2 == 65536 * c2[1] + 256 * c2[2] + c2[3]
      ds == Distance[1 + 4 * BE(d, at, 34, 34) + 2 * BE(d, at, 32, 32) + (IF v1 >= v2 THEN 1 ELSE 0)]
  IN << Shade(c1, ds, 255), Shade(c1, -ds, 255), Shade(c2, ds, 255), Shade(c2, -ds, 255) >>

PaintDecode(d, at, paints) ==
  [i \in 1..16 |-> paints[1 + 2 * Msb(d, at, Num(i)) + Lsb(d, at, Num(i))]]

Exp6(x) == 4 * x + (x \div 16)
Exp7(x) == 2 * x + (x \div 64)
PlanarDecode(d, at) ==
  LET o == << Exp6(BE(d, at, 62, 57)), Exp7(64 * BE(d, at, 56, 56) + BE(d, at, 54, 49)),
              Exp6(32 * BE(d, at, 48, 48) + 8 * BE(d, at, 44, 43) + BE(d, at, 41, 39)) >>
      h == << Exp6(2 * BE(d, at, 38, 34) + BE(d, at, 32, 32)), Exp7(BE(d, at, 31, 25)), Exp6(BE(d, at, 24, 19)) >>
      v == << Exp6(BE(d, at, 18, 13)), Exp7(BE(d, at, 12, 6)), Exp6(BE(d, at, 5, 0)) >>
      At(k, x, y) == Clamp8((x * (h[k] - o[k]) + y * (v[k] - o[k]) + 4 * o[k] + 2) \div 4)
  IN [i \in 1..16 |-> Pix(At(1, Col(i), Row(i)), At(2, Col(i), Row(i)), At(3, Col(i), Row(i)), 255)]

ETC2Block(d, at) ==
  IF Diff(d, at) = 0 THEN SubBlockDecode(d, at, Individual(d, at))
  ELSE LET m == DiffMode(d, at)
       IN CASE m = "T" -> PaintDecode(d, at, TPaints(d, at))
            [] m = "H" -> PaintDecode(d, at, HPaints(d, at))
            [] m = "planar" -> PlanarDecode(d, at)
            [] OTHER -> SubBlockDecode(d, at, Differential(d, at))

\* Punch-through alpha: the diff bit says "opaque"; there is no individual mode.
\* In a block that is not opaque, index 2 (msb 1, lsb 0) is transparent; the library
\* keeps the colour of a transparent texel and only clears its alpha.
PunchedPaint(d, at, paints) ==
  PaintDecode(d, at, IF Diff(d, at) = 1 THEN paints ELSE [paints EXCEPT ![3] = WithA(@, 0)])
PunchedDifferential(d, at) ==
  LET t == << Table1(d, at), Table2(d, at) >>
      base == Differential(d, at)
      opaque == Diff(d, at) = 1
  IN [i \in 1..16 |->
        LET s == SubBlock(d, at, i)
            n == Num(i)
            l == Lsb(d, at, n)
            k == Msb(d, at, n)
            m == IF l = 0 /\ ~opaque THEN 0 ELSE Modifier[t[s] + 1][l + 1]
        IN Shade(base[s], IF k = 1 THEN -m ELSE m, IF ~opaque /\ k = 1 /\ l = 0 THEN 0 ELSE 255)]
ETC2A1Block(d, at) ==
  LET m == DiffMode(d, at)
  IN CASE m = "T" -> PunchedPaint(d, at, TPaints(d, at))
       [] m = "H" -> PunchedPaint(d, at, HPaints(d, at))
       [] m = "planar" -> PlanarDecode(d, at)
       [] OTHER -> PunchedDifferential(d, at)

-----------------------------------------------------------------------------
(* EAC: base, multiplier, table and sixteen 3-bit indices, the first texel in the top bits *)
EACIndex(d, at, n) == BE(d, at, 47 - 3 * n, 45 - 3 * n)
EACMod(d, at, n) == EACTable[BE(d, at, 51, 48) + 1][EACIndex(d, at, n) + 1]
EACMul(d, at) == BE(d, at, 55, 52)

\* 8-bit alpha
A8(d, at, i) == Clamp8(Byte(d, at) + EACMul(d, at) * EACMod(d, at, Num(i)))
A8Over(d, at, under) == [i \in 1..16 |-> WithA(under[i], A8(d, at, i))]
ETC2A8Block(d, at) == A8Over(d, at, ETC2Block(d, at + 8))

\* 11-bit channel, of which the library delivers the top 8 bits
R11(d, at, i, signed) ==
  LET mul == IF EACMul(d, at) = 0 THEN 1 ELSE 8 * EACMul(d, at)
      base == IF signed THEN 8 * Signed(Byte(d, at), 8) + 1023 ELSE 8 * Byte(d, at) + 4
  IN Clamp(base + mul * EACMod(d, at, Num(i)), 0, 2047) \div 8
R11Block(d, at, signed)  == [i \in 1..16 |-> Pix(R11(d, at, i, signed), 0, 0, 255)]
RG11Block(d, at, signed) == [i \in 1..16 |-> Pix(R11(d, at, i, signed), R11(d, at + 8, i, signed), 0, 255)]
=============================================================================
