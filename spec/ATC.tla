-------------------------------- MODULE ATC --------------------------------
(***************************************************************************)
(* AMD ATC: RGB4, and RGBA8 with explicit/interpolated alpha (the library  *)
(* has one entry point, which reads the alpha half as interpolated).       *)
(***************************************************************************)
EXTENDS Bits
BC == INSTANCE BCn

ATCPalette(d, at) ==
  LET c0 == U16LE(d, at)                    \* 1 mode bit + 5:5:5
      c1 == U16LE(d, at + 2)                \* 5:6:5
      r0 == Expand(Field(c0, 10, 5), 5)  g0 == Expand(Field(c0, 5, 5), 5)  b0 == Expand(Field(c0, 0, 5), 5)
      r1 == Expand(Field(c1, 11, 5), 5)  g1 == Expand(Field(c1, 5, 6), 6)  b1 == Expand(Field(c1, 0, 5), 5)
      \* method 0: two points and their 5/8, 3/8 mixes
      Mix(x, y) == (5 * x + 3 * y) \div 8
      \* method 1: black, c0 - c1/4 (not below 0), c0, c1
      Sub(x, y) == Max2(0, x - y \div 4)
  IN IF Bit(c0, 15) = 0
     THEN << Pix(r0, g0, b0, 255), Pix(Mix(r0, r1), Mix(g0, g1), Mix(b0, b1), 255),
             Pix(Mix(r1, r0), Mix(g1, g0), Mix(b1, b0), 255), Pix(r1, g1, b1, 255) >>
     ELSE << Pix(0, 0, 0, 255), Pix(Sub(r0, r1), Sub(g0, g1), Sub(b0, b1), 255),
             Pix(r0, g0, b0, 255), Pix(r1, g1, b1, 255) >>

ATCRGBBlock(d, at) ==
  LET pal == ATCPalette(d, at)
  IN [i \in 1..16 |-> pal[1 + LE(d, at + 4, 2 * (i - 1), 2)]]
ATCRGBABlock(d, at) ==
  LET c == ATCRGBBlock(d, at + 8)  a == BC!Ramp(d, at)
  IN [i \in 1..16 |-> WithA(c[i], a[i])]
=============================================================================
