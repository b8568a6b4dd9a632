-------------------------------- MODULE BCn --------------------------------
(***************************************************************************)
(* BC1 .. BC5 (S3TC / RGTC) texel blocks.  `at' is the byte offset of the  *)
(* block in d.  A decoded block is a sequence of 16 pixels in row order.   *)
(***************************************************************************)
EXTENDS Bits

\* 5:6:5 end point -> 8 bits per channel by bit replication
R565(q) == Expand(Field(q, 11, 5), 5)
G565(q) == Expand(Field(q, 5, 6), 6)
B565(q) == Expand(Field(q, 0, 5), 5)

\* The palette of a colour block.  mode: "bc1" (3-colour blocks have an opaque
\* black), "bc1a" (that black is transparent), "four" (BC2/BC3: always the
\* 4-colour palette, whatever the order of the end points).
ColourPalette(d, at, mode) ==
  LET q0 == U16LE(d, at)
      q1 == U16LE(d, at + 2)
      r0 == R565(q0)  g0 == G565(q0)  b0 == B565(q0)
      r1 == R565(q1)  g1 == G565(q1)  b1 == B565(q1)
  IN IF q0 > q1 \/ mode = "four"
     THEN << Pix(r0, g0, b0, 255), Pix(r1, g1, b1, 255),
             Pix((2 * r0 + r1) \div 3, (2 * g0 + g1) \div 3, (2 * b0 + b1) \div 3, 255),
             Pix((r0 + 2 * r1) \div 3, (g0 + 2 * g1) \div 3, (b0 + 2 * b1) \div 3, 255) >>
     ELSE << Pix(r0, g0, b0, 255), Pix(r1, g1, b1, 255),
             Pix((r0 + r1) \div 2, (g0 + g1) \div 2, (b0 + b1) \div 2, 255),
             Pix(0, 0, 0, IF mode = "bc1a" THEN 0 ELSE 255) >>

ColourBlock(d, at, mode) ==
  LET pal == ColourPalette(d, at, mode)
  IN [i \in 1..16 |-> pal[1 + LE(d, at + 4, 2 * (i - 1), 2)]]

\* BC2: 4 explicit alpha bits per texel
ExplicitAlpha(d, at) == [i \in 1..16 |-> 17 * LE(d, at, 4 * (i - 1), 4)]

\* BC3 alpha / BC4 / BC5 channel: two end points and 3-bit indices
RampPalette(d, at) ==
  LET a0 == Byte(d, at)
      a1 == Byte(d, at + 1)
  IN IF a0 > a1
     THEN << a0, a1, (6 * a0 + a1) \div 7, (5 * a0 + 2 * a1) \div 7, (4 * a0 + 3 * a1) \div 7,
             (3 * a0 + 4 * a1) \div 7, (2 * a0 + 5 * a1) \div 7, (a0 + 6 * a1) \div 7 >>
     ELSE << a0, a1, (4 * a0 + a1) \div 5, (3 * a0 + 2 * a1) \div 5,
             (2 * a0 + 3 * a1) \div 5, (a0 + 4 * a1) \div 5, 0, 255 >>
Ramp(d, at) ==
  LET pal == RampPalette(d, at)
  IN [i \in 1..16 |-> pal[1 + LE(d, at + 2, 3 * (i - 1), 3)]]

BC1Block(d, at)  == ColourBlock(d, at, "bc1")
BC1aBlock(d, at) == ColourBlock(d, at, "bc1a")
BC2Block(d, at)  == LET c == ColourBlock(d, at + 8, "four")  a == ExplicitAlpha(d, at)
                    IN [i \in 1..16 |-> WithA(c[i], a[i])]
BC3Block(d, at)  == LET c == ColourBlock(d, at + 8, "four")  a == Ramp(d, at)
                    IN [i \in 1..16 |-> WithA(c[i], a[i])]
\* BC4/BC5 set only their channels of `under', the pixels already in the block buffer
BC4Over(d, at, under) == LET r == Ramp(d, at) IN [i \in 1..16 |-> WithR(under[i], r[i])]
BC5Over(d, at, under) == LET r == Ramp(d, at)  g == Ramp(d, at + 8)
                         IN [i \in 1..16 |-> WithG(WithR(under[i], r[i]), g[i])]
Black16 == [i \in 1..16 |-> OpaqueBlack]
BC4Block(d, at) == BC4Over(d, at, Black16)
BC5Block(d, at) == BC5Over(d, at, Black16)
=============================================================================
