------------------------------- MODULE PVRTC -------------------------------
(***************************************************************************)
(* PVRTC (version 1) images, 2 and 4 bits per pixel.  A block's texels     *)
(* depend on its own 8 bytes and on the colours (and, in the 2bpp          *)
(* interpolated modes, the weights) of its eight neighbours, which wrap    *)
(* around at the image edges; blocks are stored in Morton order.           *)
(***************************************************************************)
EXTENDS Bits

\* Morton number of block (x, y) of a grid whose smaller side is m blocks (powers of two)
RECURSIVE Interleave(_, _, _)
Interleave(x, y, m) == IF m <= 1 THEN 0 ELSE (y % 2) + 2 * (x % 2) + 4 * Interleave(x \div 2, y \div 2, m \div 2)
\* the bits beyond the square part come from the larger side alone, as the smaller one has none
Morton(x, y, m) == Interleave(x, y, m) + m * m * ((x \div m) + (y \div m))

RECURSIVE IsPow2(_)
IsPow2(n) == IF n = 1 THEN TRUE ELSE IF n <= 0 \/ n % 2 = 1 THEN FALSE ELSE IsPow2(n \div 2)

-----------------------------------------------------------------------------
(* colours: <<r, g, b, a>> of 5, 5, 5 and 4 bits *)
Wide(x, n) == x * Pow2(5 - n) + (x \div Pow2(2 * n - 5))          \* n-bit value widened to 5 bits
\* as 3-bit blue of colour A: bits b2 b1 b0 b2 b1
ColourA(d, at) ==
  LET c == U16LE(d, at + 4)
  IN IF Bit(c, 15) = 1 THEN << Field(c, 10, 5), Field(c, 5, 5), Wide(Field(c, 1, 4), 4), 15 >>
     ELSE << Wide(Field(c, 8, 4), 4), Wide(Field(c, 4, 4), 4), Wide(Field(c, 1, 3), 3), 2 * Field(c, 12, 3) >>
ColourB(d, at) ==
  LET c == U16LE(d, at + 6)
  IN IF Bit(c, 15) = 1 THEN << Field(c, 10, 5), Field(c, 5, 5), Field(c, 0, 5), 15 >>
     ELSE << Wide(Field(c, 8, 4), 4), Wide(Field(c, 4, 4), 4), Wide(Field(c, 0, 4), 4), 2 * Field(c, 12, 3) >>

-----------------------------------------------------------------------------
(* weights, out of 8 *)
Standard == << 0, 3, 5, 8 >>
Punch    == << 0, 4, 4, 8 >>
ModeBit(d, at) == d[at + 5] % 2

Weights4(d, at) ==
  [i \in 1..16 |-> (IF ModeBit(d, at) = 1 THEN Punch ELSE Standard)[LE(d, at, 2 * (i - 1), 2) + 1]]
Punched4(d, at, i) == ModeBit(d, at) = 1 /\ LE(d, at, 2 * (i - 1), 2) = 2

(* 2bpp, mode 1: texels with x + y even have their own 2-bit weight, the others are interpolated:
   -1 from above and below, -2 from left and right, -3 from all four.  Where bit 0 selects
   one-axis interpolation it is not available for texel 0, and bit 20 is not for texel 20. *)
Weights2(d, at) ==
  LET oneAxis == Bit(d[at + 1], 0) = 1
      mark == IF ~oneAxis THEN -3 ELSE IF Bit(d[at + 3], 4) = 1 THEN -1 ELSE -2
      high(v) == IF v >= 2 THEN 8 ELSE 0
      two(y, x) == LE(d, at, 2 * (4 * y + x \div 2), 2)
  IN IF ModeBit(d, at) = 0 THEN [i \in 1..32 |-> 8 * LE(d, at, i - 1, 1)]
     ELSE [i \in 1..32 |->
             LET x == (i - 1) % 8
                 y == (i - 1) \div 8
             IN IF (x + y) % 2 = 1 THEN mark
                ELSE IF i = 1 THEN high(two(y, x))
                ELSE IF i = 21 /\ oneAxis THEN high(two(y, x))
                ELSE Standard[two(y, x) + 1]]

-----------------------------------------------------------------------------
(* how much of the block before, this one and the one after a row or column takes *)
Along(size, k) ==       \* k-th of size texels: weights in units of 1/size
  IF k < size \div 2 THEN << size \div 2 - k, size \div 2 + k, 0 >> ELSE << 0, size + size \div 2 - k, k - size \div 2 >>

Blend(c1, c2, w) == (c1 * (8 - w) + c2 * w) \div 8

\* t.w x t.h image; two = 2bpp.  Returns the pixel at (px, py).
ImagePixels(t, two) ==
  LET bw == IF two THEN 8 ELSE 4
      nx == DivUp(t.w, bw)
      ny == DivUp(t.h, 4)
      m == Min2(nx, ny)
      At(bx, by) == 8 * Morton(bx, by, m)
      cA == TLCEval([b \in 0..(nx * ny - 1) |-> ColourA(t.d, At(b % nx, b \div nx))])
      cB == TLCEval([b \in 0..(nx * ny - 1) |-> ColourB(t.d, At(b % nx, b \div nx))])
      wt == TLCEval([b \in 0..(nx * ny - 1) |-> IF two THEN Weights2(t.d, At(b % nx, b \div nx))
                                                 ELSE Weights4(t.d, At(b % nx, b \div nx))])
      Num(bx, by) == (by % ny) * nx + (bx % nx)            \* wrap-around
      \* upscaled colour component c at texel (x, y) of block (bx, by)
      Up(col, bx, by, x, y, c) ==
        LET wx == Along(bw, x)
            wy == Along(4, y)
            Row(dy) == wx[1] * col[Num(bx - 1, by + dy)][c] + wx[2] * col[Num(bx, by + dy)][c]
                       + wx[3] * col[Num(bx + 1, by + dy)][c]
            s == (IF wy[1] = 0 THEN 0 ELSE wy[1] * Row(-1)) + wy[2] * Row(0) + (IF wy[3] = 0 THEN 0 ELSE wy[3] * Row(1))
        IN IF two THEN (IF c = 4 THEN (s \div 2) + (s \div 32) ELSE (s \div 4) + (s \div 128))
           ELSE (IF c = 4 THEN s + (s \div 16) ELSE (s \div 2) + (s \div 64))
      \* stored weight of the texel at image coordinates (wrapping over the whole block grid)
      Stored(gx, gy) ==
        LET x == gx % (8 * nx)
            y == gy % (4 * ny)
        IN wt[(y \div 4) * nx + (x \div 8)][1 + (y % 4) * 8 + (x % 8)]
      Weight(bx, by, x, y) ==
        IF ~two THEN wt[Num(bx, by)][1 + y * 4 + x]
        ELSE LET gx == bx * 8 + x
                 gy == by * 4 + y
                 w == Stored(gx, gy)
             IN CASE w = -1 -> (Stored(gx, gy - 1) + Stored(gx, gy + 1) + 1) \div 2
                  [] w = -2 -> (Stored(gx - 1, gy) + Stored(gx + 1, gy) + 1) \div 2
                  [] w = -3 -> (Stored(gx, gy - 1) + Stored(gx, gy + 1)
                               + Stored(gx - 1, gy) + Stored(gx + 1, gy) + 2) \div 4
                  [] OTHER -> w
  IN [i \in 1..(t.w * t.h) |->
        LET px == (i - 1) % t.w
            py == (i - 1) \div t.w
            bx == px \div bw
            by == py \div 4
            x == px % bw
            y == py % 4
            w == Weight(bx, by, x, y)
            V(c) == Blend(Up(cA, bx, by, x, y, c), Up(cB, bx, by, x, y, c), w)
            clear == ~two /\ Punched4(t.d, At(bx, by), 1 + y * 4 + x)
        IN Pix(V(1) , V(2), V(3), IF clear THEN 0 ELSE V(4))]
=============================================================================
