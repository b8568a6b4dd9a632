------------------------------ MODULE MCPVRTC ------------------------------
(***************************************************************************)
(* PVRTC of the specification on its own: block numbers are a permutation  *)
(* of the grid, shares add up, an image of equal blocks is flat in each    *)
(* block position, and - as the edges wrap around - moving all blocks by   *)
(* one, cyclically, moves the picture by one block.                        *)
(***************************************************************************)
EXTENDS PVRTC, Pack
CONSTANTS Rounds, Kinds
VARIABLE t
\* << kind, log2 of the blocks across, log2 of the blocks down, round >>
Init == t \in {x \in ({"grid"} \X (0..6) \X (0..6) \X {0})
              \cup ({"shares"} \X {2, 3} \X {0} \X {0})
              \cup ({"move", "flat"} \X (0..2) \X (0..2) \X (0..(Rounds - 1))) : x[1] \in Kinds}
Next == t[1] \in {"move", "flat"} /\ t[4] < 4 * Rounds /\ t' = [t EXCEPT ![4] = @ + Rounds]
N(k, n) == Vary(1013 * t[4] + 89 * t[2] + 17 * t[3] + k, n)

Grid ==
  t[1] = "grid" =>
    LET nx == Pow2(t[2])
        ny == Pow2(t[3])
        m == Min2(nx, ny)
        number(b) == Morton(b % nx, b \div nx, m)
    IN /\ {number(b) : b \in 0..(nx * ny - 1)} = 0..(nx * ny - 1)
       \* the first squares of both orders: y is the low bit
       /\ nx > 1 /\ ny > 1 => Morton(0, 1, m) = 1 /\ Morton(1, 0, m) = 2 /\ Morton(1, 1, m) = 3
       /\ IsPow2(nx) /\ (nx > 2 => ~IsPow2(nx - 1) /\ ~IsPow2(nx + 1))
Shares ==
  t[1] = "shares" =>
    LET size == Pow2(t[2])
    IN \A k \in 0..(size - 1) :
         LET a == Along(size, k)
         IN /\ a[1] + a[2] + a[3] = size /\ \A j \in 1..3 : a[j] >= 0
            /\ a[1] = 0 \/ a[3] = 0
            /\ k = size \div 2 => a = << 0, size, 0 >>              \* the middle is the block's own

Block(k) == [j \in 1..8 |-> N(1000 * k + j, 8)]
\* the image whose block at (x, y) is B(x, y)
Image(nx, ny, two, B(_, _)) ==
  LET m == Min2(nx, ny)
      place == TLCEval([z \in 0..(nx * ny - 1) |-> CHOOSE b \in 0..(nx * ny - 1) : Morton(b % nx, b \div nx, m) = z])
  IN [w |-> nx * (IF two THEN 8 ELSE 4), h |-> 4 * ny,
      d |-> Cat([z \in 1..(nx * ny) |-> B(place[z - 1] % nx, place[z - 1] \div nx)])]
Move ==
  t[1] = "move" => \A two \in BOOLEAN : \A by \in {<< 1, 0 >>, << 0, 1 >>} :
    LET nx == Pow2(t[2])
        ny == Pow2(t[3])
        bw == IF two THEN 8 ELSE 4
        own(x, y) == Block((y % ny) * nx + (x % nx))
        moved(x, y) == own(x + by[1], y + by[2])
        i0 == TLCEval(Image(nx, ny, two, own))
        i1 == TLCEval(Image(nx, ny, two, moved))
        p0 == TLCEval(ImagePixels(i0, two))
        p1 == TLCEval(ImagePixels(i1, two))
    IN Give(IF two THEN "pvrtc_2bpp" ELSE "pvrtc_4bpp", 0, 0, i1.w, i1.h, i1.d) /\
       \A x \in 0..(i0.w - 1) : \A y \in 0..(i0.h - 1) :
         p1[1 + y * i0.w + x] = p0[1 + ((y + 4 * by[2]) % i0.h) * i0.w + ((x + bw * by[1]) % i0.w)]
\* equal blocks: every block of the picture is the same
Flat ==
  t[1] = "flat" => \A two \in BOOLEAN :
    LET nx == Pow2(t[2])
        ny == Pow2(t[3])
        bw == IF two THEN 8 ELSE 4
        own(x, y) == Block(0)
        i0 == TLCEval(Image(nx, ny, two, own))
        p0 == TLCEval(ImagePixels(i0, two))
        \* all texels of weight zero: one colour, colour A itself
        plain == [Block(1) EXCEPT ![1] = 0, ![2] = 0, ![3] = 0, ![4] = 0, ![5] = 2 * (@ \div 2)]
        zero(x, y) == plain
        i1 == TLCEval(Image(nx, ny, two, zero))
        p1 == TLCEval(ImagePixels(i1, two))
        A == ColourA(plain, 0)
    IN /\ \A x \in 0..(i0.w - 1) : \A y \in 0..(i0.h - 1) : p0[1 + y * i0.w + x] = p0[1 + (y % 4) * i0.w + (x % bw)]
       /\ \A i \in 1..Len(p1) : p1[i] = Pix(Expand(A[1], 5), Expand(A[2], 5), Expand(A[3], 5), 17 * A[4])
=============================================================================
