-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bit fields of byte sequences, and 32-bit pixels.                        *)
(*                                                                         *)
(* A byte string is a sequence of 0..255.  All bit fields the formats use  *)
(* are at most 24 bits wide when extracted, so TLC's 32-bit integers are   *)
(* enough.  A pixel is the u32 whose little-endian bytes are B,G,R,A,      *)
(* written as the two's complement 32-bit integer with the same bits       *)
(* (that is how the harness records it).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Bitwise

P2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
         32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
         8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
         536870912, 1073741824 >>
Pow2(n) == P2[n + 1]

\* bit i (0 = least significant) of x; field of n bits starting at bit i
Bit(x, i)      == (x \div Pow2(i)) % 2
Field(x, i, n) == (x \div Pow2(i)) % Pow2(n)

\* the j-th byte (0-based) of d
Byte(d, j) == d[j + 1]

\* Little-endian bit string: bit k of the string is bit (k % 8) of byte k \div 8.
\* n <= 17 bits starting at bit k of the part of d that starts at byte `at'.
\* Bits past the end of d read as 0.
ByteOr0(d, j) == IF j < Len(d) THEN d[j + 1] ELSE 0
LE(d, at, k, n) ==
  LET j == at + (k \div 8)
      w == ByteOr0(d, j) + 256 * ByteOr0(d, j + 1) + 65536 * ByteOr0(d, j + 2)
  IN (w \div Pow2(k % 8)) % Pow2(n)

\* Big-endian 64-bit word: bit 63 is the top bit of the first byte (at `at').
\* Field hi..lo, at most 17 bits.
BE(d, at, hi, lo) ==
  LET j == 7 - (lo \div 8)                 \* byte that holds bit lo
      B(i) == IF i < 0 THEN 0 ELSE d[at + i + 1]
      w == B(j) + 256 * B(j - 1) + 65536 * B(j - 2)
  IN (w \div Pow2(lo % 8)) % Pow2(hi - lo + 1)

U16LE(d, at) == d[at + 1] + 256 * d[at + 2]
U16BE(d, at) == d[at + 2] + 256 * d[at + 1]

\* pixels
Pix(r, g, b, a) == (IF a > 127 THEN a - 256 ELSE a) * 16777216 + r * 65536 + g * 256 + b
OpaqueBlack == Pix(0, 0, 0, 255)
PB(p) == p % 256                  \* TLC's % is the mathematical modulus
PG(p) == (p \div 256) % 256
PR(p) == (p \div 65536) % 256
PA(p) == (p \div 16777216) % 256
WithA(p, a) == Pix(PR(p), PG(p), PB(p), a)
WithR(p, r) == Pix(r, PG(p), PB(p), PA(p))
WithG(p, g) == Pix(PR(p), g, PB(p), PA(p))
WithB(p, b) == Pix(PR(p), PG(p), b, PA(p))

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Clamp8(x) == Clamp(x, 0, 255)
DivUp(x, y) == x \div y + (IF x % y = 0 THEN 0 ELSE 1)

\* sign-extend an n-bit field
Signed(x, n) == IF x >= Pow2(n - 1) THEN x - Pow2(n) ELSE x
\* widen an n-bit unsigned value to 8 bits by repeating its top bits (4 <= n <= 8)
Expand(x, n) == x * Pow2(8 - n) + (x \div Pow2(2 * n - 8))
=============================================================================
