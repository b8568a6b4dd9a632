-------------------------------- MODULE Pack --------------------------------
(***************************************************************************)
(* The other direction: blocks written from what they are to mean.  A      *)
(* message is a sequence of <<value, width>>; Stream(m) are its bits, the  *)
(* lowest bit of each value first, the first value first.  The decoders    *)
(* compute the positions of their fields; writers only keep the order.     *)
(***************************************************************************)
EXTENDS Bits

BitsOf(v, n) == [k \in 1..n |-> Bit(v, k - 1)]
RECURSIVE Stream(_)
Stream(m) == IF m = << >> THEN << >> ELSE BitsOf(m[1][1], m[1][2]) \o Stream(Tail(m))
\* bits to bytes, the lowest bit of a byte first (little-endian blocks)
Bytes(s) == [j \in 1..(Len(s) \div 8) |->
               LET b(k) == s[8 * (j - 1) + k] * Pow2(k - 1)
               IN b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7) + b(8)]
\* ... and the highest first (big-endian blocks): the same for values written from the top bit down
RECURSIVE StreamTop(_)
StreamTop(m) == IF m = << >> THEN << >>
                ELSE [k \in 1..m[1][2] |-> Bit(m[1][1], m[1][2] - k)] \o StreamTop(Tail(m))
BytesTop(m) == LET s == StreamTop(m)
               IN [j \in 1..(Len(s) \div 8) |->
                    LET b(k) == s[8 * (j - 1) + k] * Pow2(8 - k)
                    IN b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7) + b(8)]
\* a varied value of n bits, from a number (no randomness: the same on every run)
Vary(x, n) == (((x % 30000) * 7919 + ((x \div 3) % 10000) * 104729 + 12345) % 65536) \div (IF n >= 16 THEN 1 ELSE Pow2(16 - n))
RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Cat(Tail(ss))

(* Written blocks are handed out, for the implementation to decode as well: function, a, b, width, height, data *)
Give(f, a, b, w, h, d) == PrintT("VEC " \o ToString(<< f, a, b, w, h, d >>))
=============================================================================
