-------------------------------- MODULE Half --------------------------------
(***************************************************************************)
(* IEEE half-precision bits -> the 8-bit value the library delivers:       *)
(* floor(255 * x) clamped to 0..255; negative numbers, -0 and NaN give 0.  *)
(***************************************************************************)
EXTENDS Bits
HalfToU8(h) ==
  LET s == h \div 32768
      e == (h \div 1024) % 32
      m == h % 1024
  IN IF s = 1 THEN 0
     ELSE IF e = 31 THEN (IF m = 0 THEN 255 ELSE 0)
     ELSE IF e >= 15 THEN 255                                 \* x >= 1
     ELSE IF e = 0 THEN 0                                     \* 255 x < 1
     ELSE ((1024 + m) * 255) \div Pow2(25 - e)                \* (1024+m) * 2^(e-25) * 255
=============================================================================
