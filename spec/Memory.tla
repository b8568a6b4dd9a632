------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* The heap memory a call may have in use.  Fixed-rate formats are decoded *)
(* without any; PVRTC may keep a table of the blocks of the image; what is *)
(* read from a Crunch file may cost so much per byte of the file, and a    *)
(* fixed amount for tables and palettes, whatever sizes the file claims.   *)
(***************************************************************************)
EXTENDS Integers
PerBlock == 64
PerByte == 256
Palettes == 8388608
LOCAL Up(a, b) == (a + b - 1) \div b
\* no file of this size is decoded in a check, and larger numbers do not fit TLC's integers
CrunchBound(len) == IF len > 8000000 THEN 2056388608 ELSE PerByte * len + Palettes
\* and the stack any call may need, in a build with optimisation
StackBound == 32768
PvrtcBound(w, h, two) == PerBlock * Up(w, IF two THEN 8 ELSE 4) * Up(h, 4)
=============================================================================
