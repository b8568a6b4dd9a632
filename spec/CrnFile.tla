------------------------------ MODULE CrnFile ------------------------------
(***************************************************************************)
(* The header of a Crunch file: 70 fixed bytes of big-endian fields and a  *)
(* table of level offsets, and what the texture information says of it.    *)
(*                                                                         *)
(* Four-byte fields that TLC's integers cannot hold are saturated (Sat4):  *)
(* nothing the header describes is that large.                             *)
(***************************************************************************)
EXTENDS Bits, FiniteSets

MinHeader == 74
U1(d, o) == d[o + 1]
U2(d, o) == 256 * d[o + 1] + d[o + 2]
U3(d, o) == 65536 * d[o + 1] + 256 * d[o + 2] + d[o + 3]
Sat4(d, o) == IF d[o + 1] > 127 THEN 2147483647 ELSE 16777216 * d[o + 1] + U3(d, o + 1)
\* the same four bytes as a two's complement number, to compare user data with
Word4(d, o) == (IF d[o + 1] > 127 THEN d[o + 1] - 256 ELSE d[o + 1]) * 16777216 + U3(d, o + 1)

Signature(d)  == U2(d, 0)
HeaderSize(d) == U2(d, 2)
DataSize(d)   == Sat4(d, 6)
Width(d)      == U2(d, 12)
Height(d)     == U2(d, 14)
Levels(d)     == U1(d, 16)
Faces(d)      == U1(d, 17)
Format(d)     == U1(d, 18)
\* palettes: 1 colour end points, 2 colour selectors, 3 alpha end points, 4 alpha selectors
PalAt(k)      == 33 + 8 * (k - 1)
PalOfs(d, k)  == U3(d, PalAt(k))
PalSize(d, k) == U3(d, PalAt(k) + 3)
PalNum(d, k)  == U2(d, PalAt(k) + 6)
TablesSize(d) == U2(d, 65)
TablesOfs(d)  == U3(d, 67)
LevelOfs(d, i) == Sat4(d, 70 + 4 * i)

\* is there a header that can be read at all, in data said to be `claimed' bytes long?
HeaderOk(d, claimed) ==
  /\ claimed >= MinHeader
  /\ Len(d) >= MinHeader
  /\ 70 + 4 * Levels(d) <= Len(d)
  /\ Signature(d) = 18552            \* "Hx"
  /\ HeaderSize(d) >= MinHeader
  /\ DataSize(d) <= claimed

\* file formats
DXT1 == 0  DXT3 == 1  DXNxy == 7  DXNyx == 8  DXT5A == 9
FETC1 == 10  FETC2 == 11  FETC2A == 12  FETC1S == 13  FETC2AS == 14  FTOTAL == 15
BytesPerBlock(f) == IF f \in {DXT1, DXT5A, FETC1, FETC2, FETC1S} THEN 8 ELSE 16

InfoOk(d, claimed, structOk) == structOk /\ HeaderOk(d, claimed) /\ Format(d) <= FTOTAL
Info(d) == [ok |-> TRUE, iw |-> Width(d), ih |-> Height(d), lv |-> Levels(d), fc |-> Faces(d),
            bpb |-> BytesPerBlock(Format(d)), u0 |-> Word4(d, 25), u1 |-> Word4(d, 29), fmt |-> Format(d)]
=============================================================================
