------------------------------- MODULE Crunch -------------------------------
(***************************************************************************)
(* The decoder of Crunch files (.crn) and of their Unity variant, as a     *)
(* state machine: it reads the header, receives the models of the tables   *)
(* section, decodes the four palettes entry by entry, and then the chunks  *)
(* (Crunch: 2x2 blocks) or the blocks (Unity) of the first mip level.      *)
(*                                                                         *)
(* A behaviour ends in pc = "done" with a verdict:                         *)
(*   "ok"   the file is well-formed, out holds the bytes of every block    *)
(*          (faces below each other, row by row), and Outcome is what      *)
(*          decode_crunch / decode_unity_crunch must do                    *)
(*   "err"  there is nothing to decode here (no header, unsupported format)*)
(*   "bad"  the file is malformed: a decoder may reject it, or read it     *)
(*          in some way                                                    *)
(*                                                                         *)
(* The calls are the records Log[l] (see Calls), f = "crunch" or           *)
(* "unity_crunch".                                                         *)
(***************************************************************************)
EXTENDS CrnFile, CrnCodec, Calls
CONSTANT Log
VARIABLES l,         \* which call
          pc,        \* what comes next
          verdict,
          sec, at,   \* the section that is being read, and the bit position in it
          ms,        \* models of the tables: 1 chunks or references, 2/3 colour end point and
                     \* selector, 4/5 alpha end point and selector
          todo,      \* models or palettes still to come
          pm,        \* models of the palette that is being read
          acc,       \* values the next palette entry is coded relative to
          pal,       \* the four palettes so far
          lev,       \* position in the level
          buf,       \* Unity: what the next row of blocks may refer to
          out,       \* the blocks
          n          \* number of steps so far
vars == <<l, pc, verdict, sec, at, ms, todo, pm, acc, pal, lev, buf, out, n>>

D == Log[l].d
Unity == Log[l].f = "unity_crunch"
F == Format(D)

\* how the blocks of a format are made
Kind == CASE F = 0 -> "dxt1"
          [] F \in 2..6 -> "dxt5"
          [] F \in {7, 8} -> "dxn"
          [] F = 9 -> "dxt5a"
          [] Unity /\ F \in {10, 11} -> "etc1"
          [] Unity /\ F = 12 -> "etc2a"
          [] Unity /\ F = 13 -> "dxt1"
          [] Unity /\ F = 14 -> "dxt5"
          [] OTHER -> "none"
\* the fixed-rate format those blocks have
BlockFormat == CASE F = 0 -> "bc1" [] F \in 2..6 -> "bc3" [] F \in {7, 8} -> "bc5" [] F = 9 -> "bc4"
                 [] F \in {10, 13} -> "etc1" [] F = 11 -> "etc2_rgb" [] F \in {12, 14} -> "etc2_rgba8"
EtcColor == Unity /\ F \in 10..14
EtcAlpha == Unity /\ F \in {12, 14}
SubBlocks == Kind \in {"etc1", "etc2a"}

NBX == DivUp(Max2(Width(D), 1), 4)
NBY == DivUp(Max2(Height(D), 1), 4)
NF == Faces(D)

(* --- palettes ----------------------------------------------------------- *)
FromLinear2 == <<0, 2, 3, 1>>
FromLinear3 == <<0, 2, 3, 4, 5, 6, 7, 1>>
EtcIndex    == <<3, 2, 0, 1>>
Bytes24LE(v) == <<v % 256, (v \div 256) % 256, v \div 65536>>
Bytes24BE(v) == <<v \div 65536, (v \div 256) % 256, v % 256>>
RECURSIVE Pack(_, _, _, _)
\* v[from] + base * (v[from + 1] + base * (..)) of `len' values
Pack(v, from, len, base) == IF len = 0 THEN 0 ELSE v[from] + base * Pack(v, from + 1, len - 1, base)
Rev(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
\* sixteen values of two or three bits, first one in the lowest bits
Pack2(v) == [i \in 1..4 |-> Pack(v, 4 * i - 3, 4, 4)]
Pack3(v) == Bytes24LE(Pack(v, 1, 8, 8)) \o Bytes24LE(Pack(v, 9, 8, 8))
\* sixteen values of three bits, first one in the highest bits
Pack3BE(v) == Bytes24BE(Pack(Rev(v), 9, 8, 8)) \o Bytes24BE(Pack(Rev(v), 1, 8, 8))
\* index planes of ETC: bit i of a plane is pixel i (column by column), big-endian
EtcPlanes(v) == LET P(j) == [i \in 1..16 |-> Bit(v[i], j)]
                IN <<Pack(P(1), 9, 8, 2), Pack(P(1), 1, 8, 2), Pack(P(0), 9, 8, 2), Pack(P(0), 1, 8, 2)>>
\* 4x4 transposed
Turn(v) == [i \in 1..16 |-> v[1 + 4 * ((i - 1) % 4) + ((i - 1) \div 4)]]
MapBy(v, m) == [i \in 1..16 |-> m[v[i] + 1]]
EtcAlphaIndex(v) == [i \in 1..16 |-> IF v[i] <= 3 THEN 3 - v[i] ELSE v[i]]

\* models that are sent before the entries of palette k, and the symbols of one entry
NumModels(k) == IF k = 1 /\ ~EtcColor THEN 2 ELSE 1
EntryModels(k) == CASE k = 1 /\ ~EtcColor -> <<pm[1], pm[2], pm[1], pm[1], pm[2], pm[1]>>
                    [] k = 1 /\ EtcColor  -> <<pm[1], pm[1], pm[1], pm[1]>>
                    [] k = 3 -> <<pm[1], pm[1]>>
                    [] OTHER -> <<pm[1], pm[1], pm[1], pm[1], pm[1], pm[1], pm[1], pm[1]>>
\* is m a model of palette k?
ModelFits(k, m) == Unity \/ ((k = 2 => m.n <= 49) /\ (k = 4 => m.n <= 225))
\* do the symbols v make an entry?
EntryFits(k, v) == CASE k = 1 /\ EtcColor -> (\A i \in 1..4 : v[i] < 32) /\ (acc[4] + v[4]) % 32 < 8
                     [] k = 2 /\ Unity -> \A i \in 1..8 : v[i] < 16
                     [] k = 4 /\ Unity -> \A i \in 1..8 : v[i] < 64
                     [] OTHER -> TRUE
\* sixteen values from eight symbols that are pairs of changes
Half1(i) == (i + 1) \div 2
Changes(v, base, less, mod) ==
  [i \in 1..16 |-> LET c == v[Half1(i)] IN (acc[i] + (IF i % 2 = 1 THEN c % base ELSE c \div base) - less) % mod]
Xors(v, base) ==
  [i \in 1..16 |-> LET c == v[Half1(i)] IN acc[i] ^^ (IF i % 2 = 1 THEN c % base ELSE c \div base)]
ColorMods == <<32, 64, 32, 32, 64, 32>>
Start(k) == CASE k = 1 /\ ~EtcColor -> <<0, 0, 0, 0, 0, 0>>
              [] k = 1 /\ EtcColor -> <<0, 0, 0, 0>>
              [] k = 3 -> <<0, 0>>
              [] OTHER -> [i \in 1..16 |-> 0]
Moved(k, v) == CASE k = 1 /\ ~EtcColor -> [i \in 1..6 |-> (acc[i] + v[i]) % ColorMods[i]]
                 [] k = 1 /\ EtcColor  -> [i \in 1..4 |-> (acc[i] + v[i]) % 32]
                 [] k = 3 -> [i \in 1..2 |-> (acc[i] + v[i]) % 256]
                 [] k = 2 -> IF Unity THEN Xors(v, 4) ELSE Changes(v, 7, 3, 4)
                 [] k = 4 -> IF Unity THEN Xors(v, 8) ELSE Changes(v, 15, 7, 8)
\* the entry with values a.  Colour selectors of ETC blocks with sub-blocks, and their alpha
\* selectors, come in two forms: flip bit 0 and flip bit 1
Word16(x, y, z) == LET w == x + 32 * y + 2048 * z IN <<w % 256, w \div 256>>
Entry(k, a) ==
  CASE k = 1 /\ ~EtcColor -> Word16(a[3], a[2], a[1]) \o Word16(a[6], a[5], a[4])
    [] k = 1 /\ EtcColor -> IF SubBlocks THEN a ELSE <<8 * a[1], 8 * a[2], 8 * a[3], 36 * a[4] + 2>>
    [] k = 2 /\ ~EtcColor -> Pack2(MapBy(a, FromLinear2))
    [] k = 2 /\ EtcColor -> LET e == MapBy(a, EtcIndex)
                            IN IF SubBlocks THEN << EtcPlanes(e), EtcPlanes(Turn(e)) >> ELSE EtcPlanes(Turn(e))
    [] k = 3 -> a
    [] k = 4 /\ ~EtcAlpha -> Pack3(MapBy(a, FromLinear3))
    [] k = 4 /\ EtcAlpha -> LET e == EtcAlphaIndex(a)
                            IN IF SubBlocks THEN << Pack3BE(e), Pack3BE(Turn(e)) >> ELSE Pack3BE(Turn(e))

(* --- the components of a block, in the order of their bytes --------------- *)
Comps == CASE Kind = "dxt1" -> <<"color">>
           [] Kind = "dxt5" -> <<"alpha", "color">>
           [] Kind = "dxt5a" -> <<"alpha">>
           [] Kind = "dxn" -> <<"alpha", "alpha">>
           [] Kind = "etc1" -> <<"color">>
           [] Kind = "etc2a" -> <<"alpha", "color">>
NC == Len(Comps)
\* the order in which they are sent: Unity sends colours before alpha
Sent == IF Unity /\ Kind \in {"dxt5", "etc2a"} THEN <<2, 1>> ELSE [c \in 1..NC |-> c]
EndModel(c) == IF Comps[c] = "color" THEN ms[2] ELSE ms[4]
SelModel(c) == IF Comps[c] = "color" THEN ms[3] ELSE ms[5]
Ends(c) == IF Comps[c] = "color" THEN pal[1] ELSE pal[3]
Sels(c) == IF Comps[c] = "color" THEN pal[2] ELSE pal[4]
Zeros == [c \in 1..NC |-> 0]

-----------------------------------------------------------------------------
Init == /\ l \in 1..Len(Log)
        /\ pc = "header" /\ verdict = "-" /\ sec = <<0, 0>> /\ at = 0
        /\ ms = <<NoModel, NoModel, NoModel, NoModel, NoModel>>
        /\ todo = <<>> /\ pm = <<>> /\ acc = <<>> /\ pal = <<<<>>, <<>>, <<>>, <<>>>>
        /\ lev = <<>> /\ buf = <<>> /\ out = <<>> /\ n = 0

Done(v) == pc' = "done" /\ verdict' = v
Step == n' = n + 1 /\ l' = l
SectionIn(s) == s[2] > 0 /\ s[1] <= Len(D) /\ s[2] <= Len(D) - s[1]

ReadHeader ==
  /\ pc = "header" /\ Step
  /\ UNCHANGED <<ms, pm, acc, pal, lev, buf, out>>
  /\ at' = 0
  /\ sec' = IF HeaderOk(D, Len(D)) THEN <<TablesOfs(D), TablesSize(D)>> ELSE <<0, 0>>
  /\ LET color == HeaderOk(D, Len(D)) /\ PalNum(D, 1) # 0
         alpha == HeaderOk(D, Len(D)) /\ PalNum(D, 3) # 0
     IN /\ todo' = <<1>> \o (IF color THEN <<2, 3>> ELSE <<>>) \o (IF alpha THEN <<4, 5>> ELSE <<>>)
        /\ IF ~HeaderOk(D, Len(D)) THEN Done("err")
           ELSE IF Kind = "none" \/ Levels(D) = 0 THEN Done("err")
           ELSE IF ~SectionIn(sec') \/ ~(color \/ alpha) THEN Done("bad")
           ELSE pc' = "tables" /\ UNCHANGED verdict

\* entries of the palette the symbols of model k choose from
PalOfModel(k) == k - 1
\* (\E x \in {v} binds x to v; a LET around primed variables would have TLC evaluate it many times)
ReceiveTable ==
  /\ pc = "tables" /\ todo # <<>> /\ Step
  /\ UNCHANGED <<sec, pm, acc, pal, lev, buf, out>>
  /\ \E m \in {ReceiveModel(D, sec, at)} :
       LET k == Head(todo)
       IN /\ at' = m[2] /\ ms' = [ms EXCEPT ![k] = m[1]] /\ todo' = Tail(todo)
          /\ IF m[2] = Fail \/ (k > 1 /\ m[1].n > PalNum(D, PalOfModel(k))) THEN Done("bad")
             ELSE UNCHANGED <<pc, verdict>>
EndTables ==
  /\ pc = "tables" /\ todo = <<>> /\ Step
  /\ pc' = "open" /\ UNCHANGED <<verdict, sec, at, ms, pm, acc, pal, lev, buf, out>>
  /\ todo' = (IF PalNum(D, 1) # 0 THEN <<1, 2>> ELSE <<>>) \o (IF PalNum(D, 3) # 0 THEN <<3, 4>> ELSE <<>>)

RECURSIVE Models(_, _, _, _)
Models(d, s, a, k) ==
  IF k = 0 THEN <<<<>>, a>>
  ELSE LET x == TLCEval(ReceiveModel(d, s, a))
       IN IF x[2] = Fail THEN <<<<>>, Fail>>
          ELSE LET y == Models(d, s, x[2], k - 1) IN <<<<x[1]>> \o y[1], y[2]>>
OpenPalette ==
  /\ pc = "open" /\ todo # <<>> /\ Step
  /\ UNCHANGED <<ms, todo, pal, lev, buf, out>>
  /\ LET k == Head(todo)
         s == <<PalOfs(D, k), PalSize(D, k)>>
     IN /\ sec' = s
        /\ \E x \in {IF SectionIn(s) THEN Models(D, s, 0, NumModels(k)) ELSE <<<<>>, Fail>>} :
             /\ pm' = x[1] /\ at' = x[2] /\ acc' = Start(k)
             /\ IF x[2] = Fail THEN Done("bad")
                ELSE IF \E i \in 1..Len(x[1]) : ~ModelFits(k, x[1][i]) THEN Done("bad")
                ELSE pc' = "entries" /\ UNCHANGED verdict
NextEntry ==
  /\ pc = "entries" /\ Len(pal[Head(todo)]) < PalNum(D, Head(todo)) /\ Step
  /\ UNCHANGED <<sec, ms, todo, pm, lev, buf, out>>
  /\ \E k \in {Head(todo)} : \E x \in {Symbols(D, sec, at, EntryModels(k))} :
        /\ at' = x[2]
        /\ IF x[2] = Fail THEN Done("bad") /\ UNCHANGED <<acc, pal>>
           ELSE IF ~EntryFits(k, x[1]) THEN Done("bad") /\ UNCHANGED <<acc, pal>>
           ELSE \E a \in {Moved(k, x[1])} :
                  /\ acc' = a
                  /\ pal' = [pal EXCEPT ![k] = Append(@, Entry(k, a))]
                  /\ UNCHANGED <<pc, verdict>>
EndPalette ==
  /\ pc = "entries" /\ Len(pal[Head(todo)]) = PalNum(D, Head(todo)) /\ Step
  /\ pc' = "open" /\ todo' = Tail(todo)
  /\ UNCHANGED <<verdict, sec, at, ms, pm, acc, pal, lev, buf, out>>

\* the first level reaches to the next one, or to the end of the data
LevelEnd == IF Levels(D) > 1 THEN LevelOfs(D, 1) ELSE Len(D)
PadX == 2 * DivUp(NBX, 2)
PadY == 2 * DivUp(NBY, 2)
OpenLevel ==
  /\ pc = "open" /\ todo = <<>> /\ Step
  /\ UNCHANGED <<ms, todo, pm, acc, pal>>
  /\ at' = 0
  /\ IF LevelEnd <= LevelOfs(D, 0) THEN Done("bad") /\ UNCHANGED <<sec, lev, buf, out>>
     ELSE LET s == <<LevelOfs(D, 0), LevelEnd - LevelOfs(D, 0)>>
          \* a block takes at least one bit
          IN IF ~SectionIn(s) \/ NF = 0 \/ Less3(8 * s[2], NBX, NBY, Max2(NF, 1)) THEN Done("bad") /\ UNCHANGED <<sec, lev, buf, out>>
             ELSE /\ sec' = s
                  /\ lev' = [k |-> 0, enc |-> 1, run |-> Zeros, sel |-> Zeros, diag |-> Zeros]
                  /\ buf' = IF Unity THEN [i \in 1..(2 * PadX) |-> [ref |-> 0, ix |-> Zeros]] ELSE <<>>
                  /\ out' = [i \in 1..(NF * NBX * NBY) |-> <<>>]
                  /\ pc' = (IF Unity THEN "blocks" ELSE "chunks") /\ UNCHANGED verdict

(* --- Crunch: chunks of 2x2 blocks ----------------------------------------- *)
\* tile of each block of a chunk, per encoding
Tiles == << <<0,0,0,0>>, <<0,0,1,1>>, <<0,1,0,1>>, <<0,0,1,2>>,
            <<1,2,0,0>>, <<0,1,0,2>>, <<1,0,2,0>>, <<0,1,2,3>> >>
NumTiles(e) == 1 + (CHOOSE m \in 0..3 : /\ \E i \in 1..4 : Tiles[e][i] = m
                                        /\ \A i \in 1..4 : Tiles[e][i] <= m)
ChunksX == DivUp(NBX, 2)
ChunksY == DivUp(NBY, 2)
NumChunks == NF * ChunksX * ChunksY
\* rows of chunks are read left to right and right to left in turn
ChunkPlace(k, cx, cy) ==
  LET y == (k \div cx) % cy
      x == k % cx
  IN [f |-> (k \div cx) \div cy, y |-> y, x |-> IF y % 2 = 0 THEN x ELSE cx - 1 - x]
\* running sums of the deltas v, from x on
RECURSIVE Sums(_, _, _)
Sums(x, v, mod) == IF Len(v) = 0 THEN <<>>
                   ELSE LET y == (x + Head(v)) % mod IN <<y>> \o Sums(y, Tail(v), mod)

\* a chunk: where its bits end (Fail: there is no such chunk), what follows from it, and its blocks
NoChunk == [at |-> Fail, lev |-> lev, out |-> out]
Chunk ==
  LET \* three chunk encodings in a symbol
      s0 == IF lev.enc = 1 THEN Symbol(D, sec, at, ms[1]) ELSE <<0, at>>
      e0 == IF lev.enc = 1 THEN 512 + s0[1] ELSE lev.enc
      e  == (e0 % 8) + 1
      T  == NumTiles(e)
      \* end points of the tiles, component by component
      s1 == Symbols(D, sec, s0[2], [i \in 1..(NC * T) |-> EndModel(1 + ((i - 1) \div T))])
      \* selectors of the blocks, all components of each
      s2 == Symbols(D, sec, s1[2], [i \in 1..(4 * NC) |-> SelModel(1 + ((i - 1) % NC))])
      ends == TLCEval([c \in 1..NC |->
                Sums(lev.run[c], SubSeq(s1[1], (c - 1) * T + 1, c * T), Len(Ends(c)))])
      sels == TLCEval([c \in 1..NC |->
                Sums(lev.sel[c], [b \in 1..4 |-> s2[1][(b - 1) * NC + c]], Len(Sels(c)))])
      P == ChunkPlace(lev.k, ChunksX, ChunksY)
      Bytes(b) == Flat([c \in 1..NC |->
                    Ends(c)[1 + ends[c][1 + Tiles[e][b]]] \o Sels(c)[1 + sels[c][b]]])
      Y(b) == 2 * P.y + ((b - 1) \div 2)
      X(b) == 2 * P.x + ((b - 1) % 2)
      seen == {b \in 1..4 : X(b) < NBX /\ Y(b) < NBY}
      Place(b) == 1 + (P.f * NBY + Y(b)) * NBX + X(b)
  IN IF s0[2] = Fail \/ s0[1] > 511 THEN NoChunk
     ELSE IF s1[2] = Fail THEN NoChunk
     ELSE IF s2[2] = Fail THEN NoChunk
     ELSE [at  |-> s2[2],
           lev |-> [lev EXCEPT !.k = @ + 1, !.enc = e0 \div 8,
                               !.run = [c \in 1..NC |-> ends[c][T]],
                               !.sel = [c \in 1..NC |-> sels[c][4]]],
           out |-> LET RECURSIVE Put(_)
                       Put(b) == IF b = 0 THEN out
                                 ELSE IF b \in seen THEN [Put(b - 1) EXCEPT ![Place(b)] = Bytes(b)] ELSE Put(b - 1)
                   IN Put(4)]
NextChunk ==
  /\ pc = "chunks" /\ lev.k < NumChunks /\ Step
  /\ UNCHANGED <<sec, ms, todo, pm, acc, pal, buf>>
  /\ \E c \in {Chunk} : /\ at' = c.at /\ lev' = c.lev /\ out' = c.out
                        /\ IF c.at = Fail THEN Done("bad") ELSE UNCHANGED <<pc, verdict>>
EndChunks == /\ pc = "chunks" /\ lev.k = NumChunks /\ Step /\ Done("ok")
             /\ UNCHANGED <<sec, at, ms, todo, pm, acc, pal, lev, buf, out>>

(* --- Unity: blocks that refer to their neighbours -------------------------- *)
NumBlocks == NF * PadX * PadY
BlockX == lev.k % PadX
BlockY == (lev.k \div PadX) % PadY
BlockF == (lev.k \div PadX) \div PadY
\* the block's bytes go out if it is not just padding
PutBlock(bytes) ==
  IF BlockX < NBX /\ BlockY < NBY
  THEN TLCEval([out EXCEPT ![1 + (BlockF * NBY + BlockY) * NBX + BlockX] = bytes])
  ELSE out
\* indices ix moved by deltas v, which come in the order Sent
MoveAll(ix, v) == [c \in 1..NC |-> LET j == CHOOSE i \in 1..NC : Sent[i] = c
                                   IN (ix[c] + v[j]) % Max2(1, Len(Ends(c)))]
SentModels(M(_)) == [i \in 1..NC |-> M(Sent[i])]
\* the end points a reference stands for
Referred(ref, moved, run, above, diag) == CASE ref = 0 -> moved    \* new
                                            [] ref = 1 -> run      \* as the last (sub-)block
                                            [] ref = 2 -> above    \* as the block above
                                            [] ref = 3 -> diag     \* as the one above and left
InPalettes(ix) == \A c \in 1..NC : ix[c] < Len(Ends(c))

\* one symbol holds the references of 2x2 blocks, two bits each: this block, the one below it,
\* the one to the right, the one below that
NoBlock == [at |-> Fail, lev |-> lev, buf |-> buf, out |-> out]
Block ==
  LET fresh == BlockX % 2 = 0 /\ BlockY % 2 = 0
      s0  == IF fresh THEN Symbol(D, sec, at, ms[1]) ELSE <<lev.enc, at>>
      top == BlockY % 2 = 0
      b   == buf[BlockX + 1]
      ref == IF top THEN s0[1] % 4 ELSE b.ref
      s1  == IF ref = 0 THEN Symbols(D, sec, s0[2], SentModels(EndModel)) ELSE <<<<>>, s0[2]>>
      s2  == Symbols(D, sec, s1[2], SentModels(SelModel))
      ix  == TLCEval(Referred(IF ref = 3 THEN 2 ELSE ref, IF ref = 0 THEN MoveAll(lev.run, s1[1]) ELSE <<>>, lev.run, b.ix, lev.diag))
      S(c) == s2[1][CHOOSE i \in 1..NC : Sent[i] = c]
  IN IF s0[2] = Fail \/ s0[1] > 255 THEN NoBlock
     ELSE IF s1[2] = Fail THEN NoBlock
     ELSE IF s2[2] = Fail THEN NoBlock
     ELSE IF ~InPalettes(ix) THEN NoBlock
     ELSE [at  |-> s2[2],
           lev |-> [lev EXCEPT !.k = @ + 1, !.run = ix, !.enc = IF top THEN s0[1] \div 16 ELSE s0[1]],
           buf |-> [buf EXCEPT ![BlockX + 1] = [ref |-> IF top THEN (s0[1] \div 4) % 4 ELSE b.ref, ix |-> ix]],
           out |-> PutBlock(Flat([c \in 1..NC |-> Ends(c)[1 + ix[c]] \o Sels(c)[1 + S(c)]]))]

\* ETC colours of two sub-blocks: the differential mode if the differences allow it
EtcBytes(e0, e1, flip) ==
  LET diff == \A i \in 1..3 : e1[i] - e0[i] \in -4..3
      C(i) == IF diff THEN 8 * e0[i] + ((e1[i] - e0[i]) % 8) ELSE 16 * (e0[i] \div 2) + (e1[i] \div 2)
  IN <<C(1), C(2), C(3), 32 * e0[4] + 4 * e1[4] + (IF diff THEN 2 ELSE 0) + flip>>

\* one symbol holds the references of a block and the one below it: two bits for the first
\* sub-block of each, interleaved with two bits for the second
EtcBlock ==
  LET top == BlockY % 2 = 0
      s0  == IF top THEN Symbol(D, sec, at, ms[1]) ELSE <<0, at>>
      b   == buf[2 * BlockX + 1]          \* first sub-block of the block above
      b2  == buf[2 * BlockX + 2]          \* second one
      ref == IF top THEN Field(s0[1], 0, 2) + 4 * Field(s0[1], 4, 2) ELSE b.ref
      r0  == ref % 4
      r1  == ref \div 4
      s1  == IF r0 = 0 THEN Symbols(D, sec, s0[2], SentModels(EndModel)) ELSE <<<<>>, s0[2]>>
      s2  == Symbols(D, sec, s1[2], SentModels(SelModel))
      s3  == IF r1 # 0 THEN Symbol(D, sec, s2[2], ms[2]) ELSE <<0, s2[2]>>
      color == NC                         \* which component is the colour
      ix0 == TLCEval(Referred(r0, IF r0 = 0 THEN MoveAll(lev.run, s1[1]) ELSE <<>>, lev.run, b.ix, lev.diag))
      ix1 == TLCEval([ix0 EXCEPT ![color] = (@ + s3[1]) % Max2(1, Len(pal[1]))])
      flip == 1 - (r1 \div 2)
      S(c) == s2[1][CHOOSE i \in 1..NC : Sent[i] = c]
  IN IF s0[2] = Fail \/ s0[1] > 255 THEN NoBlock
     ELSE IF s1[2] = Fail THEN NoBlock
     ELSE IF s2[2] = Fail THEN NoBlock
     ELSE IF s3[2] = Fail THEN NoBlock
     ELSE IF ~InPalettes(ix0) \/ ~InPalettes(ix1) THEN NoBlock
     ELSE [at  |-> s3[2],
           lev |-> [lev EXCEPT !.k = @ + 1, !.run = ix1, !.diag = b2.ix],
           buf |-> [buf EXCEPT ![2 * BlockX + 1] =
                                 [ref |-> IF top THEN Field(s0[1], 2, 2) + 4 * Field(s0[1], 6, 2) ELSE b.ref,
                                  ix |-> ix0],
                               ![2 * BlockX + 2] = [ref |-> 0, ix |-> ix1]],
           out |-> PutBlock(
              (IF NC = 2 THEN Ends(1)[1 + ix0[1]] \o Sels(1)[1 + S(1)][1 + flip] ELSE <<>>)
              \o EtcBytes(pal[1][1 + ix0[color]], pal[1][1 + ix1[color]], flip)
              \o Sels(color)[1 + S(color)][1 + flip])]
NextBlock ==
  /\ pc = "blocks" /\ lev.k < NumBlocks /\ Step
  /\ UNCHANGED <<sec, ms, todo, pm, acc, pal>>
  /\ \E c \in {IF SubBlocks THEN EtcBlock ELSE Block} :
       /\ at' = c.at /\ lev' = c.lev /\ buf' = c.buf /\ out' = c.out
       /\ IF c.at = Fail THEN Done("bad") ELSE UNCHANGED <<pc, verdict>>
EndBlocks == /\ pc = "blocks" /\ lev.k = NumBlocks /\ Step /\ Done("ok")
             /\ UNCHANGED <<sec, at, ms, todo, pm, acc, pal, lev, buf, out>>

Next == \/ ReadHeader \/ ReceiveTable \/ EndTables \/ OpenPalette \/ NextEntry \/ EndPalette \/ OpenLevel
        \/ NextChunk \/ EndChunks \/ NextBlock \/ EndBlocks
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* what the call must do if the file is well-formed: decode the blocks, of all faces, as an image
Outcome == Expected([f |-> BlockFormat, d |-> TLCEval(Flat(out)), w |-> Log[l].w, h |-> Log[l].h,
                     a |-> 0, b |-> 0, n |-> Log[l].n, o |-> Log[l].o])

\* every reached state makes sense
TypeOK == /\ pc \in {"header", "tables", "open", "entries", "chunks", "blocks", "done"}
          /\ verdict \in {"-", "ok", "err", "bad"} /\ (verdict = "-" <=> pc # "done")
          /\ at >= Fail /\ (at # Fail => at <= 8 * sec[2])
Sizes == pc = "done" /\ verdict = "ok" =>
           \A i \in 1..Len(out) : Len(out[i]) = BytesPerBlock(F)
=============================================================================
