------------------------------ MODULE CrnWrite ------------------------------
(***************************************************************************)
(* A writer of Crunch files: picks a small picture (palettes of values,    *)
(* and which entries each block uses), says what the blocks of it are, and *)
(* puts it into a file of either variant.  The decoder (Crunch) works in   *)
(* steps, from bits to blocks; here everything is said at once, from the   *)
(* picture to the bits, and where the format has a layout it is said in    *)
(* another way than there (rectangles, rows of texels, sorted codes).      *)
(*                                                                         *)
(* A picture is a variant u (TRUE: Unity's), a file format q and a number  *)
(* s, which everything else follows from.                                  *)
(***************************************************************************)
EXTENDS Bits, FiniteSets
LOCAL INSTANCE Pack
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE CrnCodec
RECURSIVE JoinPart(_, _, _)
JoinPart(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
                      ELSE LET m == (i + j) \div 2 IN JoinPart(ss, i, m) \o JoinPart(ss, m + 1, j)
Join(ss) == LET v == TLCEval(ss) IN JoinPart(v, 1, Len(v))

\* the k-th choice of a number below m, of picture s
Pick(s, k, m) == (Vary(s * 1553 + k * 211 + (k \div 7) * 17 + s * (k % 13), 15) * m) \div 32768
Big(v, n) == [i \in 1..n |-> (v \div Pow2(8 * (n - i))) % 256]              \* n bytes, the top one first
Num(v, n) == [i \in 1..n |-> (v \div Pow2(n - i)) % 2]                       \* n bits, the top one first
Octets(bits) == IF DOMAIN bits = {} THEN <<>> ELSE
                LET k == (Len(bits) + 7) \div 8
                    B(i) == IF i > Len(bits) THEN 0 ELSE bits[i]
                IN [j \in 1..k |-> LET b(m) == B(8 * (j - 1) + m) * Pow2(8 - m)
                                   IN b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7) + b(8)]

(* --- codes: for the symbols that occur, in a style ------------------------ *)
Log2Up(k) == CHOOSE n \in 0..14 : Pow2(n) >= k /\ (n = 0 \/ Pow2(n - 1) < k)
\* lengths for k symbols, none over `limit'
LengthsFor(k, style, limit) ==
  LET even == Max2(1, Log2Up(k))
  IN CASE k = 1 -> << (<<1, 1, 2, limit>>)[style + 1] >>
       [] k > 1 /\ style = 1 /\ k - 1 <= limit -> [i \in 1..k |-> Min2(i, k - 1)]
       [] k > 1 /\ style = 2 /\ k - 1 <= limit -> [i \in 1..k |-> Min2(k + 1 - i, k - 1)]
       [] k > 1 /\ style = 3 /\ even < limit -> [i \in 1..k |-> even + 1]
       [] OTHER -> [i \in 1..k |-> even]
\* the elements of a set, by their keys (no two the same)
Sorted(T, Key(_)) == TLCEval([i \in 1..Cardinality(T) |->
                       CHOOSE x \in T : Cardinality({y \in T : Key(y) < Key(x)}) = i - 1])
\* a code: the lengths of symbols 0.. (`more' of them without use at the end), and the word of each.
\* In the order of lengths, and numbers, each symbol takes its share of the 65536 words of 16 bits
CodeFor(used, style, limit, more) ==
  IF used = {} THEN [lens |-> <<>>, word |-> <<>>]
  ELSE LET U == Sorted(used, LAMBDA x : x)
           ls == TLCEval(LengthsFor(Len(U), style, limit))
           len == TLCEval([x \in used |-> ls[CHOOSE i \in 1..Len(U) : U[i] = x]])
           S == Sorted(used, LAMBDA x : 16384 * len[x] + x)
           RECURSIVE Shares(_)
           Shares(i) == IF i = 0 THEN <<0>> ELSE LET p == TLCEval(Shares(i - 1)) IN Append(p, p[i] + Pow2(16 - len[S[i]]))
           from == TLCEval(Shares(Len(S)))
           Word(i) == Num(from[i] \div Pow2(16 - len[S[i]]), len[S[i]])
       IN [lens |-> TLCEval([i \in 1..(U[Len(U)] + 1 + more) |-> IF (i - 1) \in used THEN len[i - 1] ELSE 0]),
           word |-> TLCEval([x \in used |-> TLCEval(Word(CHOOSE i \in 1..Len(S) : S[i] = x))])]

\* the lengths as <<symbol, number, its width>>: one by one, or in runs where there are some.
\* k times the same v: as many of the longest runs as there are, and the rest
Times(v, k, short, sw, least, long, lw, most) ==
  LET r == k % most
  IN [i \in 1..(k \div most) |-> <<long, Pow2(lw) - 1, lw>>]
     \o (IF r < 3 THEN [i \in 1..r |-> <<v, 0, 0>>]
         ELSE IF r < least THEN << <<short, r - 3, sw>> >> ELSE << <<long, r - least, lw>> >>)
Ops(ls, runs) ==
  LET starts == Sorted({i \in 1..Len(ls) : i = 1 \/ ls[i] # ls[Max2(i - 1, 1)]}, LAMBDA x : x)
      Run(j) == LET v == ls[starts[j]]
                    k == (IF j = Len(starts) THEN Len(ls) + 1 ELSE starts[j + 1]) - starts[j]
                IN IF ~runs THEN [i \in 1..k |-> <<v, 0, 0>>]
                   ELSE IF v = 0 THEN Times(0, k, 17, 3, 11, 18, 7, 138)
                   ELSE << <<v, 0, 0>> >> \o Times(v, k - 1, 19, 2, 7, 20, 6, 70)
  IN Join([j \in 1..Len(starts) |-> Run(j)])
SendCode(c, style) ==
  IF DOMAIN c.word = {} THEN Num(0, 14)
  ELSE LET ops == TLCEval(Ops(c.lens, style # 2))
           cl  == TLCEval(CodeFor({ops[i][1] : i \in 1..Len(ops)}, style, 7, 0))
           sent == CHOOSE k \in 1..21 : /\ LengthOrder[k] \in DOMAIN cl.word
                                        /\ \A j \in (k + 1)..21 : LengthOrder[j] \notin DOMAIN cl.word
           Of(x) == IF x \in DOMAIN cl.word THEN cl.lens[x + 1] ELSE 0
       IN Num(Len(c.lens), 14) \o Num(sent, 5) \o Join([k \in 1..sent |-> Num(Of(LengthOrder[k]), 3)])
          \o Join([i \in 1..Len(ops) |-> cl.word[ops[i][1]] \o Num(ops[i][2], ops[i][3])])

\* a message is a sequence of <<code, symbol>>; the codes 1..k that fit it
CodesFor(s, msg, k) == TLCEval([j \in 1..k |->
    CodeFor({msg[i][2] : i \in {x \in 1..Len(msg) : msg[x][1] = j}}, Pick(s, 900 + 10 * k + j, 4), 16, 0)])
SendCodes(s, cs) == Join([j \in 1..Len(cs) |-> SendCode(cs[j], Pick(s, 950 + j, 4))])
Say(cs, msg) == Join([i \in 1..Len(msg) |-> cs[msg[i][1]].word[msg[i][2]]])

(* --- the picture ----------------------------------------------------------- *)
EtcColors(u, q) == u /\ q \in 10..14
\* blocks of two colours
Double(u, q) == u /\ q \in 10..12
\* 1 colour and 3 alpha, in the order of the bytes of a block
Parts(u, q) == CASE q \in {0, 10, 11, 13} -> <<1>> [] q \in (2..6) \cup {12, 14} -> <<3, 1>>
                 [] q = 9 -> <<3>> [] q \in {7, 8} -> <<3, 3>>
Across(s) == 1 + Pick(s, 1, 4)
Down(s) == 1 + Pick(s, 2, 4)
Sides(s) == 1 + Pick(s, 3, 2)
Needed(u, q, k) == \E i \in 1..Len(Parts(u, q)) : k \in {Parts(u, q)[i], Parts(u, q)[i] + 1}
\* entries of palette k (sometimes there is one nobody needs)
Entries(u, q, s, k) == IF Needed(u, q, k) \/ Pick(s, 4 + (k - 1) \div 2, 8) = 0 THEN 1 + Pick(s, 5 + k, 6) ELSE 0
\* entry e (from 0) of palette k, as values: what comes before the first one is zeros
Sixteen == 1..16
Value(u, q, s, k, e) ==
  LET V(i, m) == IF e < 0 THEN 0 ELSE Pick(s, 20 + 23 * e + 7 * k + 400 * i, m)
  IN CASE k = 1 /\ EtcColors(u, q) -> <<V(1, 32), V(2, 32), V(3, 32), V(4, 8)>>
       [] k = 1 /\ ~EtcColors(u, q) -> <<V(1, 32), V(2, 64), V(3, 32), V(4, 32), V(5, 64), V(6, 32)>>
       [] k = 2 -> [i \in Sixteen |-> V(i, 4)]
       [] k = 3 -> <<V(1, 256), V(2, 256)>>
       [] k = 4 -> [i \in Sixteen |-> V(i, 8)]

(* what the parts of a block are, from the values *)
\* texels are told row by row or column by column: the value of texel x, y
At(v, rows, x, y) == v[1 + (IF rows THEN 4 * y + x ELSE 4 * x + y)]
\* low to high is 0, 2, 3, 1 of four colours, and 0, 2, .. 7, 1 of eight
Bc4(v) == Bytes(Stream([i \in Sixteen |-> << CASE v[i] = 0 -> 0 [] v[i] = 7 -> 1 [] OTHER -> v[i] + 1, 3 >>]))
Bc1(v) == Bytes(Stream([i \in Sixteen |-> << CASE v[i] = 0 -> 0 [] v[i] = 3 -> 1 [] OTHER -> v[i] + 1, 2 >>]))
\* ETC tells texels column by column; low to high is 3, 2, 0, 1, or 3, 2, 1, 0, 4, .. 7
ByColumn(v, rows) == [i \in Sixteen |-> At(v, rows, (i - 1) \div 4, (i - 1) % 4)]
EtcIx(v, rows) ==
  LET c == ByColumn(v, rows)
      High(i) == IF c[i] < 2 THEN 1 ELSE 0
      Low(i)  == IF c[i] \in {0, 3} THEN 1 ELSE 0
  IN BytesTop([i \in Sixteen |-> <<High(17 - i), 1>>] \o [i \in Sixteen |-> <<Low(17 - i), 1>>])
EacIx(v, rows) ==
  LET c == ByColumn(v, rows)
  IN BytesTop([i \in Sixteen |-> << CASE c[i] = 0 -> 3 [] c[i] = 1 -> 2 [] c[i] = 2 -> 1 [] c[i] = 3 -> 0 [] OTHER -> c[i], 3 >>])
Bc1Ends(v) == LET C(r, g, b) == Stream(<< <<b, 5>>, <<g, 6>>, <<r, 5>> >>)
              IN Bytes(C(v[1], v[2], v[3]) \o C(v[4], v[5], v[6]))
\* two colours: as base and change if each channel changes by -4..3, else by their upper four bits
EtcEnds(v, w, flip) ==
  LET near == \A c \in 1..3 : v[c] - 4 <= w[c] /\ w[c] <= v[c] + 3
      Ch(c) == IF near THEN << <<v[c], 5>>, <<(w[c] + 8 - v[c]) % 8, 3>> >> ELSE << <<v[c] \div 2, 4>>, <<w[c] \div 2, 4>> >>
  IN BytesTop(Ch(1) \o Ch(2) \o Ch(3) \o << <<v[4], 3>>, <<w[4], 3>>, <<IF near THEN 1 ELSE 0, 1>>, <<flip, 1>> >>)

(* --- palettes --------------------------------------------------------------- *)
\* entries are told by how they differ from the one before
Apart(a, b, m) == (b - a + m) % m
PaletteSays(u, q, s, k) ==
  LET E(e) == LET a == TLCEval(Value(u, q, s, k, e - 1))
                  b == TLCEval(Value(u, q, s, k, e))
                  Two(i, f(_, _), m) == <<1, f(a[2 * i - 1], b[2 * i - 1]) + m * f(a[2 * i], b[2 * i])>>
                  Flips(x, y) == x ^^ y
              IN CASE k = 1 /\ ~EtcColors(u, q) ->
                        [i \in 1..6 |-> IF i \in {2, 5} THEN <<2, Apart(a[i], b[i], 64)>> ELSE <<1, Apart(a[i], b[i], 32)>>]
                   [] k = 1 /\ EtcColors(u, q) -> [i \in 1..4 |-> <<1, Apart(a[i], b[i], 32)>>]
                   [] k = 3 -> [i \in 1..2 |-> <<1, Apart(a[i], b[i], 256)>>]
                   [] k = 2 /\ u -> [i \in 1..8 |-> Two(i, Flips, 4)]
                   [] k = 4 /\ u -> [i \in 1..8 |-> Two(i, Flips, 8)]
                   [] k = 2 /\ ~u -> [i \in 1..8 |-> Two(i, LAMBDA x, y : y - x + 3, 7)]
                   [] k = 4 /\ ~u -> [i \in 1..8 |-> Two(i, LAMBDA x, y : y - x + 7, 15)]
  IN Join([e \in 1..Entries(u, q, s, k) |-> E(e - 1)])
PaletteBits(u, q, s, k) ==
  LET msg == TLCEval(PaletteSays(u, q, s, k))
      cs == CodesFor(s + k, msg, IF k = 1 /\ ~EtcColors(u, q) THEN 2 ELSE 1)
  IN SendCodes(s + k, cs) \o Say(cs, msg)

(* --- blocks ------------------------------------------------------------------ *)
\* the code of the end points and of the selectors of part p (1 colour, 3 alpha)
EndCode(p) == IF p = 1 THEN 2 ELSE 4
SelCode(p) == IF p = 1 THEN 3 ELSE 5

\* Crunch: 2x2 blocks at a time, in up to four rectangles x, y, width, height
Rects == << << <<0, 0, 2, 2>> >>,
            << <<0, 0, 2, 1>>, <<0, 1, 2, 1>> >>,
            << <<0, 0, 1, 2>>, <<1, 0, 1, 2>> >>,
            << <<0, 0, 2, 1>>, <<0, 1, 1, 1>>, <<1, 1, 1, 1>> >>,
            << <<0, 1, 2, 1>>, <<0, 0, 1, 1>>, <<1, 0, 1, 1>> >>,
            << <<0, 0, 1, 2>>, <<1, 0, 1, 1>>, <<1, 1, 1, 1>> >>,
            << <<1, 0, 1, 2>>, <<0, 0, 1, 1>>, <<0, 1, 1, 1>> >>,
            << <<0, 0, 1, 1>>, <<1, 0, 1, 1>>, <<0, 1, 1, 1>>, <<1, 1, 1, 1>> >> >>
RectOf(e, x, y) == CHOOSE t \in 1..Len(Rects[e]) :
                     LET r == Rects[e][t] IN x \in r[1]..(r[1] + r[3] - 1) /\ y \in r[2]..(r[2] + r[4] - 1)
CrunchPicture(q, s) ==
  LET P == Parts(FALSE, q)
      cx == (Across(s) + 1) \div 2
      cy == (Down(s) + 1) \div 2
      nc == Sides(s) * cx * cy
      Ways(k) == 1 + Pick(s, 40 + 3 * k, 8)
      Ent(p) == Entries(FALSE, q, s, p)
      Tile(k, c, t) == Pick(s, 60 + 100 * c + 17 * k + 1000 * t, Ent(P[c]))
      Sel(k, c, b) == Pick(s, 61 + 100 * c + 19 * k + 1000 * b, Ent(P[c] + 1))
      LastTile(k, c) == IF k < 0 THEN 0 ELSE Tile(k, c, Len(Rects[Ways(k)]))
      Says(k) ==
        LET T == Len(Rects[Ways(k)])
        IN (IF k % 3 = 0 THEN << <<1, (Ways(k) - 1) + 8 * (Ways(k + 1) - 1) + 64 * (Ways(k + 2) - 1)>> >> ELSE <<>>)
           \o Join([c \in 1..Len(P) |-> [t \in 1..T |->
                << EndCode(P[c]), Apart(IF t = 1 THEN LastTile(k - 1, c) ELSE Tile(k, c, t - 1), Tile(k, c, t), Ent(P[c])) >>]])
           \o Join([b \in 1..4 |-> [c \in 1..Len(P) |->
                << SelCode(P[c]), Apart(IF b > 1 THEN Sel(k, c, b - 1) ELSE IF k = 0 THEN 0 ELSE Sel(k - 1, c, 4),
                                        Sel(k, c, b), Ent(P[c] + 1)) >>]])
      \* rows of chunks, there and back
      Line(f, y) == [x \in 1..cx |-> <<f, y, IF y % 2 = 0 THEN x - 1 ELSE cx - x>>]
      Places == TLCEval(Join([r \in 1..(Sides(s) * cy) |-> Line((r - 1) \div cy, (r - 1) % cy)]))
      ChunkOf(f, y, x) == (CHOOSE i \in 1..Len(Places) : Places[i] = <<f, y \div 2, x \div 2>>) - 1
      Bytes1(f, y, x) ==
        LET k == ChunkOf(f, y, x)
            B(c) == LET e == Value(FALSE, q, s, P[c], Tile(k, c, RectOf(Ways(k), x % 2, y % 2)))
                        v == Value(FALSE, q, s, P[c] + 1, Sel(k, c, 1 + 2 * (y % 2) + (x % 2)))
                    IN IF P[c] = 1 THEN Bc1Ends(e) \o Bc1(v) ELSE e \o Bc4(v)
        IN Join([c \in 1..Len(P) |-> B(c)])
      nx == Across(s)
      ny == Down(s)
  IN [says |-> Join([k \in 1..nc |-> Says(k - 1)]),
      blocks |-> [i \in 1..(Sides(s) * nx * ny) |-> Bytes1((i - 1) \div (nx * ny), ((i - 1) \div nx) % ny, (i - 1) % nx)]]

\* Unity: block after block, of a picture of an even number of blocks in both directions
UnityPicture(q, s) ==
  LET P == Parts(TRUE, q)
      np == Len(P)
      two == Double(TRUE, q)
      nx == Across(s)
      ny == Down(s)
      px == nx + (nx % 2)
      py == ny + (ny % 2)
      nb == Sides(s) * px * py
      Ent(p) == Entries(TRUE, q, s, p)
      \* which end points: 0 some, 1 those of the last block, 2 the one above, 3 the one above and left
      From(k) == Pick(s, 41 + 3 * k, 4)
      \* the second colour: 0 the same (one above the other); else some, 1 one above the other, 2 and 3 side by side
      Then(k) == Pick(s, 42 + 5 * k, 4)
      New(k, c) == Pick(s, 43 + 7 * k + 300 * c, Ent(P[c]))
      New2(k) == Pick(s, 44 + 11 * k, Ent(1))
      Sel(k, c) == Pick(s, 45 + 13 * k + 301 * c, Ent(P[c] + 1))
      None == [c \in 1..np |-> 0]
      \* end points of the first k blocks: <<first, second>>
      RECURSIVE Ends(_)
      Ends(k) ==
        IF k = 0 THEN <<>>
        ELSE LET E == TLCEval(Ends(k - 1))
                 Of(j, i) == IF j < 1 THEN None ELSE E[j][i]
                 f == From(k - 1)
                 a == CASE f = 0 -> [c \in 1..np |-> New(k - 1, c)]
                        [] f = 1 -> Of(k - 1, 2)
                        [] f = 2 \/ (f = 3 /\ ~two) -> Of(k - px, 1)
                        [] OTHER -> Of(k - 1 - px, 2)
                 b == IF ~two \/ Then(k - 1) = 0 THEN a ELSE [a EXCEPT ![np] = New2(k - 1)]
             IN Append(E, <<a, b>>)
      E == TLCEval(Ends(nb))
      Row(k) == (k \div px) % py
      Order == IF np = 2 /\ P[1] # P[2] THEN <<2, 1>> ELSE [c \in 1..np |-> c]
      Says(k) ==
        LET before == IF k = 0 THEN None ELSE E[k][2]
            group == IF Row(k) % 2 = 1 THEN <<>>
                     ELSE IF two THEN << <<1, From(k) + 4 * From(k + px) + 16 * Then(k) + 64 * Then(k + px)>> >>
                     ELSE IF (k % px) % 2 = 1 THEN <<>>
                     ELSE << <<1, From(k) + 4 * From(k + px) + 16 * From(k + 1) + 64 * From(k + px + 1)>> >>
        IN group
           \o (IF From(k) = 0 THEN [i \in 1..np |-> LET c == Order[i] IN
                                      << EndCode(P[c]), Apart(before[c], E[k + 1][1][c], Ent(P[c])) >>] ELSE <<>>)
           \o [i \in 1..np |-> << SelCode(P[Order[i]]), Sel(k, Order[i]) >>]
           \o (IF two /\ Then(k) # 0 THEN << << 2, Apart(E[k + 1][1][np], E[k + 1][2][np], Ent(1)) >> >> ELSE <<>>)
      Bytes1(k) ==
        LET flip == IF two /\ Then(k) < 2 THEN 1 ELSE 0
            rows == ~two \/ flip = 1
            B(c) == LET e1 == Value(TRUE, q, s, P[c], E[k + 1][1][c])
                        e2 == Value(TRUE, q, s, P[c], E[k + 1][2][c])
                        v == Value(TRUE, q, s, P[c] + 1, Sel(k, c))
                    IN IF P[c] = 1
                       THEN (IF EtcColors(TRUE, q) THEN EtcEnds(e1, e2, flip) \o EtcIx(v, rows) ELSE Bc1Ends(e1) \o Bc1(v))
                       ELSE e1 \o (IF q \in {12, 14} THEN EacIx(v, rows) ELSE Bc4(v))
        IN Join([c \in 1..np |-> B(c)])
  IN [says |-> Join([k \in 1..nb |-> Says(k - 1)]),
      blocks |-> [i \in 1..(Sides(s) * nx * ny) |->
                    Bytes1(((i - 1) \div (nx * ny)) * px * py + (((i - 1) \div nx) % ny) * px + ((i - 1) % nx))]]

(* --- the file ----------------------------------------------------------------- *)
\* header, then tables (1), palettes (2..5) and the level (6) in some order; `cut' bytes are missing
File(u, q, s) ==
  LET pic == TLCEval(IF u THEN UnityPicture(q, s) ELSE CrunchPicture(q, s))
      cs == CodesFor(s, pic.says, 5)
      has == <<1>> \o SelectSeq(<<2, 3, 4, 5>>, LAMBDA k : Entries(u, q, s, k - 1) > 0)
      wanted == SelectSeq(<<1, 2, 3, 4, 5>>, LAMBDA j : j = 1 \/ Entries(u, q, s, j - 1) > 0)
      level == TLCEval(Say(cs, pic.says))
      bits == TLCEval([k \in 1..6 |-> IF k = 1 THEN SendCodes(s, [j \in 1..Len(wanted) |-> cs[wanted[j]]])
                                      ELSE IF k = 6 THEN level
                                      ELSE IF Entries(u, q, s, k - 1) > 0 THEN PaletteBits(u, q, s, k - 1) ELSE <<>>])
      body == TLCEval([k \in 1..6 |-> Octets(bits[k])])
      order == LET o == has \o <<6>>
                   r == Pick(s, 10, 4)
               IN CASE r = 0 -> o [] r = 1 -> Reverse(has) \o <<6>> [] r = 2 -> <<6>> \o has [] r = 3 -> Reverse(o)
      levels == 1 + Pick(s, 11, 3)
      gap == Pick(s, 12, 2)
      head == 70 + 4 * levels
      Pos(k) == CHOOSE i \in 1..Len(order) : order[i] = k
      RECURSIVE Ofs(_)
      Ofs(i) == IF i = 1 THEN head + gap ELSE Ofs(i - 1) + Len(body[order[i - 1]]) + gap
      Sec(k) == IF \E i \in 1..Len(order) : order[i] = k THEN <<Ofs(Pos(k)), Len(body[k])>> ELSE <<0, 0>>
      total == Ofs(Len(order)) + Len(body[order[Len(order)]])
      w == 4 * Across(s) - Pick(s, 13, 4)
      h == 4 * Down(s) - Pick(s, 14, 4)
      header == Big(18552, 2) \o Big(head, 2) \o <<1, 2>> \o Big(total, 4) \o <<3, 4>> \o Big(w, 2) \o Big(h, 2)
                \o <<levels, Sides(s), q>> \o <<0, 0, 0, 0, 0, 0>> \o Big(s, 4) \o <<255, 0, 255, 0>>
                \o Join([k \in 1..4 |-> Big(Sec(k + 1)[1], 3) \o Big(Sec(k + 1)[2], 3) \o Big(Entries(u, q, s, k), 2)])
                \o Big(Sec(1)[2], 2) \o Big(Sec(1)[1], 3)
                \o Big(Sec(6)[1], 4)
                \* the other levels are never looked at: they only end the first
                \o Join([i \in 1..(levels - 1) |-> Big(IF i = 1 THEN Sec(6)[1] + Sec(6)[2] ELSE 16777215, 4)])
  IN [f |-> IF u THEN "unity_crunch" ELSE "crunch", w |-> w, h |-> h,
      d |-> TLCEval(header \o Join([i \in 1..Len(order) |-> [j \in 1..gap |-> 170] \o body[order[i]]])),
      blocks |-> TLCEval(pic.blocks), used |-> Len(level),
      \* nothing is behind the level that could be taken for a part of it
      last |-> levels = 1 /\ order[Len(order)] = 6]
=============================================================================
