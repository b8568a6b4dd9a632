------------------------------ MODULE MCBlocks ------------------------------
(***************************************************************************)
(* BC1-BC5, ATC, ETC, EAC and the half-float conversion on their own:      *)
(* written blocks are read back, ramps are in order between their end      *)
(* points, ETC2's hidden modes are reached exactly where ETC1 overflows,   *)
(* and the formats that contain one another agree.                         *)
(***************************************************************************)
EXTENDS ETC, Pack, Half
BC == INSTANCE BCn
AT == INSTANCE ATC
CONSTANTS Rounds, Kinds
VARIABLE t
\* << kind, lane, number >>
Init == t \in {x \in ({"ramp", "half"} \X (0..31) \X {0})
              \cup ({"bc", "atc", "etc", "T", "H", "planar", "eac"} \X (0..7) \X {0}) : x[1] \in Kinds}
Stop == CASE t[1] = "ramp" -> 7 [] t[1] = "half" -> 7 [] OTHER -> 16 * Rounds - 1
Next == t[3] < Stop /\ t' = [t EXCEPT ![3] = @ + 1]
N(k, n) == Vary(1009 * t[3] + 4091 * t[2] + k, n)
All(P(_)) == [i \in 1..16 |-> P(i)]

-----------------------------------------------------------------------------
(* the 8-value ramp: both end points exact, in order, in bounds; for every first end point *)
Ramps ==
  t[1] = "ramp" => LET a0 == 8 * t[2] + t[3] IN
    \A a1 \in 0..255 :
      LET p == BC!RampPalette(<< a0, a1 >>, 0)
      IN /\ p[1] = a0 /\ p[2] = a1
         /\ IF a0 > a1
            THEN /\ \A k \in 3..7 : p[k] >= p[k + 1]
                 /\ a0 >= p[3] /\ p[8] >= a1
            ELSE /\ \A k \in 3..5 : p[k] <= p[k + 1]
                 /\ a0 <= p[3] /\ p[6] <= a1 /\ p[7] = 0 /\ p[8] = 255
Halves ==
  t[1] = "half" => \A k \in 0..255 :
    LET h == 2048 * t[2] + 256 * t[3] + k
        x == HalfToU8(h)
    IN /\ x \in 0..255
       /\ h >= 32768 => x = 0                                 \* negative, -0, negative NaN
       /\ h < 31744 => x <= HalfToU8(h + 1)                   \* in order up to infinity
       /\ h \in 15360..31744 => x = 255
       /\ h > 31744 /\ h < 32768 => x = 0                     \* NaN

-----------------------------------------------------------------------------
(* BC1-BC5 *)
BCReadBack ==
  t[1] = "bc" =>
    LET r0 == N(1, 5)  g0 == N(2, 6)  b0 == N(3, 5)
        r1 == N(4, 5)  g1 == N(5, 6)  b1 == N(6, 5)
        c0 == 2048 * r0 + 32 * g0 + b0
        c1 == 2048 * r1 + 32 * g1 + b1
        x(i) == N(10 + i, 2)
        a(i) == N(40 + i, 4)
        e0 == N(7, 8)   e1 == IF t[3] % 2 = 0 THEN N(8, 8) ELSE 255 - N(7, 8)
        f(i) == N(70 + i, 3)
        col == Stream(<< << b0, 5 >>, << g0, 6 >>, << r0, 5 >>, << b1, 5 >>, << g1, 6 >>, << r1, 5 >> >>
                      \o [i \in 1..16 |-> << x(i), 2 >>])
        alph == Stream([i \in 1..16 |-> << a(i), 4 >>])
        ramp == Stream(<< << e0, 8 >>, << e1, 8 >> >> \o [i \in 1..16 |-> << f(i), 3 >>])
        C0 == << Expand(r0, 5), Expand(g0, 6), Expand(b0, 5) >>
        C1 == << Expand(r1, 5), Expand(g1, 6), Expand(b1, 5) >>
        \* k thirds (halves) of the way from the first to the second
        Mix(k, n) == << (C0[1] * (n - k) + C1[1] * k) \div n, (C0[2] * (n - k) + C1[2] * k) \div n,
                        (C0[3] * (n - k) + C1[3] * k) \div n >>
        P(c, al) == Pix(c[1], c[2], c[3], al)
        Four(i, al) == P(CASE x(i) = 0 -> C0 [] x(i) = 1 -> C1 [] x(i) = 2 -> Mix(1, 3) [] OTHER -> Mix(2, 3), al)
        Three(i, hole) == IF x(i) = 3 THEN Pix(0, 0, 0, hole)
                          ELSE P(CASE x(i) = 0 -> C0 [] x(i) = 1 -> C1 [] OTHER -> Mix(1, 2), 255)
        One(i, hole) == IF c0 > c1 THEN Four(i, 255) ELSE Three(i, hole)
        R(i) == CASE f(i) = 0 -> e0 [] f(i) = 1 -> e1
                  [] e0 > e1 -> (e0 * (8 - f(i)) + e1 * (f(i) - 1)) \div 7
                  [] f(i) < 6 -> (e0 * (6 - f(i)) + e1 * (f(i) - 1)) \div 5
                  [] f(i) = 6 -> 0 [] OTHER -> 255
        db == TLCEval(Bytes(col))
        da == TLCEval(Bytes(alph \o col))
        dr == TLCEval(Bytes(ramp \o col))
        dg == TLCEval(Bytes(ramp \o Stream(<< << e1, 8 >>, << e0, 8 >> >> \o [i \in 1..16 |-> << 7 - f(i), 3 >>])))
    IN /\ Len(col) = 64 /\ Len(alph) = 64 /\ Len(ramp) = 64
       /\ BC!BC1Block(db, 0) = All(LAMBDA i : One(i, 255))
       /\ BC!BC1aBlock(db, 0) = All(LAMBDA i : One(i, 0))
       /\ BC!BC2Block(da, 0) = All(LAMBDA i : Four(i, 17 * a(i)))
       /\ BC!BC3Block(dr, 0) = All(LAMBDA i : Four(i, R(i)))
       /\ BC!BC4Block(dr, 0) = All(LAMBDA i : Pix(R(i), 0, 0, 255))
       /\ \A i \in 1..16 : PR(BC!BC5Block(dg, 0)[i]) = R(i) /\ PB(BC!BC5Block(dg, 0)[i]) = 0
                           /\ BC!BC5Block(dg, 0)[i] = WithG(Pix(R(i), 0, 0, 255), PR(BC!BC4Block(dg, 8)[i]))
       /\ Give("bc1", 0, 0, 4, 4, db)
       /\ Give("bc1a", 0, 0, 4, 4, db)
       /\ Give("bc2", 0, 0, 4, 4, da)
       /\ Give("bc3", 0, 0, 4, 4, dr)
       /\ Give("bc4", 0, 0, 4, 4, Bytes(ramp))
       /\ Give("bc5", 0, 0, 4, 4, dg)
       \* the formats that share the colour half agree on it
       /\ c0 > c1 => \A i \in 1..16 : WithA(BC!BC3Block(dr, 0)[i], 255) = BC!BC1Block(db, 0)[i]

(* ATC *)
ATCReadBack ==
  t[1] = "atc" =>
    LET m == N(9, 1)
        r0 == N(1, 5)  g0 == N(2, 5)  b0 == N(3, 5)
        r1 == N(4, 5)  g1 == N(5, 6)  b1 == N(6, 5)
        x(i) == N(10 + i, 2)
        col == Stream(<< << b0, 5 >>, << g0, 5 >>, << r0, 5 >>, << m, 1 >>, << b1, 5 >>, << g1, 6 >>, << r1, 5 >> >>
                      \o [i \in 1..16 |-> << x(i), 2 >>])
        A == << Expand(r0, 5), Expand(g0, 5), Expand(b0, 5) >>
        B == << Expand(r1, 5), Expand(g1, 6), Expand(b1, 5) >>
        V(i, c) == IF m = 0
                   THEN CASE x(i) = 0 -> A[c] [] x(i) = 1 -> (5 * A[c] + 3 * B[c]) \div 8
                          [] x(i) = 2 -> (3 * A[c] + 5 * B[c]) \div 8 [] OTHER -> B[c]
                   ELSE CASE x(i) = 0 -> 0
                          [] x(i) = 1 -> Max2(0, A[c] - B[c] \div 4)
                          [] x(i) = 2 -> A[c] [] OTHER -> B[c]
        d == TLCEval(Bytes(col))
        da == TLCEval([k \in 1..8 |-> N(100 + k, 8)] \o d)
    IN /\ Len(col) = 64
       /\ Give("atc_rgb4", 0, 0, 4, 4, d)
       /\ Give("atc_rgba8", 0, 0, 4, 4, da)
       /\ AT!ATCRGBBlock(d, 0) = All(LAMBDA i : Pix(V(i, 1), V(i, 2), V(i, 3), 255))
       /\ \A i \in 1..16 : AT!ATCRGBABlock(da, 0)[i] = WithA(AT!ATCRGBBlock(d, 0)[i], PR(BC!BC4Block(da, 0)[i]))

-----------------------------------------------------------------------------
(* ETC.  Texels are written column by column: all the high index bits (last texel first), then the low ones *)
Texel(n) == 4 * (n % 4) + (n \div 4) + 1                     \* pixel of texel number n
IndexBits(x(_)) == [k \in 1..16 |-> << x(Texel(16 - k)) \div 2, 1 >>] \o [k \in 1..16 |-> << x(Texel(16 - k)) % 2, 1 >>]
\* the modifier of an index: its low bit selects the size, its high bit the sign
Mod(tab, x) == (IF x >= 2 THEN -1 ELSE 1) * Modifier[tab + 1][1 + (x % 2)]
Second(flip, i) == IF flip = 1 THEN Row(i) >= 2 ELSE Col(i) >= 2
EtcReadBack ==
  t[1] = "etc" =>
    LET diff == t[2] % 2
        flip == N(1, 1)
        t1 == N(2, 3)  t2 == N(3, 3)
        x(i) == N(20 + i, 2)
        \* individual colours, or a base and differences that do not overflow
        b == << N(4, 5), N(5, 5), N(6, 5) >>
        e == << N(7, 3), N(8, 3), N(9, 3) >>
        dl == [k \in 1..3 |-> Signed(e[k], 3)]
        over == \E k \in 1..3 : b[k] + dl[k] \notin 0..31
        head == IF diff = 1 THEN << << b[1], 5 >>, << e[1], 3 >>, << b[2], 5 >>, << e[2], 3 >>, << b[3], 5 >>, << e[3], 3 >> >>
                ELSE << << b[1] % 16, 4 >>, << e[1], 4 >>, << b[2] % 16, 4 >>, << e[2], 4 >>, << b[3] % 16, 4 >>, << e[3], 4 >> >>
        msg == head \o << << t1, 3 >>, << t2, 3 >>, << diff, 1 >>, << flip, 1 >> >> \o IndexBits(x)
        d == TLCEval(BytesTop(msg))
        c1 == IF diff = 1 THEN [k \in 1..3 |-> Expand(b[k], 5)] ELSE [k \in 1..3 |-> 17 * (b[k] % 16)]
        c2 == IF diff = 1 THEN [k \in 1..3 |-> Expand((b[k] + dl[k]) % 32, 5)] ELSE [k \in 1..3 |-> 17 * e[k]]
        P(i) == IF Second(flip, i) THEN Shade(c2, Mod(t2, x(i)), 255) ELSE Shade(c1, Mod(t1, x(i)), 255)
        \* punch-through: the bit that was `diff' now says opaque
        A1(i) == LET tab == IF Second(flip, i) THEN t2 ELSE t1
                     c == IF Second(flip, i) THEN [k \in 1..3 |-> Expand((b[k] + dl[k]) % 32, 5)]
                          ELSE [k \in 1..3 |-> Expand(b[k], 5)]
                 IN IF x(i) % 2 = 0 THEN Shade(c, 0, IF x(i) = 2 THEN 0 ELSE 255) ELSE Shade(c, Mod(tab, x(i)), 255)
        hole == TLCEval(BytesTop(<< << b[1], 5 >>, << e[1], 3 >>, << b[2], 5 >>, << e[2], 3 >>, << b[3], 5 >>, << e[3], 3 >>,
                                    << t1, 3 >>, << t2, 3 >>, << 0, 1 >>, << flip, 1 >> >> \o IndexBits(x)))
    IN /\ Len(d) = 8
       /\ ETC1Block(d, 0) = All(P)
       /\ Give("etc1", 0, 0, 4, 4, d)
       /\ Give("etc2_rgb", 0, 0, 4, 4, d)
       /\ Give("etc2_rgba1", 0, 0, 4, 4, hole)
       /\ Give("etc2_rgba8", 0, 0, 4, 4, d \o d)
       /\ (diff = 0 \/ ~over) => ETC2Block(d, 0) = ETC1Block(d, 0)             \* ETC2 contains ETC1
       /\ diff = 1 => ETC2A1Block(d, 0) = ETC2Block(d, 0)                      \* opaque blocks are plain ETC2
       /\ ~over => ETC2A1Block(hole, 0) = All(A1)
       /\ (diff = 1 /\ over) => DiffMode(d, 0) # "differential"
       /\ ETC2A8Block(d \o d, 0) = [i \in 1..16 |-> WithA(ETC2Block(d, 0)[i], A8(d, 0, i))]

\* the bits that make a sum overflow, as an encoder picks them: a field split so that its high part cannot be undone
THidden ==
  t[1] = "T" =>
    LET r1 == N(1, 4)  g1 == N(2, 4)  b1 == N(3, 4)
        r2 == N(4, 4)  g2 == N(5, 4)  b2 == N(6, 4)
        da == N(7, 2)  db == N(8, 1)  opaque == N(9, 1)
        x(i) == N(20 + i, 2)
        a == r1 \div 4   b == r1 % 4
        \* base (hi a) and difference (lo b): five bits "hhhaa", three "lbb"
        up == a + b >= 4
        msg == << << IF up THEN 7 ELSE 0, 3 >>, << a, 2 >>, << IF up THEN 0 ELSE 1, 1 >>, << b, 2 >>,
                  << g1, 4 >>, << b1, 4 >>, << r2, 4 >>, << g2, 4 >>, << b2, 4 >>, << da, 2 >>, << opaque, 1 >>, << db, 1 >> >>
               \o IndexBits(x)
        d == TLCEval(BytesTop(msg))
        ds == Distance[2 * da + db + 1]
        c1 == << 17 * r1, 17 * g1, 17 * b1 >>
        c2 == << 17 * r2, 17 * g2, 17 * b2 >>
        P(i) == CASE x(i) = 0 -> Shade(c1, 0, 255) [] x(i) = 1 -> Shade(c2, ds, 255)
                  [] x(i) = 2 -> Shade(c2, 0, 255) [] OTHER -> Shade(c2, -ds, 255)
    IN /\ Len(d) = 8 /\ DiffMode(d, 0) = "T"
       /\ Give("etc1", 0, 0, 4, 4, d)
       /\ Give("etc2_rgb", 0, 0, 4, 4, d)
       /\ Give("etc2_rgba1", 0, 0, 4, 4, d)
       /\ (opaque = 1 => ETC2Block(d, 0) = All(P))
       /\ ETC2A1Block(d, 0) = All(LAMBDA i : IF opaque = 0 /\ x(i) = 2 THEN WithA(P(i), 0) ELSE P(i))
HHidden ==
  t[1] = "H" =>
    LET r1 == N(1, 4)  g1 == N(2, 4)  b1 == N(3, 4)
        r2 == N(4, 4)  g2 == N(5, 4)  b2 == N(6, 4)
        da == N(7, 1)  db == N(8, 1)  opaque == N(9, 1)
        x(i) == N(20 + i, 2)
        \* red must not overflow: its top bit mirrors the sign of the difference; green must
        s == (g1 \div 2) \div 4                                     \* sign bit of red's difference (top bit of g1's high part)
        a == 2 * (g1 % 2) + (b1 \div 8)                             \* low bits of green's base
        b == (b1 % 8) \div 2                                        \* low bits of green's difference
        up == a + b >= 4
        msg == << << s, 1 >>, << r1, 4 >>, << g1 \div 2, 3 >>,
                  << IF up THEN 7 ELSE 0, 3 >>, << g1 % 2, 1 >>, << b1 \div 8, 1 >>, << IF up THEN 0 ELSE 1, 1 >>, << b1 % 8, 3 >>,
                  << r2, 4 >>, << g2, 4 >>, << b2, 4 >>, << da, 1 >>, << opaque, 1 >>, << db, 1 >> >>
               \o IndexBits(x)
        d == TLCEval(BytesTop(msg))
        c1 == << 17 * r1, 17 * g1, 17 * b1 >>
        c2 == << 17 * r2, 17 * g2, 17 * b2 >>
        ge == c1[1] > c2[1] \/ (c1[1] = c2[1] /\ (c1[2] > c2[2] \/ (c1[2] = c2[2] /\ c1[3] >= c2[3])))
        ds == Distance[4 * da + 2 * db + (IF ge THEN 1 ELSE 0) + 1]
        P(i) == CASE x(i) = 0 -> Shade(c1, ds, 255) [] x(i) = 1 -> Shade(c1, -ds, 255)
                  [] x(i) = 2 -> Shade(c2, ds, 255) [] OTHER -> Shade(c2, -ds, 255)
    IN /\ Len(d) = 8 /\ DiffMode(d, 0) = "H"
       /\ Give("etc1", 0, 0, 4, 4, d)
       /\ Give("etc2_rgb", 0, 0, 4, 4, d)
       /\ Give("etc2_rgba1", 0, 0, 4, 4, d)
       /\ (opaque = 1 => ETC2Block(d, 0) = All(P))
       /\ ETC2A1Block(d, 0) = All(LAMBDA i : IF opaque = 0 /\ x(i) = 2 THEN WithA(P(i), 0) ELSE P(i))
PlanarHidden ==
  t[1] = "planar" =>
    LET o == << N(1, 6), N(2, 7), N(3, 6) >>
        h == IF t[3] % 4 = 0 THEN o ELSE << N(4, 6), N(5, 7), N(6, 6) >>
        v == IF t[3] % 4 \in {0, 1} THEN o ELSE << N(7, 6), N(8, 7), N(9, 6) >>
        opaque == N(10, 1)
        \* red and green must not overflow, blue must
        s1 == Bit(o[1], 1)                                        \* sign of red's difference: top of the bits below its base
        s2 == Bit(o[2], 1)
        a == Field(o[3], 3, 2)             \* low bits of blue's base
        b == Field(o[3], 1, 2)                                    \* low bits of blue's difference
        up == a + b >= 4
        msg == << << s1, 1 >>, << o[1], 6 >>, << o[2] \div 64, 1 >>,
                  << s2, 1 >>, << o[2] % 64, 6 >>, << o[3] \div 32, 1 >>,
                  << IF up THEN 7 ELSE 0, 3 >>, << a, 2 >>, << IF up THEN 0 ELSE 1, 1 >>, << b, 2 >>, << o[3] % 2, 1 >>,
                  << h[1] \div 2, 5 >>, << opaque, 1 >>, << h[1] % 2, 1 >>, << h[2], 7 >>, << h[3], 6 >>,
                  << v[1], 6 >>, << v[2], 7 >>, << v[3], 6 >> >>
        d == TLCEval(BytesTop(msg))
        W(c, x) == IF c = 2 THEN 2 * x + (x \div 64) ELSE 4 * x + (x \div 16)
        V(c, i) == Clamp8((Col(i) * (W(c, h[c]) - W(c, o[c])) + Row(i) * (W(c, v[c]) - W(c, o[c])) + 4 * W(c, o[c]) + 2) \div 4)
        P(i) == Pix(V(1, i), V(2, i), V(3, i), 255)
    IN /\ Len(d) = 8 /\ DiffMode(d, 0) = "planar"
       /\ Give("etc1", 0, 0, 4, 4, d)
       /\ Give("etc2_rgb", 0, 0, 4, 4, d)
       /\ Give("etc2_rgba1", 0, 0, 4, 4, d)
       /\ (opaque = 1 => ETC2Block(d, 0) = All(P))
       /\ ETC2A1Block(d, 0) = All(P)
       /\ (h = o /\ v = o) => \A i \in 1..16 : P(i) = P(1)
(* EAC *)
EacReadBack ==
  t[1] = "eac" =>
    LET base == IF t[3] % 5 = 0 THEN << 0, 255, 128, 127 >>[1 + (t[2] % 4)] ELSE N(1, 8)
        mul == IF t[3] % 3 = 0 THEN 0 ELSE N(2, 4)
        tab == N(3, 4)
        x(i) == N(20 + i, 3)
        d == TLCEval(BytesTop(<< << base, 8 >>, << mul, 4 >>, << tab, 4 >> >> \o [k \in 1..16 |-> << x(Texel(k - 1)), 3 >>]))
        e(i) == EACTable[tab + 1][x(i) + 1]
        sb == IF base >= 128 THEN base - 256 ELSE base
        Eleven(i, signed) == Clamp((IF signed THEN 8 * sb + 1023 ELSE 8 * base + 4) + (IF mul = 0 THEN e(i) ELSE 8 * mul * e(i)), 0, 2047)
    IN /\ Len(d) = 8
       /\ Give("eacr", 0, 0, 4, 4, d)
       /\ Give("eacr_signed", 0, 0, 4, 4, d)
       /\ Give("eacrg", 0, 0, 4, 4, d \o d)
       /\ Give("eacrg_signed", 0, 0, 4, 4, d \o d)
       /\ Give("etc2_rgba8", 0, 0, 4, 4, d \o d)
       /\ \A i \in 1..16 : A8(d, 0, i) = Clamp8(base + mul * e(i))
       /\ \A s \in BOOLEAN : /\ R11Block(d, 0, s) = All(LAMBDA i : Pix(Eleven(i, s) \div 8, 0, 0, 255))
                             /\ RG11Block(d \o d, 0, s) = All(LAMBDA i : Pix(Eleven(i, s) \div 8, Eleven(i, s) \div 8, 0, 255))
       \* a modifier table: four down, four up, each as far as its mirror image less one
       /\ \A k \in 1..4 : EACTable[tab + 1][k] = -EACTable[tab + 1][k + 4] - 1
=============================================================================
