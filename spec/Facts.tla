------------------------------- MODULE Facts -------------------------------
(***************************************************************************)
(* What one observed decode reveals about the meaning of bytes.  Entry     *)
(* points that decode the same bytes in the same format reveal the same    *)
(* facts, and combined formats reveal facts about their parts; all facts   *)
(* ever revealed must agree.  Nothing is said about what the meaning is.   *)
(*                                                                         *)
(* A fact is a key <<name, sizes, bytes>> and the values of the texels.    *)
(***************************************************************************)
EXTENDS Calls

Reds(p, n)   == [i \in 1..n |-> PR(p[i])]
Greens(p, n) == [i \in 1..n |-> PG(p[i])]
Blues(p, n)  == [i \in 1..n |-> PB(p[i])]
Alphas(p, n) == [i \in 1..n |-> PA(p[i])]
RGBs(p, n)   == [i \in 1..n |-> p[i] % 16777216]
Whole(p, n)  == [i \in 1..n |-> p[i]]

Lo(t) == SubSeq(t.d, 1, 8)
Hi(t) == SubSeq(t.d, 9, 16)
\* S3TC colour halves that are in four-colour mode by their own end points
FourColour(b) == U16LE(b, 0) > U16LE(b, 2)
\* ETC words that mean the same in ETC1 and ETC2
Sum(b, i) == (b[i] \div 8) + Signed(b[i] % 8, 3)
DiffBit(b) == Bit(b[4], 1)
NoOverflow(b) == \A i \in 1..3 : Sum(b, i) \in 0..31

\* format and block size an entry point decodes
Entry(t) ==
  CASE t.f \in DOMAIN BlockFns -> << BlockFns[t.f], 4, 4 >>
    [] t.f = "block:bc6" \/ t.f = "bc6" -> << IF t.a # 0 THEN "bc6_signed" ELSE "bc6_unsigned", 4, 4 >>
    [] t.f \in {"block:astc", "astc"} -> << "astc", t.a, t.b >>
    [] t.f \in AstcFns -> << "astc", AstcSize[t.f][1], AstcSize[t.f][2] >>
    [] t.f \in SmallFormats -> << t.f, 4, 4 >>
    [] t.f \in {"pvrtc", "pvrtc_2bpp", "pvrtc_4bpp"} ->
         << IF t.f = "pvrtc_2bpp" \/ (t.f = "pvrtc" /\ t.a # 0) THEN "pvrtc2" ELSE "pvrtc4", t.w, t.h >>
    [] OTHER -> << t.f, t.a, t.b >>

F(name, b, v) == << name, 0, 0, b >> :> v

Parts(t) ==
  LET e == Entry(t)[1]
      p == t.p
  IN CASE e \in {"bc1", "bc1a"} ->
            F("s3tc colour", t.d, RGBs(p, 16))
            @@ (IF FourColour(t.d) THEN F("four colours", t.d, RGBs(p, 16)) ELSE << >>)
       [] e = "bc2" -> F("four colours", Hi(t), RGBs(p, 16))
       [] e = "bc3" -> F("four colours", Hi(t), RGBs(p, 16)) @@ F("ramp", Lo(t), Alphas(p, 16))
       [] e = "bc4" -> F("ramp", t.d, Reds(p, 16))
       [] e = "bc5" -> IF Lo(t) = Hi(t) THEN F("ramp", Lo(t), Reds(p, 16))
                       ELSE F("ramp", Lo(t), Reds(p, 16)) @@ F("ramp", Hi(t), Greens(p, 16))
       [] e = "atc_rgb4" -> F("atc", t.d, RGBs(p, 16))
       [] e = "atc_rgba8" -> F("atc", Hi(t), RGBs(p, 16)) @@ F("ramp", Lo(t), Alphas(p, 16))
       [] e = "eacr" -> F("eac", t.d, Reds(p, 16))
       [] e = "eacr_signed" -> F("eac signed", t.d, Reds(p, 16))
       [] e = "eacrg" -> F("eac", Lo(t), Reds(p, 16)) @@ F("eac", Hi(t), Greens(p, 16))
       [] e = "eacrg_signed" -> F("eac signed", Lo(t), Reds(p, 16)) @@ F("eac signed", Hi(t), Greens(p, 16))
       [] e \in {"block:eac", "block:eac_signed"} ->
            F(IF e = "block:eac" THEN "eac" ELSE "eac signed", t.d,
              CASE t.a = 0 -> Blues(p, 16) [] t.a = 1 -> Greens(p, 16) [] t.a = 2 -> Reds(p, 16) [] OTHER -> Alphas(p, 16))
       [] e = "etc1" -> IF DiffBit(t.d) = 0 \/ NoOverflow(t.d) THEN F("etc2", t.d, RGBs(p, 16)) ELSE << >>
       [] e = "etc2_rgb" -> F("etc2", t.d, RGBs(p, 16))
       [] e = "etc2_rgba1" -> IF DiffBit(t.d) = 1 THEN F("etc2", t.d, RGBs(p, 16)) ELSE << >>
       [] e = "etc2_rgba8" -> F("etc2", Hi(t), RGBs(p, 16)) @@ F("etc2 alpha", Lo(t), Alphas(p, 16))
       [] e = "block:etc2_a8" -> F("etc2 alpha", t.d, Alphas(p, 16))
       [] OTHER -> << >>

\* one-block images and block functions of one format must agree texel by texel (block functions
\* that set some channels only are called on opaque black, as the image functions start from that)
Comparable(t) == t.f \notin {"block:eac", "block:eac_signed", "block:etc2_a8"}
Revealed(t) ==
  LET e == Entry(t)
      n == e[2] * e[3]
  IN (IF Comparable(t) THEN << e[1], e[2], e[3], t.d >> :> Whole(t.p, n) ELSE << >>) @@ Parts(t)

Agrees(known, t) == LET x == Revealed(t) IN \A k \in DOMAIN x \cap DOMAIN known : known[k] = x[k]
=============================================================================
