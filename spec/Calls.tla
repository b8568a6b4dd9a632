-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* What one call of a public decode function does, as a function of its    *)
(* arguments: verdict, error text, and the image slice afterwards.         *)
(*                                                                         *)
(* A call record t has                                                     *)
(*   f  function ("bc1" .. image functions, "block:bc1" .. block functions) *)
(*   w, h, a, b   size arguments (a, b: ASTC block size / flags / channel)  *)
(*   n, o         length of the image slice and the value it was filled with *)
(*   d            the data                                                  *)
(* and, when it was observed on the implementation, r ("ok", "err",        *)
(* "panic", ...), e (error text) and p (image slice after the call).       *)
(***************************************************************************)
EXTENDS Formats

\* names of the block functions, and the image format each belongs to
BlockFns == [ x \in {"block:bc1"} |-> "bc1" ]
         @@ ("block:bc1a" :> "bc1a") @@ ("block:bc2" :> "bc2") @@ ("block:bc3" :> "bc3")
         @@ ("block:bc4" :> "bc4") @@ ("block:bc5" :> "bc5") @@ ("block:bc7" :> "bc7")
         @@ ("block:bc6_signed" :> "bc6_signed") @@ ("block:bc6_unsigned" :> "bc6_unsigned")
         @@ ("block:atc_rgb4" :> "atc_rgb4") @@ ("block:atc_rgba8" :> "atc_rgba8")
         @@ ("block:etc1" :> "etc1") @@ ("block:etc2_rgb" :> "etc2_rgb")
         @@ ("block:etc2_rgba1" :> "etc2_rgba1") @@ ("block:etc2_rgba8" :> "etc2_rgba8")
         @@ ("block:eacr" :> "eacr") @@ ("block:eacr_signed" :> "eacr_signed")
         @@ ("block:eacrg" :> "eacrg") @@ ("block:eacrg_signed" :> "eacrg_signed")

\* the format an image function decodes; "bc6" takes the signedness as an argument
FormatOf(t) == IF t.f = "bc6" THEN (IF t.a # 0 THEN "bc6_signed" ELSE "bc6_unsigned") ELSE t.f

-----------------------------------------------------------------------------
(* whole images of 4x4 blocks *)
NoData  == "Not enough data to decode image!"
NoImage == "Image buffer is too small!"

Filled(t) == [i \in 1..t.n |-> t.o]
Failed(t, msg) == [r |-> "err", e |-> msg, p |-> Filled(t)]

\* len < x * y * z, without the product (sizes may be beyond TLC's integers)
Less3(len, x, y, z) == x > 0 /\ y > 0 /\ (len \div z) \div x < y
Less2(len, x, y) == x > 0 /\ y > 0 /\ len \div x < y
DataTooShort(t, bw, bh, nb) == Less3(Len(t.d), DivUp(t.w, bw), DivUp(t.h, bh), nb)
ImageTooShort(t) == Less2(t.n, t.w, t.h)

\* bw x bh blocks of nb bytes; Texels(k) = the bw*bh texels of block number k (from 0)
Assemble(t, bw, bh, nb, Texels(_)) ==
  LET nx == DivUp(t.w, bw)
      ny == DivUp(t.h, bh)
  IN IF DataTooShort(t, bw, bh, nb) THEN Failed(t, NoData)
     ELSE IF ImageTooShort(t) THEN Failed(t, NoImage)
     ELSE LET blocks == TLCEval([k \in 0..(nx * ny - 1) |-> Texels(k)])
          IN [r |-> "ok", e |-> "",
              p |-> [i \in 1..t.n |->
                       IF i > t.w * t.h THEN t.o
                       ELSE LET x == (i - 1) % t.w
                                y == (i - 1) \div t.w
                            IN blocks[(y \div bh) * nx + (x \div bw)][1 + (y % bh) * bw + (x % bw)]]]

SmallImage(t) ==
  LET f == FormatOf(t)
      nb == BlockBytes(f)
  IN Assemble(t, 4, 4, nb, LAMBDA k : SmallBlock(f, t.d, k * nb))

-----------------------------------------------------------------------------
(* ASTC: any block size of at most 144 texels *)
AstcSizes == << <<4,4>>, <<5,4>>, <<5,5>>, <<6,5>>, <<6,6>>, <<8,5>>, <<8,6>>, <<8,8>>,
                <<10,5>>, <<10,6>>, <<10,8>>, <<10,10>>, <<12,10>>, <<12,12>> >>
AstcName(s) == "astc_" \o ToString(s[1]) \o "_" \o ToString(s[2])
AstcFns == { AstcName(AstcSizes[i]) : i \in 1..14 }
AstcSize == [ f \in AstcFns |-> AstcSizes[CHOOSE i \in 1..14 : AstcName(AstcSizes[i]) = f] ]

AstcCall(t, bw, bh) ==
  LET c == Assemble(t, bw, bh, 16, LAMBDA k : AS!ASTCBlock(t.d, 16 * k, bw, bh))
  IN IF bw <= 144 \div bh THEN c
     ELSE IF DataTooShort(t, bw, bh, 16) \/ ImageTooShort(t) THEN c ELSE Failed(t, "Block size is too big!")
AstcBlockCall(t) ==
  LET px == TLCEval(AS!ASTCBlock(t.d, 0, t.a, t.b))
  IN [r |-> "ok", e |-> "", p |-> [i \in 1..t.n |-> IF i <= t.a * t.b THEN px[i] ELSE t.o]]

(* PVRTC *)
PvrtcCall(t, two) ==
  LET nx == DivUp(t.w, IF two THEN 8 ELSE 4)
      ny == DivUp(t.h, 4)
  IN IF DataTooShort(t, IF two THEN 8 ELSE 4, 4, 8) THEN Failed(t, "The data buffer is too small!")
     ELSE IF ImageTooShort(t) THEN Failed(t, "The image buffer is too small!")
     ELSE IF nx * ny = 0 THEN [r |-> "ok", e |-> "", p |-> Filled(t)]
     ELSE IF ~PV!IsPow2(nx) \/ ~PV!IsPow2(ny)
     THEN Failed(t, "The number of blocks of each side must be a power of 2!")
     ELSE LET px == TLCEval(PV!ImagePixels(t, two))
          IN [r |-> "ok", e |-> "", p |-> [i \in 1..t.n |-> IF i <= t.w * t.h THEN px[i] ELSE t.o]]

-----------------------------------------------------------------------------
(* block functions: sixteen texels at the front of the slice, the rest untouched.  BC4, BC5 and
   the lone ETC2/EAC alpha and channel decoders set only their channels. *)
Front(t, px) == [r |-> "ok", e |-> "", p |-> [i \in 1..t.n |-> IF i <= 16 THEN px[i] ELSE t.o]]
Under(t) == [i \in 1..16 |-> t.o]
Channel(u, c, v) == CASE c = 0 -> WithB(u, v) [] c = 1 -> WithG(u, v) [] c = 2 -> WithR(u, v) [] c = 3 -> WithA(u, v)

SmallBlockCall(t) ==
  LET f == IF t.f = "block:bc6" THEN (IF t.a # 0 THEN "bc6_signed" ELSE "bc6_unsigned")
           ELSE IF t.f \in DOMAIN BlockFns THEN BlockFns[t.f] ELSE t.f
  IN Front(t, CASE f = "bc4" -> BC!BC4Over(t.d, 0, Under(t))
                [] f = "bc5" -> BC!BC5Over(t.d, 0, Under(t))
                [] f = "block:etc2_a8" -> ET!A8Over(t.d, 0, Under(t))
                [] f = "block:eac" -> [i \in 1..16 |-> Channel(t.o, t.a, ET!R11(t.d, 0, i, FALSE))]
                [] f = "block:eac_signed" -> [i \in 1..16 |-> Channel(t.o, t.a, ET!R11(t.d, 0, i, TRUE))]
                [] OTHER -> SmallBlock(f, t.d, 0))

SmallBlockFns == DOMAIN BlockFns \cup {"block:bc6", "block:etc2_a8", "block:eac", "block:eac_signed"}

Expected(t) ==
  CASE t.f \in SmallFormats \/ t.f = "bc6" -> SmallImage(t)
    [] t.f \in SmallBlockFns -> SmallBlockCall(t)
    [] t.f \in AstcFns -> AstcCall(t, AstcSize[t.f][1], AstcSize[t.f][2])
    [] t.f = "astc" -> AstcCall(t, t.a, t.b)
    [] t.f = "block:astc" -> AstcBlockCall(t)
    [] t.f = "pvrtc_2bpp" \/ (t.f = "pvrtc" /\ t.a # 0) -> PvrtcCall(t, TRUE)
    [] t.f = "pvrtc_4bpp" \/ (t.f = "pvrtc" /\ t.a = 0) -> PvrtcCall(t, FALSE)
=============================================================================
