------------------------------- MODULE Image -------------------------------
(***************************************************************************)
(* The image decoders of all block formats as a state machine.             *)
(*                                                                         *)
(* A decode first checks its arguments, in a fixed order, each check with  *)
(* its own way to fail, and then copies one block after the other, in      *)
(* raster order, into the image, clipping the blocks at the right and at   *)
(* the bottom.  A block's texels are a function of its own bytes alone.    *)
(*                                                                         *)
(* `call' is a call record as in Calls.tla; Geometry(call) = <<bw, bh, nb>> *)
(* and Texels(call, k) give block size, bytes per block and the texels of  *)
(* block k.  They are operators so that MCImage can check the machine with *)
(* abstract texels for all small sizes, and TraceImage with the real       *)
(* formats against recorded executions.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Geometry(_), Texels(_, _)
VARIABLES call, pc, k, img, verdict

vars == << call, pc, k, img, verdict >>

Up(x, y) == x \div y + (IF x % y = 0 THEN 0 ELSE 1)
BW == Geometry(call)[1]
BH == Geometry(call)[2]
NB == Geometry(call)[3]
NX == Up(call.w, BW)
NY == Up(call.h, BH)
\* len < x * y * z without the product
Short(len, x, y, z) == x > 0 /\ y > 0 /\ (len \div z) \div x < y

Begin(c) == call = c /\ pc = "data" /\ k = 0 /\ img = [i \in 1..c.n |-> c.o] /\ verdict = << "running", "" >>

Fail(msg) == pc' = "done" /\ verdict' = << "err", msg >> /\ UNCHANGED << call, k, img >>
Go(where) == pc' = where /\ UNCHANGED << call, k, img, verdict >>

CheckData  == pc = "data"  /\ IF Short(Len(call.d), NX, NY, NB) THEN Fail("Not enough data to decode image!") ELSE Go("image")
CheckImage == pc = "image" /\ IF Short(call.n, call.w, call.h, 1) THEN Fail("Image buffer is too small!") ELSE Go("size")
CheckSize  == pc = "size"  /\ IF BW > 144 \div BH THEN Fail("Block size is too big!") ELSE Go("blocks")

\* block k covers columns x0.. and rows y0..; only those inside the image are copied
CopyBlock ==
  /\ pc = "blocks" /\ k < NX * NY
  /\ LET x0 == BW * (k % NX)
         y0 == BH * (k \div NX)
         cols == IF x0 + BW > call.w THEN call.w - x0 ELSE BW
         rows == IF y0 + BH > call.h THEN call.h - y0 ELSE BH
         tx == Texels(call, k)
     IN img' = [i \in DOMAIN img |->
                  LET x == (i - 1) % call.w
                      y == (i - 1) \div call.w
                  IN IF x >= x0 /\ x < x0 + cols /\ y >= y0 /\ y < y0 + rows
                     THEN tx[1 + (y - y0) * BW + (x - x0)] ELSE img[i]]
  /\ k' = k + 1
  /\ UNCHANGED << call, pc, verdict >>

Finish == pc = "blocks" /\ k = NX * NY /\ pc' = "done" /\ verdict' = << "ok", "" >> /\ UNCHANGED << call, k, img >>

Step == CheckData \/ CheckImage \/ CheckSize \/ CopyBlock \/ Finish

-----------------------------------------------------------------------------
(* What P01 and P02 say, about the machine *)
Pixel(x, y) == Texels(call, (y \div BH) * NX + (x \div BW))[1 + (y % BH) * BW + (x % BW)]

TypeOK == pc \in {"data", "image", "size", "blocks", "done"} /\ verdict[1] \in {"running", "ok", "err"} /\ Len(img) = call.n
\* nothing outside the image is ever written, and nothing at all on the way to an error
Outside == \A i \in DOMAIN img : i > call.w * call.h => img[i] = call.o
Untouched == verdict[1] = "err" => img = [i \in 1..call.n |-> call.o]
\* a success fills every pixel with its texel
Tiled == verdict[1] = "ok" =>
           \A y \in 0..(call.h - 1) : \A x \in 0..(call.w - 1) : img[1 + y * call.w + x] = Pixel(x, y)
\* the verdict is exactly what the sizes say
Exact == pc = "done" =>
  verdict = IF Len(call.d) < NX * NY * NB THEN << "err", "Not enough data to decode image!" >>
            ELSE IF call.n < call.w * call.h THEN << "err", "Image buffer is too small!" >>
            ELSE IF BW * BH > 144 THEN << "err", "Block size is too big!" >>
            ELSE << "ok", "" >>
\* progress: blocks are copied in order, each once
Prefix == \A i \in DOMAIN img : (pc = "blocks" /\ i <= call.w * call.h) =>
   LET x == (i - 1) % call.w
       y == (i - 1) \div call.w
   IN img[i] = IF (y \div BH) * NX + (x \div BW) < k THEN Pixel(x, y) ELSE call.o
=============================================================================
