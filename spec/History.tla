------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Purity over histories.  The library is observed as a sequence of calls  *)
(* (from any number of threads and processes, merged in any order); the    *)
(* state is what has been learnt: a memo from the part of a call's         *)
(* arguments that may matter to its outcome.  A call whose key is already  *)
(* known must repeat the known outcome.                                    *)
(*                                                                         *)
(* A key leaves out what must not matter: the previous contents of the     *)
(* image slice, data beyond what the image needs, and surplus room in the  *)
(* image slice.                                                            *)
(***************************************************************************)
EXTENDS Calls

\* functions that by design set some channels only: there the old contents do matter
Partial == {"block:bc4", "block:bc5", "block:etc2_a8", "block:eac", "block:eac_signed"}
Crunched == {"crunch", "unity_crunch"}
Sixteen(f) == f \in SmallBlockFns

\* bytes of data a call may depend on (all of them, if it cannot succeed anyway)
Need(t) ==
  LET Blocks(bw, bh, nb) == IF DataTooShort(t, bw, bh, nb) THEN Len(t.d) ELSE DivUp(t.w, bw) * DivUp(t.h, bh) * nb
  IN CASE t.f \in Crunched \/ t.f = "info" -> Len(t.d)
       [] t.f = "block:astc" -> 16
       [] Sixteen(t.f) -> Min2(Len(t.d), IF t.f \in {"block:eac", "block:eac_signed", "block:etc2_a8"} THEN 8
                                        ELSE IF t.f = "block:bc6" THEN 16 ELSE BlockBytes(BlockFns[t.f]))
       [] t.f = "astc" -> IF t.a > 144 \div t.b THEN Len(t.d) ELSE Blocks(t.a, t.b, 16)
       [] t.f \in AstcFns -> Blocks(AstcSize[t.f][1], AstcSize[t.f][2], 16)
       [] t.f = "pvrtc_2bpp" \/ (t.f = "pvrtc" /\ t.a # 0) -> Blocks(8, 4, 8)
       [] t.f = "pvrtc_4bpp" \/ (t.f = "pvrtc" /\ t.a = 0) -> Blocks(4, 4, 8)
       [] OTHER -> Blocks(4, 4, BlockBytes(FormatOf(t)))

\* pixels a successful call defines
Area(t) == IF Sixteen(t.f) THEN 16 ELSE IF t.f = "block:astc" THEN t.a * t.b ELSE t.w * t.h

Key(t) == << t.f, t.w, t.h, t.a, t.b, SubSeq(t.d, 1, Need(t)),
             IF Sixteen(t.f) \/ t.f = "block:astc" \/ ~ImageTooShort(t) THEN -1 ELSE t.n,
             IF t.f \in Partial THEN t.o ELSE 0,
             IF t.f = "info" THEN << t.a, t.b >> ELSE << >> >>

\* what the caller sees, apart from the slots that were never to be written
Outcome(t) == << t.r, t.e, IF t.r = "ok" THEN SubSeq(t.p, 1, Min2(Area(t), t.n)) ELSE << >>,
                 IF t.f = "info" THEN << t.ok, t.iw, t.ih, t.lv, t.fc, t.bpb, t.u0, t.u1, t.fmt >> ELSE << >> >>
\* a successful call leaves the surplus of the image slice alone; a failing one leaves everything alone
Leaves(t) == \A i \in 1..t.n : (t.r # "ok" \/ i > Area(t)) => t.p[i] = t.o

Known(memo, t) == Key(t) \in DOMAIN memo
Consistent(memo, t) == Known(memo, t) => memo[Key(t)] = Outcome(t)
Learn(memo, t) == IF Known(memo, t) THEN memo ELSE memo @@ (Key(t) :> Outcome(t))
=============================================================================
