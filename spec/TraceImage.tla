----------------------------- MODULE TraceImage -----------------------------
(***************************************************************************)
(* Every recorded image decode is a behaviour of the image machine: the    *)
(* machine runs on the arguments of the call and must end with the verdict *)
(* and the image that were observed.                                       *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Lanes == 64
Chunk == DivUp(N, Lanes)
VARIABLES l, lane, call, pc, k, img, verdict
Geo(c) == IF c.f = "astc" THEN << c.a, c.b, 16 >>
          ELSE IF c.f \in AstcFns THEN << AstcSize[c.f][1], AstcSize[c.f][2], 16 >>
          ELSE << 4, 4, BlockBytes(FormatOf(c)) >>
Tx(c, b) == IF c.f = "astc" \/ c.f \in AstcFns THEN AS!ASTCBlock(c.d, 16 * b, Geo(c)[1], Geo(c)[2])
            ELSE SmallBlock(FormatOf(c), c.d, b * BlockBytes(FormatOf(c)))
I == INSTANCE Image WITH Geometry <- Geo, Texels <- Tx
Args(t) == [f |-> t.f, w |-> t.w, h |-> t.h, a |-> t.a, b |-> t.b, n |-> t.n, o |-> t.o, d |-> t.d]

Init == lane \in 0..(Lanes - 1) /\ l = lane * Chunk + 1 /\ l <= N /\ I!Begin(Args(Trace[l]))
Step == I!Step /\ UNCHANGED << l, lane >>
\* the next recorded call
Advance == /\ pc = "done" /\ l < Min2(N, (lane + 1) * Chunk)
           /\ l' = l + 1 /\ UNCHANGED lane
           /\ LET c == Args(Trace[l + 1])
              IN call' = c /\ pc' = "data" /\ k' = 0 /\ img' = [i \in 1..c.n |-> c.o] /\ verdict' = << "running", "" >>
Next == Step \/ Advance
Spec == Init /\ [][Next]_<<l, lane, call, pc, k, img, verdict>>

Conforms == pc = "done" => /\ << Trace[l].r, Trace[l].e >> = verdict
                           /\ Trace[l].p = img
\* fingerprint by position, not by content
View == << l, pc, k >>
=============================================================================
