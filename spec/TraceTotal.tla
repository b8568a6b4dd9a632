----------------------------- MODULE TraceTotal -----------------------------
(***************************************************************************)
(* Totality: pairs of consecutive lines are the same call made on the      *)
(* build with overflow checks and on the shipped build.  A decode whose    *)
(* slices suffice succeeds in both, with the same pixels.                  *)
(***************************************************************************)
EXTENDS History, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace) \div 2
Lanes == 64
Chunk == DivUp(N, Lanes)
VARIABLES l, lane
Init == lane \in 0..(Lanes - 1) /\ l = lane * Chunk + 1 /\ l <= N
Next == l < Min2(N, (lane + 1) * Chunk) /\ l' = l + 1 /\ UNCHANGED lane
Spec == Init /\ [][Next]_<<l, lane>>
A == Trace[2 * l - 1]
B == Trace[2 * l]
SameCall == /\ A.f = B.f /\ A.w = B.w /\ A.h = B.h /\ A.a = B.a /\ A.b = B.b /\ A.n = B.n /\ A.o = B.o /\ A.d = B.d
PvrtcSides(t) == LET two == t.f = "pvrtc_2bpp" \/ (t.f = "pvrtc" /\ t.a # 0)
                 IN PV!IsPow2(DivUp(t.w, IF two THEN 8 ELSE 4)) /\ PV!IsPow2(DivUp(t.h, 4))
Suffices(t) == IF Sixteen(t.f) \/ t.f = "block:astc" THEN TRUE
               ELSE /\ ~ImageTooShort(t)
                    /\ IF t.f \in {"pvrtc", "pvrtc_2bpp", "pvrtc_4bpp"} THEN t.w = 0 \/ t.h = 0 \/ PvrtcSides(t)
                       ELSE IF t.f = "astc" THEN t.a <= 144 \div t.b ELSE TRUE
                    /\ Need(t) <= Len(t.d)
Total == SameCall /\ (Suffices(A) => A.r = "ok" /\ B.r = "ok" /\ A.p = B.p)
                  /\ A.r \in {"ok", "err"} /\ B.r = A.r /\ B.e = A.e
=============================================================================
