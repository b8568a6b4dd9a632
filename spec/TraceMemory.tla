---------------------------- MODULE TraceMemory ----------------------------
(***************************************************************************)
(* Conformance of recorded calls: t.m is the most heap memory the call had *)
(* in use, t.k what it had not given back when it returned.                *)
(***************************************************************************)
EXTENDS Memory, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
Chunk == (Len(Trace) + Lanes - 1) \div Lanes
Low(a, b) == IF a < b THEN a ELSE b
VARIABLES l, lane
Init == lane \in 0..(Lanes - 1) /\ l = lane * Chunk + 1 /\ l <= Len(Trace)
Next == l < Low(Len(Trace), (lane + 1) * Chunk) /\ l' = l + 1 /\ UNCHANGED lane
Spec == Init /\ [][Next]_<<l, lane>>
t == Trace[l]
Most == IF t.f \in {"crunch", "unity_crunch", "info"} THEN CrunchBound(Len(t.d))
        ELSE IF t.f \in {"pvrtc", "pvrtc_2bpp", "pvrtc_4bpp"} /\ t.r = "ok"
             THEN PvrtcBound(t.w, t.h, t.f = "pvrtc_2bpp" \/ (t.f = "pvrtc" /\ t.a # 0))
        ELSE 0
Frugal == t.r \in {"ok", "err"} /\ t.m <= Most
GivenBack == t.r \in {"ok", "err"} => t.k = 0
\* t.st is how deep the stack was used
Shallow == t.r \in {"ok", "err"} /\ t.st <= StackBound
=============================================================================
