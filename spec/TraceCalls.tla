----------------------------- MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Conformance of recorded calls: every call of the trace has exactly the  *)
(* outcome Calls!Expected gives it.  The trace is cut into lanes only so   *)
(* that TLC's workers can share it; a state is "call number l is next".    *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Lanes == 64
Chunk == DivUp(N, Lanes)
VARIABLES l, lane
Init == lane \in 0..(Lanes - 1) /\ l = lane * Chunk + 1 /\ l <= N
Next == l < Min2(N, (lane + 1) * Chunk) /\ l' = l + 1 /\ UNCHANGED lane
Spec == Init /\ [][Next]_<<l, lane>>

Conforms == LET t == Trace[l]
                x == Expected(t)
            IN t.r = x.r /\ t.e = x.e /\ t.p = x.p
\* every call is visited: TLC must report exactly N states
=============================================================================
