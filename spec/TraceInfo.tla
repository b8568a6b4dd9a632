----------------------------- MODULE TraceInfo -----------------------------
(***************************************************************************)
(* Conformance of recorded requests for texture information.  In a record, *)
(* a = 1 says that the caller's structure has a wrong size in struct_size, *)
(* b is the size the caller claims the data to have, and ok, iw, .. fmt    *)
(* are the answer and the fields of the structure afterwards.              *)
(***************************************************************************)
EXTENDS CrnFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
Chunk == DivUp(Len(Trace), Lanes)
VARIABLES l, lane
Init == lane \in 0..(Lanes - 1) /\ l = lane * Chunk + 1 /\ l <= Len(Trace)
Next == l < Min2(Len(Trace), (lane + 1) * Chunk) /\ l' = l + 1 /\ UNCHANGED lane
Spec == Init /\ [][Next]_<<l, lane>>
t == Trace[l]
Says == InfoOk(t.d, t.b, t.a # 1)
Given == [ok |-> TRUE, iw |-> t.iw, ih |-> t.ih, lv |-> t.lv, fc |-> t.fc,
          bpb |-> t.bpb, u0 |-> t.u0, u1 |-> t.u1, fmt |-> t.fmt]
\* the request returns, changes neither the data nor anything else, and tells what the header says
Conforms == /\ t.f = "info" /\ t.r = "ok"
            /\ \A i \in 1..t.n : t.p[i] = t.o
            /\ t.ok = (IF Says THEN 1 ELSE 0)
            /\ Says => Given = Info(t.d)
=============================================================================
