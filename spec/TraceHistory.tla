---------------------------- MODULE TraceHistory ----------------------------
(***************************************************************************)
(* Recorded histories against History.  Calls that share a key stand in    *)
(* one group (field g): groups are independent parts of the memo, so they  *)
(* are explored side by side.                                              *)
(***************************************************************************)
EXTENDS History, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, memo
Starts == { i \in 1..N : i = 1 \/ Trace[i].g # Trace[i - 1].g }
Init == l \in Starts /\ memo = << >>
Next == /\ l < N /\ Trace[l + 1].g = Trace[l].g
        /\ memo' = Learn(memo, Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, memo>>
Conforms == Consistent(memo, Trace[l]) /\ (Trace[l].r \in {"ok", "err"} => Leaves(Trace[l]))
View == l
=============================================================================
