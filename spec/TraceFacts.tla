----------------------------- MODULE TraceFacts -----------------------------
(* Recorded one-block decodes against Facts; field g groups calls on related bytes. *)
EXTENDS Facts, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, known
Starts == { i \in 1..N : i = 1 \/ Trace[i].g # Trace[i - 1].g }
Init == l \in Starts /\ known = << >>
Next == /\ l < N /\ Trace[l + 1].g = Trace[l].g
        /\ known' = known @@ Revealed(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, known>>
Conforms == Trace[l].r = "ok" /\ Agrees(known, Trace[l])
View == l
=============================================================================
