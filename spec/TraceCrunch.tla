---------------------------- MODULE TraceCrunch ----------------------------
(***************************************************************************)
(* Conformance of recorded Crunch calls: for every call of the trace the   *)
(* machine of Crunch is run over the file, and the call did what its       *)
(* verdict demands.                                                        *)
(***************************************************************************)
EXTENDS Json, IOUtils, Naturals, Sequences
VARIABLES l, pc, verdict, sec, at, ms, todo, pm, acc, pal, lev, buf, out, n
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Crunch WITH Log <- Trace
View == <<l, n>>

t == Trace[l]
\* a call that fails leaves the image alone, and none ends in any other way
Clean == t.r = "ok" \/ (t.r = "err" /\ t.p = Filled(t))
\* nothing outside of the image is written
Inside == \A i \in 1..t.n : i > t.w * t.h => t.p[i] = t.o
Conforms == pc = "done" =>
  CASE verdict = "err" -> t.r = "err" /\ Clean
    [] verdict = "bad" -> Clean /\ (t.r = "ok" => Inside)
    [] verdict = "ok"  -> LET x == Outcome IN t.r = x.r /\ t.e = x.e /\ t.p = x.p
\* the inputs that were generated to be well-formed are so (a = 1)
AsMeant == pc = "done" /\ t.a = 1 => verdict = "ok"
=============================================================================
