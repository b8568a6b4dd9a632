----------------------------- MODULE MCCrnWrite -----------------------------
(***************************************************************************)
(* The machine of Crunch, over files made by a writer that knows what they *)
(* mean: it reaches its end, has read every bit of the level and no more,  *)
(* and has the blocks that were meant.  Files that break off are refused.  *)
(* The whole files are handed out for the implementation to decode.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Rounds, Kinds
VARIABLES l, pc, verdict, sec, at, ms, todo, pm, acc, pal, lev, buf, out, n
W == INSTANCE CrnWrite
P == INSTANCE Pack
Variants == SelectSeq(
  << <<FALSE, 0>>, <<FALSE, 2>>, <<FALSE, 7>>, <<FALSE, 9>>, <<FALSE, 6>>, <<FALSE, 8>>,
     <<TRUE, 0>>, <<TRUE, 2>>, <<TRUE, 7>>, <<TRUE, 9>>, <<TRUE, 10>>, <<TRUE, 11>>,
     <<TRUE, 12>>, <<TRUE, 13>>, <<TRUE, 14>> >>,
  LAMBDA v : IF v[1] THEN "unity" \in Kinds ELSE "crunch" \in Kinds)
Nv == Len(Variants)
Written(i) == LET v == Variants[1 + ((i - 1) % Nv)] IN W!File(v[1], v[2], i)
\* (registers, so that TLC makes the files only once)
ASSUME TLCSet(1, [i \in 1..(Rounds * Nv) |-> TLCEval(Written(i))])
Made == TLCGet(1)
Call(x, d) == [f |-> x.f, d |-> d, w |-> x.w, h |-> x.h, a |-> 0, b |-> 0, n |-> x.w * x.h, o |-> 0]
\* each file twice: as it is, and without its last byte, though its header does not tell
Cut(d) == [k \in 1..(Len(d) - 1) |-> IF k \in 7..10 THEN 0 ELSE d[k]]
ASSUME TLCSet(2, TLCEval([j \in 1..(2 * Rounds * Nv) |->
           LET y == Made[(j + 1) \div 2]
           IN Call(y, IF j % 2 = 1 THEN y.d ELSE Cut(y.d))]))
Files == TLCGet(2)
INSTANCE Crunch WITH Log <- Files
x == Made[(l + 1) \div 2]
Whole == l % 2 = 1

Meant == pc = "done" /\ Whole =>
  /\ verdict = "ok"
  /\ out = x.blocks
  /\ at = x.used
  /\ P!Give(x.f, 1, 0, x.w, x.h, x.d)
\* every section needs all of its bytes
Broken == pc = "done" /\ ~Whole => verdict = "bad"
Terminates == <>(pc = "done")
=============================================================================
