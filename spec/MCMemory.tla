------------------------------ MODULE MCMemory ------------------------------
(***************************************************************************)
(* What decoding a Crunch file has in use, step by step, for headers that  *)
(* claim anything: sizes up to 65535 x 65535 with 255 faces, four palettes *)
(* of up to 65535 entries, models of up to 8192 symbols, sections of       *)
(* any length.  A level is only made room for when its section has a bit   *)
(* for each of its blocks (Guard); with that the memory stays within the   *)
(* bound of Memory, and without it it does not (MCMemoryUnguarded).        *)
(***************************************************************************)
EXTENDS Memory
CONSTANTS Guard, Sides, Faces, Entries, Lengths
VARIABLES pc, held, len, w, h, faces, levels, num, src
vars == <<pc, held, len, w, h, faces, levels, num, src>>
Full == 2056388608                            \* stands for every larger number
Times(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Full \div b THEN Full ELSE a * b
Plus(a, b) == IF a > Full - b THEN Full ELSE a + b
Model == 8192 + 2 * 8192 + 4 * 2048           \* code sizes, symbols in order, look-up table
Blocks == Times(Times((w + 3) \div 4, (h + 3) \div 4), faces)
\* the most a format takes for an entry of each palette
Entry == 4 + 8 + 2 + 12
Max1(x) == IF x = 0 THEN 1 ELSE x
Init == /\ pc = "header" /\ held = 0 /\ num = 0
        /\ len \in Lengths /\ w \in {Max1(s) : s \in Sides} /\ h \in {Max1(s) : s \in Sides} /\ faces \in Faces
        /\ levels \in {0, 1, 255} /\ src \in {0, 1, len \div 2, len}
Take(n, next) == held' = Plus(held, n) /\ pc' = next /\ UNCHANGED <<len, w, h, faces, levels, src>>
Stop == held' = 0 /\ pc' = "done" /\ UNCHANGED <<len, w, h, faces, levels, num, src>>
Header == pc = "header" /\ (IF len < 74 \/ len < 70 + 4 * levels THEN Stop
                            ELSE Take(2 * 4 * levels, "tables") /\ UNCHANGED num)
Tables == pc = "tables" /\ (Stop \/ (Take(6 * Model, "palettes") /\ UNCHANGED num))
\* a vector that grows is copied to one twice as long
Palette == pc = "palettes" /\ (Stop \/ \E n \in Entries : num' = n /\ Take(3 * Entry * n, "level"))
Room == pc = "level" /\ (IF Guard /\ Blocks > 8 * src THEN Stop
                         ELSE Take(Times(16, Blocks), "decode") /\ UNCHANGED num)
Decode == pc = "decode" /\ Stop
Next == Header \/ Tables \/ Palette \/ Room \/ Decode
Spec == Init /\ [][Next]_vars
Bounded == held <= CrunchBound(len)
GivesBack == pc = "done" => held = 0
=============================================================================
