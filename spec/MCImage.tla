------------------------------ MODULE MCImage ------------------------------
(* The image machine with abstract texels (block number, texel number), for every width, height, block size
   and slice length within the bounds, lengths going past what is needed on both sides. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxW, MaxH, Blocks
VARIABLES call, pc, k, img, verdict
Geo(c) == << c.bw, c.bh, c.nb >>
Tx(c, b) == [i \in 1..(c.bw * c.bh) |-> 1000 * (b + 1) + i]
I == INSTANCE Image WITH Geometry <- Geo, Texels <- Tx

QuickBlocks == { << 4, 4, 8 >>, << 4, 4, 16 >>, << 5, 4, 16 >>, << 2, 3, 1 >>, << 12, 13, 2 >> }
DeepBlocks == QuickBlocks \cup { << 6, 5, 16 >>, << 8, 4, 8 >>, << 3, 3, 2 >>, << 10, 6, 16 >>, << 12, 12, 16 >> }
Near(x) == { y \in {0, x - 1, x, x + 1, x \div 2} : y >= 0 }
Init ==
  \E w \in 0..MaxW, h \in 0..MaxH, g \in Blocks :
    LET need == I!Up(w, g[1]) * I!Up(h, g[2]) * g[3]
    IN \E nd \in Near(need), n \in Near(w * h) :
         I!Begin([w |-> w, h |-> h, bw |-> g[1], bh |-> g[2], nb |-> g[3], n |-> n, o |-> -1,
                  d |-> [i \in 1..nd |-> 0]])
Next == I!Step
Spec == Init /\ [][Next]_I!vars /\ WF_I!vars(Next)
TypeOK == I!TypeOK
Outside == I!Outside
Untouched == I!Untouched
Tiled == I!Tiled
Exact == I!Exact
Prefix == I!Prefix
Terminates == <>(pc = "done")
=============================================================================
