-------------------------------- MODULE BPTC --------------------------------
(***************************************************************************)
(* Tables shared by BC6H and BC7: partitions of the 16 texels into two or  *)
(* three subsets, the anchor texel of each further subset, and the         *)
(* interpolation weights.  The ASSUMEs are the consistency conditions the  *)
(* format itself imposes on them.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Partition2 ==
 << <<0,0,1,1,0,0,1,1,0,0,1,1,0,0,1,1>>,
    <<0,0,0,1,0,0,0,1,0,0,0,1,0,0,0,1>>,
    <<0,1,1,1,0,1,1,1,0,1,1,1,0,1,1,1>>,
    <<0,0,0,1,0,0,1,1,0,0,1,1,0,1,1,1>>,
    <<0,0,0,0,0,0,0,1,0,0,0,1,0,0,1,1>>,
    <<0,0,1,1,0,1,1,1,0,1,1,1,1,1,1,1>>,
    <<0,0,0,1,0,0,1,1,0,1,1,1,1,1,1,1>>,
    <<0,0,0,0,0,0,0,1,0,0,1,1,0,1,1,1>>,
    <<0,0,0,0,0,0,0,0,0,0,0,1,0,0,1,1>>,
    <<0,0,1,1,0,1,1,1,1,1,1,1,1,1,1,1>>,
    <<0,0,0,0,0,0,0,1,0,1,1,1,1,1,1,1>>,
    <<0,0,0,0,0,0,0,0,0,0,0,1,0,1,1,1>>,
    <<0,0,0,1,0,1,1,1,1,1,1,1,1,1,1,1>>,
    <<0,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1>>,
    <<0,0,0,0,1,1,1,1,1,1,1,1,1,1,1,1>>,
    <<0,0,0,0,0,0,0,0,0,0,0,0,1,1,1,1>>,
    <<0,0,0,0,1,0,0,0,1,1,1,0,1,1,1,1>>,
    <<0,1,1,1,0,0,0,1,0,0,0,0,0,0,0,0>>,
    <<0,0,0,0,0,0,0,0,1,0,0,0,1,1,1,0>>,
    <<0,1,1,1,0,0,1,1,0,0,0,1,0,0,0,0>>,
    <<0,0,1,1,0,0,0,1,0,0,0,0,0,0,0,0>>,
    <<0,0,0,0,1,0,0,0,1,1,0,0,1,1,1,0>>,
    <<0,0,0,0,0,0,0,0,1,0,0,0,1,1,0,0>>,
    <<0,1,1,1,0,0,1,1,0,0,1,1,0,0,0,1>>,
    <<0,0,1,1,0,0,0,1,0,0,0,1,0,0,0,0>>,
    <<0,0,0,0,1,0,0,0,1,0,0,0,1,1,0,0>>,
    <<0,1,1,0,0,1,1,0,0,1,1,0,0,1,1,0>>,
    <<0,0,1,1,0,1,1,0,0,1,1,0,1,1,0,0>>,
    <<0,0,0,1,0,1,1,1,1,1,1,0,1,0,0,0>>,
    <<0,0,0,0,1,1,1,1,1,1,1,1,0,0,0,0>>,
    <<0,1,1,1,0,0,0,1,1,0,0,0,1,1,1,0>>,
    <<0,0,1,1,1,0,0,1,1,0,0,1,1,1,0,0>>,
    <<0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1>>,
    <<0,0,0,0,1,1,1,1,0,0,0,0,1,1,1,1>>,
    <<0,1,0,1,1,0,1,0,0,1,0,1,1,0,1,0>>,
    <<0,0,1,1,0,0,1,1,1,1,0,0,1,1,0,0>>,
    <<0,0,1,1,1,1,0,0,0,0,1,1,1,1,0,0>>,
    <<0,1,0,1,0,1,0,1,1,0,1,0,1,0,1,0>>,
    <<0,1,1,0,1,0,0,1,0,1,1,0,1,0,0,1>>,
    <<0,1,0,1,1,0,1,0,1,0,1,0,0,1,0,1>>,
    <<0,1,1,1,0,0,1,1,1,1,0,0,1,1,1,0>>,
    <<0,0,0,1,0,0,1,1,1,1,0,0,1,0,0,0>>,
    <<0,0,1,1,0,0,1,0,0,1,0,0,1,1,0,0>>,
    <<0,0,1,1,1,0,1,1,1,1,0,1,1,1,0,0>>,
    <<0,1,1,0,1,0,0,1,1,0,0,1,0,1,1,0>>,
    <<0,0,1,1,1,1,0,0,1,1,0,0,0,0,1,1>>,
    <<0,1,1,0,0,1,1,0,1,0,0,1,1,0,0,1>>,
    <<0,0,0,0,0,1,1,0,0,1,1,0,0,0,0,0>>,
    <<0,1,0,0,1,1,1,0,0,1,0,0,0,0,0,0>>,
    <<0,0,1,0,0,1,1,1,0,0,1,0,0,0,0,0>>,
    <<0,0,0,0,0,0,1,0,0,1,1,1,0,0,1,0>>,
    <<0,0,0,0,0,1,0,0,1,1,1,0,0,1,0,0>>,
    <<0,1,1,0,1,1,0,0,1,0,0,1,0,0,1,1>>,
    <<0,0,1,1,0,1,1,0,1,1,0,0,1,0,0,1>>,
    <<0,1,1,0,0,0,1,1,1,0,0,1,1,1,0,0>>,
    <<0,0,1,1,1,0,0,1,1,1,0,0,0,1,1,0>>,
    <<0,1,1,0,1,1,0,0,1,1,0,0,1,0,0,1>>,
    <<0,1,1,0,0,0,1,1,0,0,1,1,1,0,0,1>>,
    <<0,1,1,1,1,1,1,0,1,0,0,0,0,0,0,1>>,
    <<0,0,0,1,1,0,0,0,1,1,1,0,0,1,1,1>>,
    <<0,0,0,0,1,1,1,1,0,0,1,1,0,0,1,1>>,
    <<0,0,1,1,0,0,1,1,1,1,1,1,0,0,0,0>>,
    <<0,0,1,0,0,0,1,0,1,1,1,0,1,1,1,0>>,
    <<0,1,0,0,0,1,0,0,0,1,1,1,0,1,1,1>> >>

Partition3 ==
 << <<0,0,1,1,0,0,1,1,0,2,2,1,2,2,2,2>>,
    <<0,0,0,1,0,0,1,1,2,2,1,1,2,2,2,1>>,
    <<0,0,0,0,2,0,0,1,2,2,1,1,2,2,1,1>>,
    <<0,2,2,2,0,0,2,2,0,0,1,1,0,1,1,1>>,
    <<0,0,0,0,0,0,0,0,1,1,2,2,1,1,2,2>>,
    <<0,0,1,1,0,0,1,1,0,0,2,2,0,0,2,2>>,
    <<0,0,2,2,0,0,2,2,1,1,1,1,1,1,1,1>>,
    <<0,0,1,1,0,0,1,1,2,2,1,1,2,2,1,1>>,
    <<0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2>>,
    <<0,0,0,0,1,1,1,1,1,1,1,1,2,2,2,2>>,
    <<0,0,0,0,1,1,1,1,2,2,2,2,2,2,2,2>>,
    <<0,0,1,2,0,0,1,2,0,0,1,2,0,0,1,2>>,
    <<0,1,1,2,0,1,1,2,0,1,1,2,0,1,1,2>>,
    <<0,1,2,2,0,1,2,2,0,1,2,2,0,1,2,2>>,
    <<0,0,1,1,0,1,1,2,1,1,2,2,1,2,2,2>>,
    <<0,0,1,1,2,0,0,1,2,2,0,0,2,2,2,0>>,
    <<0,0,0,1,0,0,1,1,0,1,1,2,1,1,2,2>>,
    <<0,1,1,1,0,0,1,1,2,0,0,1,2,2,0,0>>,
    <<0,0,0,0,1,1,2,2,1,1,2,2,1,1,2,2>>,
    <<0,0,2,2,0,0,2,2,0,0,2,2,1,1,1,1>>,
    <<0,1,1,1,0,1,1,1,0,2,2,2,0,2,2,2>>,
    <<0,0,0,1,0,0,0,1,2,2,2,1,2,2,2,1>>,
    <<0,0,0,0,0,0,1,1,0,1,2,2,0,1,2,2>>,
    <<0,0,0,0,1,1,0,0,2,2,1,0,2,2,1,0>>,
    <<0,1,2,2,0,1,2,2,0,0,1,1,0,0,0,0>>,
    <<0,0,1,2,0,0,1,2,1,1,2,2,2,2,2,2>>,
    <<0,1,1,0,1,2,2,1,1,2,2,1,0,1,1,0>>,
    <<0,0,0,0,0,1,1,0,1,2,2,1,1,2,2,1>>,
    <<0,0,2,2,1,1,0,2,1,1,0,2,0,0,2,2>>,
    <<0,1,1,0,0,1,1,0,2,0,0,2,2,2,2,2>>,
    <<0,0,1,1,0,1,2,2,0,1,2,2,0,0,1,1>>,
    <<0,0,0,0,2,0,0,0,2,2,1,1,2,2,2,1>>,
    <<0,0,0,0,0,0,0,2,1,1,2,2,1,2,2,2>>,
    <<0,2,2,2,0,0,2,2,0,0,1,2,0,0,1,1>>,
    <<0,0,1,1,0,0,1,2,0,0,2,2,0,2,2,2>>,
    <<0,1,2,0,0,1,2,0,0,1,2,0,0,1,2,0>>,
    <<0,0,0,0,1,1,1,1,2,2,2,2,0,0,0,0>>,
    <<0,1,2,0,1,2,0,1,2,0,1,2,0,1,2,0>>,
    <<0,1,2,0,2,0,1,2,1,2,0,1,0,1,2,0>>,
    <<0,0,1,1,2,2,0,0,1,1,2,2,0,0,1,1>>,
    <<0,0,1,1,1,1,2,2,2,2,0,0,0,0,1,1>>,
    <<0,1,0,1,0,1,0,1,2,2,2,2,2,2,2,2>>,
    <<0,0,0,0,0,0,0,0,2,1,2,1,2,1,2,1>>,
    <<0,0,2,2,1,1,2,2,0,0,2,2,1,1,2,2>>,
    <<0,0,2,2,0,0,1,1,0,0,2,2,0,0,1,1>>,
    <<0,2,2,0,1,2,2,1,0,2,2,0,1,2,2,1>>,
    <<0,1,0,1,2,2,2,2,2,2,2,2,0,1,0,1>>,
    <<0,0,0,0,2,1,2,1,2,1,2,1,2,1,2,1>>,
    <<0,1,0,1,0,1,0,1,0,1,0,1,2,2,2,2>>,
    <<0,2,2,2,0,1,1,1,0,2,2,2,0,1,1,1>>,
    <<0,0,0,2,1,1,1,2,0,0,0,2,1,1,1,2>>,
    <<0,0,0,0,2,1,1,2,2,1,1,2,2,1,1,2>>,
    <<0,2,2,2,0,1,1,1,0,1,1,1,0,2,2,2>>,
    <<0,0,0,2,1,1,1,2,1,1,1,2,0,0,0,2>>,
    <<0,1,1,0,0,1,1,0,0,1,1,0,2,2,2,2>>,
    <<0,0,0,0,0,0,0,0,2,1,1,2,2,1,1,2>>,
    <<0,1,1,0,0,1,1,0,2,2,2,2,2,2,2,2>>,
    <<0,0,2,2,0,0,1,1,0,0,1,1,0,0,2,2>>,
    <<0,0,2,2,1,1,2,2,1,1,2,2,0,0,2,2>>,
    <<0,0,0,0,0,0,0,0,0,0,0,0,2,1,1,2>>,
    <<0,0,0,2,0,0,0,1,0,0,0,2,0,0,0,1>>,
    <<0,2,2,2,1,2,2,2,0,2,2,2,1,2,2,2>>,
    <<0,1,0,1,2,2,2,2,2,2,2,2,2,2,2,2>>,
    <<0,1,1,1,2,0,1,1,2,2,0,1,2,2,2,0>> >>

Anchor2 == <<15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,2,8,2,2,8,8,15,2,8,2,2,8,8,2,2,15,15,6,8,2,8,15,15,2,8,2,2,2,15,15,6,6,2,6,8,15,15,2,2,15,15,15,15,15,2,2,15>>
Anchor3a == <<3,3,15,15,8,3,15,15,8,8,6,6,6,5,3,3,3,3,8,15,3,3,6,10,5,8,8,6,8,5,15,15,8,15,3,5,6,10,8,15,15,3,15,5,15,15,15,15,3,15,5,5,5,8,5,10,5,10,8,13,15,12,3,3>>
Anchor3b == <<15,8,8,3,15,15,3,8,15,15,15,15,15,15,15,8,15,8,15,3,15,8,15,8,3,15,6,10,15,15,10,8,15,3,15,10,10,8,9,10,6,15,8,15,3,6,6,8,15,3,15,15,15,15,15,15,15,15,15,15,3,15,15,8>>

Weights(bits) ==
  CASE bits = 2 -> <<0, 21, 43, 64>>
    [] bits = 3 -> <<0, 9, 18, 27, 37, 46, 55, 64>>
    [] bits = 4 -> <<0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64>>

\* subset (0..) of texel i (1..16), and the anchor texel (0..15) of a subset
SubsetOf(n, part, i) == CASE n = 1 -> 0 [] n = 2 -> Partition2[part + 1][i] [] n = 3 -> Partition3[part + 1][i]
AnchorOf(n, part, s) == IF s = 0 THEN 0
                        ELSE IF n = 2 THEN Anchor2[part + 1]
                        ELSE IF s = 1 THEN Anchor3a[part + 1] ELSE Anchor3b[part + 1]

ASSUME \A p \in 0..63 : \A n \in 2..3 :
         /\ SubsetOf(n, p, 1) = 0
         /\ {SubsetOf(n, p, i) : i \in 1..16} = 0..(n - 1)
         /\ \A s \in 0..(n - 1) : SubsetOf(n, p, AnchorOf(n, p, s) + 1) = s
=============================================================================
