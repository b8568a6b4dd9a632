-------------------------------- MODULE BC6H --------------------------------
(***************************************************************************)
(* BC6H (BPTC float).  The library delivers 8 bits per channel:            *)
(* HalfToU8 of the decoded half.                                           *)
(***************************************************************************)
EXTENDS Bits, BPTC, Half, FiniteSets

\* tr: end points 1.. are deltas to end point 0; head: bits before partition and indices;
\* f[c][e]: the pieces << shift, width, position >> of channel c of end point e - 1
ModeOf(mode) ==
  CASE mode = 2 -> [tr |-> TRUE, subsets |-> 2, bits |-> 11, delta |-> <<5,4,4>>, head |-> 77,
         f |-> << << <<<<0,10,5>>, <<10,1,40>>>>, <<<<0,5,35>>>>, <<<<0,5,65>>>>, <<<<0,5,71>>>> >>,
                  << <<<<0,10,15>>, <<10,1,49>>>>, <<<<0,4,45>>>>, <<<<0,4,41>>>>, <<<<0,4,51>>>> >>,
                  << <<<<0,10,25>>, <<10,1,59>>>>, <<<<0,4,55>>>>, <<<<0,4,61>>>>, <<<<0,1,50>>, <<1,1,60>>, <<2,1,70>>, <<3,1,76>>>> >> >>]
    [] mode = 3 -> [tr |-> FALSE, subsets |-> 1, bits |-> 10, delta |-> <<10,10,10>>, head |-> 65,
         f |-> << << <<<<0,10,5>>>>, <<<<0,10,35>>>> >>,
                  << <<<<0,10,15>>>>, <<<<0,10,45>>>> >>,
                  << <<<<0,10,25>>>>, <<<<0,10,55>>>> >> >>]
    [] mode = 6 -> [tr |-> TRUE, subsets |-> 2, bits |-> 11, delta |-> <<4,5,4>>, head |-> 77,
         f |-> << << <<<<0,10,5>>, <<10,1,39>>>>, <<<<0,4,35>>>>, <<<<0,4,65>>>>, <<<<0,4,71>>>> >>,
                  << <<<<0,10,15>>, <<10,1,50>>>>, <<<<0,5,45>>>>, <<<<0,4,41>>, <<4,1,75>>>>, <<<<4,1,40>>, <<0,4,51>>>> >>,
                  << <<<<0,10,25>>, <<10,1,59>>>>, <<<<0,4,55>>>>, <<<<0,4,61>>>>, <<<<1,1,60>>, <<0,1,69>>, <<2,1,70>>, <<3,1,76>>>> >> >>]
    [] mode = 7 -> [tr |-> TRUE, subsets |-> 1, bits |-> 11, delta |-> <<9,9,9>>, head |-> 65,
         f |-> << << <<<<0,10,5>>, <<10,1,44>>>>, <<<<0,9,35>>>> >>,
                  << <<<<0,10,15>>, <<10,1,54>>>>, <<<<0,9,45>>>> >>,
                  << <<<<0,10,25>>, <<10,1,64>>>>, <<<<0,9,55>>>> >> >>]
    [] mode = 10 -> [tr |-> TRUE, subsets |-> 2, bits |-> 11, delta |-> <<4,4,5>>, head |-> 77,
         f |-> << << <<<<0,10,5>>, <<10,1,39>>>>, <<<<0,4,35>>>>, <<<<0,4,65>>>>, <<<<0,4,71>>>> >>,
                  << <<<<0,10,15>>, <<10,1,49>>>>, <<<<0,4,45>>>>, <<<<0,4,41>>>>, <<<<0,4,51>>>> >>,
                  << <<<<0,10,25>>, <<10,1,60>>>>, <<<<0,5,55>>>>, <<<<4,1,40>>, <<0,4,61>>>>, <<<<0,1,50>>, <<1,1,69>>, <<2,1,70>>, <<4,1,75>>, <<3,1,76>>>> >> >>]
    [] mode = 11 -> [tr |-> TRUE, subsets |-> 1, bits |-> 12, delta |-> <<8,8,8>>, head |-> 65,
         f |-> << << <<<<0,10,5>>, <<11,1,43>>, <<10,1,44>>>>, <<<<0,8,35>>>> >>,
                  << <<<<0,10,15>>, <<11,1,53>>, <<10,1,54>>>>, <<<<0,8,45>>>> >>,
                  << <<<<0,10,25>>, <<11,1,63>>, <<10,1,64>>>>, <<<<0,8,55>>>> >> >>]
    [] mode = 14 -> [tr |-> TRUE, subsets |-> 2, bits |-> 9, delta |-> <<5,5,5>>, head |-> 77,
         f |-> << << <<<<0,9,5>>>>, <<<<0,5,35>>>>, <<<<0,5,65>>>>, <<<<0,5,71>>>> >>,
                  << <<<<0,9,15>>>>, <<<<0,5,45>>>>, <<<<4,1,24>>, <<0,4,41>>>>, <<<<4,1,40>>, <<0,4,51>>>> >>,
                  << <<<<0,9,25>>>>, <<<<0,5,55>>>>, <<<<4,1,14>>, <<0,4,61>>>>, <<<<4,1,34>>, <<0,1,50>>, <<1,1,60>>, <<2,1,70>>, <<3,1,76>>>> >> >>]
    [] mode = 15 -> [tr |-> TRUE, subsets |-> 1, bits |-> 16, delta |-> <<4,4,4>>, head |-> 65,
         f |-> << << <<<<0,10,5>>, <<15,1,39>>, <<14,1,40>>, <<13,1,41>>, <<12,1,42>>, <<11,1,43>>, <<10,1,44>>>>, <<<<0,4,35>>>> >>,
                  << <<<<0,10,15>>, <<15,1,49>>, <<14,1,50>>, <<13,1,51>>, <<12,1,52>>, <<11,1,53>>, <<10,1,54>>>>, <<<<0,4,45>>>> >>,
                  << <<<<0,10,25>>, <<15,1,59>>, <<14,1,60>>, <<13,1,61>>, <<12,1,62>>, <<11,1,63>>, <<10,1,64>>>>, <<<<0,4,55>>>> >> >>]
    [] mode = 18 -> [tr |-> TRUE, subsets |-> 2, bits |-> 8, delta |-> <<6,5,5>>, head |-> 77,
         f |-> << << <<<<0,8,5>>>>, <<<<0,6,35>>>>, <<<<0,6,65>>>>, <<<<0,6,71>>>> >>,
                  << <<<<0,8,15>>>>, <<<<0,5,45>>>>, <<<<4,1,24>>, <<0,4,41>>>>, <<<<4,1,13>>, <<0,4,51>>>> >>,
                  << <<<<0,8,25>>>>, <<<<0,5,55>>>>, <<<<4,1,14>>, <<0,4,61>>>>, <<<<2,1,23>>, <<3,1,33>>, <<4,1,34>>, <<0,1,50>>, <<1,1,60>>>> >> >>]
    [] mode = 22 -> [tr |-> TRUE, subsets |-> 2, bits |-> 8, delta |-> <<5,6,5>>, head |-> 77,
         f |-> << << <<<<0,8,5>>>>, <<<<0,5,35>>>>, <<<<0,5,65>>>>, <<<<0,5,71>>>> >>,
                  << <<<<0,8,15>>>>, <<<<0,6,45>>>>, <<<<5,1,23>>, <<4,1,24>>, <<0,4,41>>>>, <<<<5,1,33>>, <<4,1,40>>, <<0,4,51>>>> >>,
                  << <<<<0,8,25>>>>, <<<<0,5,55>>>>, <<<<4,1,14>>, <<0,4,61>>>>, <<<<0,1,13>>, <<4,1,34>>, <<1,1,60>>, <<2,1,70>>, <<3,1,76>>>> >> >>]
    [] mode = 26 -> [tr |-> TRUE, subsets |-> 2, bits |-> 8, delta |-> <<5,5,6>>, head |-> 77,
         f |-> << << <<<<0,8,5>>>>, <<<<0,5,35>>>>, <<<<0,5,65>>>>, <<<<0,5,71>>>> >>,
                  << <<<<0,8,15>>>>, <<<<0,5,45>>>>, <<<<4,1,24>>, <<0,4,41>>>>, <<<<4,1,40>>, <<0,4,51>>>> >>,
                  << <<<<0,8,25>>>>, <<<<0,6,55>>>>, <<<<4,1,14>>, <<5,1,23>>, <<0,4,61>>>>, <<<<1,1,13>>, <<5,1,33>>, <<4,1,34>>, <<0,1,50>>, <<2,1,70>>, <<3,1,76>>>> >> >>]
    [] mode = 30 -> [tr |-> FALSE, subsets |-> 2, bits |-> 6, delta |-> <<6,6,6>>, head |-> 77,
         f |-> << << <<<<0,6,5>>>>, <<<<0,6,35>>>>, <<<<0,6,65>>>>, <<<<0,6,71>>>> >>,
                  << <<<<0,6,15>>>>, <<<<0,6,45>>>>, <<<<5,1,21>>, <<4,1,24>>, <<0,4,41>>>>, <<<<4,1,11>>, <<5,1,31>>, <<0,4,51>>>> >>,
                  << <<<<0,6,25>>>>, <<<<0,6,55>>>>, <<<<4,1,14>>, <<5,1,22>>, <<0,4,61>>>>, <<<<0,1,12>>, <<1,1,13>>, <<2,1,23>>, <<3,1,32>>, <<5,1,33>>, <<4,1,34>>>> >> >>]
    [] mode = 0 -> [tr |-> TRUE, subsets |-> 2, bits |-> 10, delta |-> <<5,5,5>>, head |-> 77,
         f |-> << << <<<<0,10,5>>>>, <<<<0,5,35>>>>, <<<<0,5,65>>>>, <<<<0,5,71>>>> >>,
                  << <<<<0,10,15>>>>, <<<<0,5,45>>>>, <<<<4,1,2>>, <<0,4,41>>>>, <<<<4,1,40>>, <<0,4,51>>>> >>,
                  << <<<<0,10,25>>>>, <<<<0,5,55>>>>, <<<<4,1,3>>, <<0,4,61>>>>, <<<<4,1,4>>, <<0,1,50>>, <<1,1,60>>, <<2,1,70>>, <<3,1,76>>>> >> >>]
    [] mode = 1 -> [tr |-> TRUE, subsets |-> 2, bits |-> 7, delta |-> <<6,6,6>>, head |-> 77,
         f |-> << << <<<<0,7,5>>>>, <<<<0,6,35>>>>, <<<<0,6,65>>>>, <<<<0,6,71>>>> >>,
                  << <<<<0,7,15>>>>, <<<<0,6,45>>>>, <<<<5,1,2>>, <<4,1,24>>, <<0,4,41>>>>, <<<<4,1,3>>, <<5,1,4>>, <<0,4,51>>>> >>,
                  << <<<<0,7,25>>>>, <<<<0,6,55>>>>, <<<<4,1,14>>, <<5,1,22>>, <<0,4,61>>>>, <<<<0,1,12>>, <<1,1,13>>, <<2,1,23>>, <<3,1,32>>, <<5,1,33>>, <<4,1,34>>>> >> >>]
IsMode(m) == m \in {0, 1, 2, 3, 6, 7, 10, 11, 14, 15, 18, 22, 26, 30}

RECURSIVE Gather(_, _, _, _)
Gather(d, at, pieces, k) ==
  IF k = 0 THEN 0
  ELSE LET p == pieces[k] IN LE(d, at, p[3], p[2]) * Pow2(p[1]) + Gather(d, at, pieces, k - 1)

\* a component (unsigned, or signed) expanded to the full 16-bit range
UnqU(v, bits) == IF bits >= 15 THEN v
                 ELSE IF v = 0 THEN 0
                 ELSE IF v = Pow2(bits) - 1 THEN 65535
                 ELSE (v * 32768 + 16384) \div Pow2(bits - 1)
UnqS(v, bits) == LET m == IF v < 0 THEN -v ELSE v
                     q == IF m = 0 THEN 0
                          ELSE IF m >= Pow2(bits - 1) - 1 THEN 32767
                          ELSE (m * 32768 + 16384) \div Pow2(bits - 1)
                 IN IF bits >= 16 THEN v ELSE IF v < 0 THEN -q ELSE q

BC6Block(d, at, signed) ==
  LET two == LE(d, at, 0, 2)
      mode == IF two < 2 THEN two ELSE LE(d, at, 0, 5)
  IN IF ~IsMode(mode) THEN [i \in 1..16 |-> 0]     \* reserved: zeros (alpha too, in this library)
     ELSE
  LET mi == ModeOf(mode)
      ne == 2 * mi.subsets
      Raw(c, e) == Gather(d, at, mi.f[c][e], Len(mi.f[c][e]))
      Base(c) == IF signed THEN Signed(Raw(c, 1), mi.bits) ELSE Raw(c, 1)
      EPoint(c, e) ==
        IF e = 1 THEN Base(c)
        ELSE IF mi.tr
             THEN LET t == (Base(c) + Signed(Raw(c, e), mi.delta[c])) % Pow2(mi.bits)
                  IN IF signed THEN Signed(t, mi.bits) ELSE t
             ELSE IF signed THEN Signed(Raw(c, e), mi.bits) ELSE Raw(c, e)
      ep == TLCEval([c \in 1..3 |-> [e \in 1..ne |->
               IF signed THEN UnqS(EPoint(c, e), mi.bits) ELSE UnqU(EPoint(c, e), mi.bits)]])
      part == IF mi.subsets = 2 THEN LE(d, at, mi.head, 5) ELSE 0
      nb == IF mi.subsets = 2 THEN 3 ELSE 4
      o == mi.head + (IF mi.subsets = 2 THEN 5 ELSE 0)
      anchors == {AnchorOf(mi.subsets, part, s) : s \in 0..(mi.subsets - 1)}
      Pos(i) == o + (i - 1) * nb - Cardinality({a \in anchors : a < i - 1})
      Idx(i) == LE(d, at, Pos(i), IF (i - 1) \in anchors THEN nb - 1 ELSE nb)
      Fin(v) == IF signed
                THEN IF v < 0 THEN 0 ELSE HalfToU8((v * 31) \div 32)
                ELSE HalfToU8((v * 31) \div 64)
  IN [i \in 1..16 |->
       LET s == SubsetOf(mi.subsets, part, i)
           w == Weights(nb)[Idx(i) + 1]
           Ch(c) == Fin((ep[c][2 * s + 1] * (64 - w) + ep[c][2 * s + 2] * w + 32) \div 64)
       IN Pix(Ch(1), Ch(2), Ch(3), 255)]
=============================================================================
