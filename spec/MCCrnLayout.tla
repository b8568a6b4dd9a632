---------------------------- MODULE MCCrnLayout ----------------------------
(* How Crunch goes over the blocks of a level, for every level of up to MaxX x MaxY blocks and MaxF faces:
   the chunks reach every block exactly once; and, for Unity's variant, the row of remembered blocks holds
   what the grid has above and above-left of the block that comes next. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxX, MaxY, MaxF, Refs
VARIABLES bx, by, bf, grid, run, row, diag, k
vars == <<bx, by, bf, grid, run, row, diag, k>>
Up2(x) == (x + 1) \div 2
\* only ChunkPlace and Referred of Crunch are used here
l == 1  pc == ""  verdict == ""  sec == 0  at == 0  ms == 0  todo == 0  pm == 0  acc == 0  pal == 0
lev == 0  buf == 0  out == 0  n == 0
C == INSTANCE Crunch WITH Log <- << >>

cx == Up2(bx)
cy == Up2(by)
Chunks == 0..(bf * cx * cy - 1)
\* the blocks of chunk j that are in the picture
Blocks(j) == LET p == C!ChunkPlace(j, cx, cy)
             IN {b \in {<<p.f, 2 * p.y + dy, 2 * p.x + dx>> : dy \in 0..1, dx \in 0..1} : b[2] < by /\ b[3] < bx}
Covered == k = 0 =>
  /\ UNION {Blocks(j) : j \in Chunks} = (0..(bf - 1)) \X (0..(by - 1)) \X (0..(bx - 1))
  /\ \A i, j \in Chunks : i # j => Blocks(i) \cap Blocks(j) = {}
\* within a face a chunk is next to the one before
Adjacent == k = 0 =>
  \A j \in Chunks : j > 0 => LET p == C!ChunkPlace(j - 1, cx, cy)  q == C!ChunkPlace(j, cx, cy)
                             IN p.f = q.f => (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y) = 1

\* Unity: end points are numbered by the block that introduces them; 0 is the end point of no block
PX == 2 * Up2(bx)
PY == 2 * Up2(by)
X == k % PX
Row == k \div PX                       \* rows count on over the faces
Was(r, x) == IF r < 0 \/ x < 0 THEN 0 ELSE grid[1 + r * PX + x]
Init == /\ bx \in 1..MaxX /\ by \in 1..MaxY /\ bf \in 1..MaxF
        /\ grid = <<>> /\ run = 0 /\ diag = 0 /\ k = 0
        /\ row = [i \in 1..PX |-> 0]
Next == /\ k < bf * PX * PY
        /\ \E ref \in Refs :
             LET e == C!Referred(ref, k + 1, run, row[X + 1], diag)
             IN /\ grid' = Append(grid, e) /\ run' = e
                /\ diag' = row[X + 1]
                /\ row' = [row EXCEPT ![X + 1] = e]
        /\ k' = k + 1 /\ UNCHANGED <<bx, by, bf>>
Spec == Init /\ [][Next]_vars
Remembered == k < bf * PX * PY =>
  /\ row[X + 1] = Was(Row - 1, X)
  /\ run = IF k = 0 THEN 0 ELSE grid[k]
  \* at the left edge: the last block of the row above the previous one, as the stream has it
  /\ diag = IF X > 0 THEN Was(Row - 1, X - 1) ELSE Was(Row - 2, PX - 1)
=============================================================================
