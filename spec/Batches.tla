------------------------------- MODULE Batches --------------------------------
(* Import of a grid of points in batches.  A batch is a box of grid indices, *)
(* a sequence of [lo, hi) per axis.  What is done grows by one box at a time *)
(* until the whole grid is done.                                             *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
Size(b) == Product([i \in 1..Len(b) |-> b[i][2] - b[i][1]])

Inside(n, b) == Len(b) = Len(n) /\ \A i \in 1..Len(n) : 0 <= b[i][1] /\ b[i][1] < b[i][2] /\ b[i][2] <= n[i]
Overlap(b, c) == \A i \in 1..Len(b) : b[i][1] < c[i][2] /\ c[i][1] < b[i][2]

VARIABLES n,        \* size of the grid along each axis
          limit,    \* most points in a batch (0: no limit)
          done,     \* batches so far
          count     \* points so far
bvars == <<n, limit, done, count>>

Start(size, lim) == n' = size /\ limit' = lim /\ done' = <<>> /\ count' = 0
Allowed(b) == /\ Inside(n, b)
              /\ limit > 0 => Size(b) <= limit
              /\ \A i \in 1..Len(done) : ~Overlap(b, done[i])
Take(b) == Allowed(b) /\ done' = Append(done, b) /\ count' = count + Size(b) /\ UNCHANGED <<n, limit>>
Finished == count = Product(n)
(* Without a limit there is one batch.                                       *)
End == Finished /\ UNCHANGED bvars

-----------------------------------------------------------------------------
(* The same for a whole import at once.                                      *)
RECURSIVE Total(_, _)
Total(bs, i) == IF i > Len(bs) THEN 0 ELSE Size(bs[i]) + Total(bs, i + 1)
Points(b) == IF Len(b) = 2 THEN (b[1][1]..(b[1][2] - 1)) \X (b[2][1]..(b[2][2] - 1))
             ELSE (b[1][1]..(b[1][2] - 1)) \X (b[2][1]..(b[2][2] - 1)) \X (b[3][1]..(b[3][2] - 1))
GoodImport(size, lim, bs) ==
    /\ \A i \in 1..Len(bs) : Inside(size, bs[i]) /\ (lim > 0 => Size(bs[i]) <= lim)
    /\ Total(bs, 1) = Product(size)
    /\ IF Product(size) <= 2000 THEN Cardinality(UNION {Points(bs[i]) : i \in 1..Len(bs)}) = Product(size)
       ELSE \A i \in 1..Len(bs) : \A j \in 1..(i - 1) : ~Overlap(bs[i], bs[j])
===============================================================================
