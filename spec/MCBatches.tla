------------------------------ MODULE MCBatches -------------------------------
(* Every way of importing small grids in batches: an import that finishes    *)
(* has covered every point exactly once, and one that has not finished can   *)
(* always go on (with batches of one point if need be).                      *)
EXTENDS Batches
CONSTANTS Sizes, Limits
MCInit == /\ n \in Sizes /\ limit \in Limits /\ done = <<>> /\ count = 0
Boxes == {b \in [1..Len(n) -> (0..2) \X (1..3)] : Inside(n, b)}
MCNext == ~Finished /\ \E b \in Boxes : Take(b)
MCSpec == MCInit /\ [][MCNext]_bvars
All == {x \in [1..Len(n) -> 0..2] : \A i \in 1..Len(n) : x[i] < n[i]}
In(x, b) == \A i \in 1..Len(x) : b[i][1] <= x[i] /\ x[i] < b[i][2]
Covered(x) == Cardinality({i \in 1..Len(done) : In(x, done[i])})
AtMostOnce == \A x \in All : Covered(x) <= 1
FinishedIsAll == Finished <=> \A x \in All : Covered(x) = 1
Progress == ~Finished => \E b \in Boxes : Allowed(b)
Agrees == Finished => GoodImport(n, limit, done)
View == <<n, limit, {done[i] : i \in 1..Len(done)}>>
MCSizes == {<<2, 2>>, <<1, 3>>, <<3, 2>>, <<1, 2, 2>>, <<2, 1, 3>>}
MCLimits == {0, 1, 2, 3}
===============================================================================
