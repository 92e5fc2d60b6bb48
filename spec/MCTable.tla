-------------------------------- MODULE MCTable -------------------------------
(* What a table says about a grid, for every table of up to four rows at     *)
(* positions on and off a small grid, in every order.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES rows, last
C == INSTANCE Create WITH Configs <- <<>>, Parts <- {}, root <- 0, meta <- <<>>, data <- <<>>
vars == <<rows, last>>
Grid == {0, 2} \X {0, 3} \X {0, -16}
Space == Grid \cup {<<1, 0, 0>>, <<4, 3, 0>>, <<0, 0, -32>>}
G(r) == [src |-> [kind |-> "rows", rows |-> r]]
At(r, p) == C!Recorded(G(r), 1, p[1], p[2], p[3])
Init == rows = <<>> /\ last = <<>>
(* A position is not recorded twice with different values.                   *)
Add(p, v) == /\ Len(rows) < 4
             /\ \A i \in 1..Len(rows) : rows[i].at = p => rows[i].v = <<v>>
             /\ rows' = Append(rows, [at |-> p, v |-> <<v>>]) /\ last' = p
Next == \E p \in Space, v \in {1, 2} : Add(p, v)
Spec == Init /\ [][Next]_vars
Positions == {rows[i].at : i \in 1..Len(rows)}
MissingWhereNotRecorded == \A p \in Grid : (At(rows, p) = C!NONE) <=> p \notin Positions
AsRecorded == \A i \in 1..Len(rows) : At(rows, rows[i].at) = rows[i].v[1]
OrderIsIrrelevant == LET n == Len(rows)  back == [i \in 1..n |-> rows[n + 1 - i]] IN \A p \in Grid : At(rows, p) = At(back, p)
OtherPointsUntouched == [][\A p \in Grid : p # last' => At(rows', p) = At(rows, p)]_vars
===============================================================================
