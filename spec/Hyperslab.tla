------------------------------ MODULE Hyperslab ------------------------------
(* The window of stored data that a block or surface keeps in memory, over   *)
(* two axes.  A point is a pair of indices in halves of a cell.  The window  *)
(* stays while the cell of the point is inside it, otherwise it is placed    *)
(* again.  The value read must be that of the right cell, whatever the       *)
(* window was (history independence), and no read may leave the window.      *)
EXTENDS Integers, FiniteSets

CONSTANTS Sizes,      \* set of <<N1, N2>>: points stored along each axis (each at least 2)
          Windows     \* set of <<D1, D2>>: requested window sizes (each at least 2)

VARIABLES n, d, loaded, origin, used
vars == <<n, d, loaded, origin, used>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Axes == 1..2

(* Cell of a half-index, from the index alone. *)
Lower(h) == IF h % 2 = 0 THEN Max(0, h \div 2 - 1) ELSE h \div 2

(* Window placement: the point in the middle, inside the dataset. *)
Placed(h, N, D) ==
    LET i0 == IF h >= 2 * (D - 1) THEN Max(0, (h - 2 * ((D - 1) \div 2)) \div 2) ELSE 0
    IN  Min(Min(i0, Lower(h)), N - D)

NeedsLoad(p) == \/ ~loaded
                \/ \E a \in Axes : Lower(p[a]) < origin[a] \/ p[a] >= 2 * (origin[a] + d[a] - 1)

Init == /\ n \in Sizes
        /\ d \in {[a \in Axes |-> Min(w[a], n[a])] : w \in Windows}
        /\ loaded = FALSE
        /\ origin = [a \in Axes |-> 0]
        /\ used = [p |-> <<0, 0>>, cell |-> <<0, 0>>]

Ask(p) ==
    /\ loaded' = TRUE
    /\ origin' = IF NeedsLoad(p) THEN [a \in Axes |-> Placed(p[a], n[a], d[a])] ELSE origin
    /\ used' = [p |-> p, cell |-> [a \in Axes |-> origin'[a] + (Lower(p[a]) - origin'[a])]]
    /\ UNCHANGED <<n, d>>

Next == \E p1 \in 0..(2 * (n[1] - 1)), p2 \in 0..(2 * (n[2] - 1)) : Ask(<<p1, p2>>)
Spec == Init /\ [][Next]_vars

WindowInside == \A a \in Axes : origin[a] >= 0 /\ origin[a] + d[a] <= n[a]
CellInWindow == loaded => \A a \in Axes : /\ used.cell[a] >= origin[a]
                                          /\ used.cell[a] + 1 <= origin[a] + d[a] - 1
HistoryFree == loaded => \A a \in Axes : used.cell[a] = Lower(used.p[a])
HoldsPoint == loaded => \A a \in Axes : 2 * used.cell[a] <= used.p[a] /\ used.p[a] <= 2 * used.cell[a] + 2
===============================================================================
