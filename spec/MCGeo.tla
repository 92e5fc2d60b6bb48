-------------------------------- MODULE MCGeo --------------------------------
(* What the geometry of the specification means, from first principles, for  *)
(* every small grid, every point of a lattice finer than the grid, and every *)
(* pattern of missing data of a family.  Each state is one case.             *)
EXTENDS GeoModel
CONSTANTS Axes, SideAxes, DownAxes, Hashes, Gaps, Fine     \* Fine: points of the lattice per tick
VARIABLES b, t
mcvars == <<b, t>>

Lattice(a) == {Q(i, Fine) : i \in 0..(Fine * AxisLen(a))}
Start == <<>>
MCInit == b \in [top : {0}, ax : Axes, ay : SideAxes, az : DownAxes, p : Hashes, nd : Gaps] /\ t = Start
MCNext == t = Start /\ b' = b /\ t' \in Lattice(b.ax) \X Lattice(b.ay) \X Lattice(b.az)
MCSpec == MCInit /\ [][MCNext]_mcvars

A(i) == CASE i = 1 -> b.ax [] i = 2 -> b.ay [] i = 3 -> b.az
At(u) == Trilinear(b, 0, u[1], u[2], u[3])

(* The planes of the grid on both sides of position x of axis a.             *)
Below(a, x) == {i \in 0..(AxisN(a) - 2) : RLe(I(AxisDist(a, i)), x) /\ RLe(x, I(AxisDist(a, i + 1)))}
(* Cells (one index per axis) that hold the point: one, or more on a plane.  *)
Cells == {<<i, j, k>> : i \in Below(b.ax, t[1]), j \in Below(b.ay, t[2]), k \in Below(b.az, t[3])}
CellUsed == <<Cell(AxisIndex(b.ax, t[1])), Cell(AxisIndex(b.ay, t[2])), Cell(AxisIndex(b.az, t[3]))>>
Corners(c) == {<<c[1] + i, c[2] + j, c[3] + k>> : i, j, k \in 0..1}
Whole(c) == \A q \in Corners(c) : ~Missing(b.nd, q[1], q[2], q[3], 0)
Stored(q) == Hash(b.p, q[1], q[2], q[3], 0)

(* The cell that is used holds the point, and it is the lowest that does.    *)
RightCell == t # Start => CellUsed \in Cells /\ \A c \in Cells : \A i \in 1..3 : CellUsed[i] <= c[i]

(* Missing data: exactly when a corner of the cell is missing.               *)
MissingExactly == t # Start => (At(t) = NODATA) <=> ~Whole(CellUsed)

(* The value lies between the smallest and the largest corner.               *)
Bounded == (t # Start /\ Whole(CellUsed)) =>
    /\ \E q \in Corners(CellUsed) : RLe(I(Stored(q)), At(t))
    /\ \E q \in Corners(CellUsed) : RLe(At(t), I(Stored(q)))

(* At a grid point it is the stored value.                                   *)
AtGridPoints == t # Start => \A q \in Corners(CellUsed) :
    (Whole(CellUsed) /\ \A i \in 1..3 : t[i] = I(AxisDist(A(i), q[i]))) => At(t) = I(Stored(q))

(* Along each axis it is linear between the planes of the cell; together     *)
(* with the grid points this leaves no other function.                       *)
Complete == b.nd.m = 0
LinearAlong(i) == LET c  == CellUsed[i]
                      lo == I(AxisDist(A(i), c))
                      hi == I(AxisDist(A(i), c + 1))
                      w  == RDiv(RSub(t[i], lo), RSub(hi, lo))
                  IN  At(t) = RAdd(RMul(RSub(I(1), w), At([t EXCEPT ![i] = lo])), RMul(w, At([t EXCEPT ![i] = hi])))
Linear == (t # Start /\ Complete) => \A i \in 1..3 : LinearAlong(i)

(* Whichever of the cells that hold the point were used, the value would be  *)
(* the same (so that only missing data depends on the choice).               *)
Seamless == (t # Start /\ Complete) => \A c \in Cells :
    LET w == [i \in 1..3 |-> LET lo == AxisDist(A(i), c[i]) IN RDiv(RSub(t[i], I(lo)), I(AxisDist(A(i), c[i] + 1) - lo))]
        f(q) == LET g(i) == IF q[i] = c[i] THEN RSub(I(1), w[i]) ELSE w[i] IN RMul(RMul(g(1), g(2)), g(3))
        S[n \in 0..8] == IF n = 0 THEN I(0)
                         ELSE LET m == n - 1
                                  q == <<c[1] + (m % 2), c[2] + ((m \div 2) % 2), c[3] + (m \div 4)>>
                              IN  RAdd(S[n - 1], RMul(f(q), I(Stored(q))))
    IN  S[8] = At(t)

MCAxes == {[kind |-> "u", d |-> 1, n |-> 2], [kind |-> "u", d |-> 2, n |-> 3], [kind |-> "v", c |-> <<0, 1, 3>>],
           [kind |-> "v", c |-> <<-1, 2>>]}
MCSide == {[kind |-> "u", d |-> 2, n |-> 2], [kind |-> "v", c |-> <<0, 1, 3>>]}
MCDown == {[kind |-> "u", d |-> 2, n |-> 2], [kind |-> "v", c |-> <<0, -1, -3>>]}
H(a, bb, c, e, f, g, m) == [a |-> a, b |-> bb, c |-> c, d |-> 1, e |-> e, f |-> f, g |-> g, m |-> m, off |-> -2]
MCHashes == {H(1, 2, 3, 0, 0, 0, 5), H(3, 1, 4, 1, 2, 5, 7)}
MCGaps == {[a |-> 0, b |-> 0, c |-> 0, d |-> 0, m |-> 0], [a |-> 1, b |-> 2, c |-> 1, d |-> 1, m |-> 5], [a |-> 1, b |-> 1, c |-> 0, d |-> 0, m |-> 3]}
===============================================================================
