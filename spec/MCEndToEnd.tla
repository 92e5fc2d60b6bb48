------------------------------ MODULE MCEndToEnd ------------------------------
(* What EndToEnd says of small configurations at every point of a lattice.   *)
EXTENDS EndToEnd, TLC
VARIABLES n, p
mcvars == <<n, p>>

Lat(a, b, c, m, s) == <<a, b, c, m, s>>
Src(k) == [kind |-> "lattice", n |-> 2,
           elev |-> [nm \in {C!Top, C!Topo} |-> IF nm = C!Top THEN Lat(3 + k, 5, 2, 7, 3) ELSE Lat(1, 4 + k, 3, 5, 2)],
           val |-> <<<<3, 7, 11 + k, 0, 97>>, <<5, 2, 1, 3, 101>>>>]
S1(nm, x, y) == [name |-> nm, x |-> x, y |-> y]
Blk1(nm, x, y, z, off) == [name |-> nm, x |-> x, y |-> y, z |-> z, off |-> off, varz |-> FALSE]
Cfg(k, c, s, surf, blocks) == [ox |-> 4, oy |-> -3, k |-> k, c |-> c, s |-> s, depth |-> 2, dim |-> <<4, 3>>, surfaces |-> surf, blocks |-> blocks, src |-> Src(k)]
One == <<Blk1("a", <<0, 2, 4>>, <<0, 3>>, <<16, 8, 0>>, 0)>>
Two == <<Blk1("a", <<0, 1, 2, 3, 4>>, <<0, 1, 2, 3>>, <<16, 12, 8>>, -3), Blk1("b", <<0, 1, 4>>, <<0, 2, 3>>, <<8, 4, 0>>, 2)>>
Fine4 == <<0, 1, 2, 3, 4>>  Fine3 == <<0, 1, 2, 3>>
MCConfigs == <<Cfg(1, 1, 0, <<>>, One), Cfg(1, 0, 1, <<S1(C!Top, Fine4, Fine3)>>, One),
               Cfg(5, 3, 4, <<S1(C!Top, Fine4, Fine3), S1(C!Topo, <<0, 1, 4>>, Fine3)>>, Two), Cfg(1, -1, 0, <<S1(C!Topo, Fine4, Fine3)>>, Two)>>
Start == <<>>
Init == n \in 1..Len(MCConfigs) /\ p = Start
Next == /\ p = Start /\ UNCHANGED n
        /\ p' \in {Q(i, 2) : i \in 0..8} \X {Q(i, 2) : i \in 0..6} \X {Q(i, 2) : i \in 1..31}
Spec == Init /\ [][Next]_mcvars
g == MCConfigs[n]
x == p[1]  y == p[2]  z == p[3]
Held == p # Start /\ \E i \in 1..Len(g.blocks) : Inner(g.blocks[i].z, z)
B == Holder(g, z)
On(s, v) == \E i \in 1..Len(s) : I(s[i]) = v
At(s, v) == CHOOSE i \in 1..Len(s) : I(s[i]) = v

(* At a grid point the answer is what was stored for it, which is what the   *)
(* source says of the place of that point.                                   *)
AtGridPoints == (Held /\ On(B.x, x) /\ On(B.y, y) /\ On(B.z, z)) =>
    \A v \in 1..g.src.n : Answer(g, v, x, y, z) = I(C!BlockValue(g, g, g, B, v, At(B.x, x), At(B.y, y), At(B.z, z), FALSE, 0))
(* In between it is between the smallest and largest of its block.           *)
Bounded == Held => \A v \in 1..g.src.n :
    LET all == {C!BlockValue(g, g, g, B, v, i, j, k, FALSE, 0) : i \in 1..Len(B.x), j \in 1..Len(B.y), k \in 1..Len(B.z)}
        a == Answer(g, v, x, y, z)
    IN  (\E w \in all : RLe(I(w), a)) /\ (\E w \in all : RLe(a, I(w)))
(* The place at which the source was asked for a grid point is where a query *)
(* finds that point.                                                         *)
SamePlace == (Held /\ On(B.x, x) /\ On(B.y, y) /\ On(B.z, z)) => LevelAt(g, x, y, z) = I(C!Elevation(g, g, Num(x), Num(y), Num(z)))
(* The bottom of the domain stays, the top is at the surface, and levels are *)
(* as a query stretches them.                                                *)
D == 16 * g.depth
Levels == p # Start =>
    /\ LevelAt(g, x, y, I(0)) = I(-16 * D)
    /\ LevelAt(g, x, y, I(16)) = RMul(I(16), TopAt(g, x, y))
    /\ LET e == RMul(LevelAt(g, x, y, z), Q(1, 16))  t == TopAt(g, x, y)
       IN  RDiv(RMul(I(D), RSub(e, t)), RAdd(t, I(D))) = RMul(I(g.depth), RSub(z, I(16)))
(* Surfaces are what the source says at their grid points.                   *)
Surfaces == p # Start => \A i \in 1..Len(g.surfaces) :
    LET s == g.surfaces[i] IN (On(s.x, x) /\ On(s.y, y)) => SurfaceAt(g, s.name, x, y) = I(C!At(g, s.name, Num(x), Num(y)))
===============================================================================
