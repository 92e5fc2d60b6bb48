------------------------------- MODULE GeoModel -------------------------------
(* Geometry of one model: its frame, its domain, its top surface, and the    *)
(* blocks that tile it.  Lengths are integer ticks, positions are rational.  *)
(*                                                                           *)
(* A model is a record                                                       *)
(*   dims    <<DX, DY, DZ>>                                                  *)
(*   rot     <<c, s, h>>: cosine c/h and sine s/h of the azimuth of its y axis *)
(*   origin  <<x, y>> in the base frame                                      *)
(*   top, topo: surfaces [on |-> FALSE] or [on |-> TRUE, ax, ay, p]          *)
(*   blocks  sequence of [top, ax, ay, az, p, nd], in any vertical order     *)
(*   values  sequence of names (lower case), units: sequence of units        *)
EXTENDS Grid, FiniteSets, TLC

(* Horizontal model coordinates of a base-frame point.                       *)
ModelXY(m, x, y) ==
    LET xr == RSub(x, I(m.origin[1]))
        yr == RSub(y, I(m.origin[2]))
        c  == Q(m.rot[1], m.rot[3])
        s  == Q(m.rot[2], m.rot[3])
    IN  <<RSub(RMul(xr, c), RMul(yr, s)), RAdd(RMul(xr, s), RMul(yr, c))>>

InXY(m, p) == /\ RSign(p[1]) >= 0 /\ RLe(p[1], I(m.dims[1]))
              /\ RSign(p[2]) >= 0 /\ RLe(p[2], I(m.dims[2]))

SurfaceAt(s, p) == Bilinear(s, p[1], p[2])
TopAt(m, p) == IF m.top.on THEN SurfaceAt(m.top, p) ELSE I(0)
TopoAt(m, p) == IF m.topo.on THEN SurfaceAt(m.topo, p)
                ELSE TopAt(m, p)

(* Vertical model coordinate: 0 on the top surface, -DZ at the bottom.       *)
ModelZ(m, p, z) ==
    LET S == TopAt(m, p)
        D == I(m.dims[3])
    IN  RDiv(RMul(D, RSub(z, S)), RAdd(S, D))

InZ(m, zm) == RSign(zm) <= 0 /\ RLe(I(-m.dims[3]), zm)

BlockBottom(b) == b.top - AxisLen(b.az)
InBlock(b, zm) == RLe(zm, I(b.top)) /\ RLe(I(BlockBottom(b)), zm)
Holding(m, zm) == {i \in 1..Len(m.blocks) : InBlock(m.blocks[i], zm)}

(* The upper block owns a shared boundary.                                   *)
BlockOf(m, zm) == CHOOSE i \in Holding(m, zm) :
                     \A j \in Holding(m, zm) : m.blocks[i].top >= m.blocks[j].top

ValueAt(m, v, p, zm) ==
    LET b == m.blocks[BlockOf(m, zm)]
    IN  Trilinear(b, v, p[1], p[2], RSub(I(b.top), zm))

(* Where the choice between neighbours is settled by equality of numbers.    *)
BoundaryZ(m, zm) ==
    \/ RSign(zm) = 0 \/ REq(zm, I(-m.dims[3]))
    \/ Cardinality(Holding(m, zm)) > 1
EdgeXY(m, p) ==
    \/ RSign(p[1]) = 0 \/ RSign(p[2]) = 0
    \/ REq(p[1], I(m.dims[1])) \/ REq(p[2], I(m.dims[2]))
Plane(m, p, zm) ==
    LET b == m.blocks[BlockOf(m, zm)]
    IN  OnPlane(b.ax, p[1]) \/ OnPlane(b.ay, p[2]) \/ OnPlane(b.az, RSub(I(b.top), zm))
===============================================================================
