------------------------------ MODULE EndToEnd -------------------------------
(* From a data source to the answer of a query: what Create stores for a     *)
(* configuration, located as GeoModel locates points, interpolated as in     *)
(* Grid.  Horizontal positions are in ticks along the axes of the model,     *)
(* z counts depths above the bottom of the domain (as in Create), and        *)
(* elevations are in sixteenths.                                             *)
EXTENDS Grid, FiniteSets
CONSTANT Configs
C == INSTANCE Create WITH Parts <- {}, root <- 0, meta <- [p \in {} |-> 0], data <- [p \in {} |-> 0]

Along(s) == [kind |-> "v", c |-> s]
(* Weights of the two grid points around distance t along an axis.           *)
Around(a, t) == LET f == AxisIndex(a, t)  i == Cell(f)  w == RSub(f, I(i))
                IN  [i |-> i + 1, den |-> Den(w), w |-> <<Den(w) - Num(w), Num(w)>>]
From1(s, x) == RSub(x, I(s[1]))

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

(* Elevation of a surface, as a rational number of ticks.                    *)
SurfaceAt(g, nm, x, y) ==
    LET s == C!Surf(g, nm)
        X == Around(Along(s.x), From1(s.x, x))
        Y == Around(Along(s.y), From1(s.y, y))
        at(i, j) == IF X.w[i] * Y.w[j] = 0 THEN 0 ELSE X.w[i] * Y.w[j] * C!At(g, nm, s.x[X.i + i - 1], s.y[Y.i + j - 1])
    IN  Q(at(1, 1) + at(1, 2) + at(2, 1) + at(2, 2), X.den * Y.den)
TopAt(g, x, y) == IF C!Top \in C!SurfaceNames(g) THEN SurfaceAt(g, C!Top, x, y) ELSE I(0)
GroundAt(g, x, y) == IF C!Topo \in C!SurfaceNames(g) THEN SurfaceAt(g, C!Topo, x, y) ELSE TopAt(g, x, y)

(* The elevation of level z, in sixteenths.                                  *)
LevelAt(g, x, y, z) == RSub(RMul(RAdd(TopAt(g, x, y), I(16 * g.depth)), z), I(256 * g.depth))

(* The block that has level z inside of one of its cells.                    *)
Inner(s, z) == RLt(z, I(s[1])) /\ RLt(I(s[Len(s)]), z)
Holder(g, z) == CHOOSE b \in {g.blocks[i] : i \in 1..Len(g.blocks)} : Inner(b.z, z)

Answer(g, v, x, y, z) ==
    LET b == Holder(g, z)
        X == Around(Along(b.x), From1(b.x, x))
        Y == Around(Along(b.y), From1(b.y, y))
        Z == Around(Along(b.z), RSub(I(b.z[1]), z))
        at(c) == LET f == X.w[c[1]] * Y.w[c[2]] * Z.w[c[3]]
                 IN  IF f = 0 THEN 0
                     ELSE f * C!BlockValue(g, g, g, b, v, X.i + c[1] - 1, Y.i + c[2] - 1, Z.i + c[3] - 1, FALSE, 0)
        corners == (1..2) \X (1..2) \X (1..2)
    IN  Q(Sum([c \in corners |-> at(c)], corners), X.den * Y.den * Z.den)

InDomain(g, x, y) == /\ RSign(x) >= 0 /\ RLe(x, I(g.dim[1]))
                     /\ RSign(y) >= 0 /\ RLe(y, I(g.dim[2]))
===============================================================================
