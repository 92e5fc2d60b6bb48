-------------------------------- MODULE Grid --------------------------------
(* Grids of values with uniform or variable spacing along each axis, and    *)
(* interpolation in them.                                                   *)
(*                                                                          *)
(* An axis is a record: [kind |-> "u", d |-> spacing, n |-> points] or      *)
(* [kind |-> "v", c |-> sequence of coordinates], both in integer ticks.    *)
(* The sequence of a vertical axis descends; the others ascend.  The        *)
(* stored data are a function of the indices, not a table (grids are large) *)
EXTENDS Rat, Sequences

AxisN(a) == IF a.kind = "u" THEN a.n ELSE Len(a.c)

(* Distance from the first point of the axis to point i (0-based), always   *)
(* nonnegative.                                                             *)
AxisDist(a, i) == IF a.kind = "u" THEN a.d * i ELSE Abs(a.c[i + 1] - a.c[1])
AxisLen(a) == AxisDist(a, AxisN(a) - 1)

(* Fractional index of the position at distance t (rational) from the first *)
(* point; only for 0 <= t <= AxisLen(a).                                    *)
AxisIndex(a, t) ==
    IF a.kind = "u" THEN RDiv(t, I(a.d))
    ELSE LET n == AxisN(a)
             L == CHOOSE i \in 0..(n - 2) :
                     /\ RLe(I(AxisDist(a, i)), t)
                     /\ IF i = n - 2 THEN RLe(t, I(AxisDist(a, i + 1))) ELSE RLt(t, I(AxisDist(a, i + 1)))
         IN  RAdd(I(L), RDiv(RSub(t, I(AxisDist(a, L))), I(AxisDist(a, L + 1) - AxisDist(a, L))))
AxisHas(a, t) == RSign(t) >= 0 /\ RLe(t, I(AxisLen(a)))

(* The cell that is used for fractional index t: the one below a grid plane *)
(* for a point on that plane, except on the first plane.                    *)
Cell(t) == IF RSign(t) = 0 THEN 0 ELSE RCeil(t) - 1

(* Stored value (an integer) and missing-data predicate from the indices.   *)
Hash(p, i, j, k, v) ==
    ((p.a * i + p.b * j + p.c * k + p.d * v + p.e * i * j + p.f * j * k + p.g * i * k) % p.m) + p.off
Missing(nd, i, j, k, v) ==
    nd.m > 0 /\ (nd.a * i + nd.b * j + nd.c * k + nd.d * v) % nd.m = 0

(* Bilinear interpolation of a surface [ax, ay, p] at distances tx, ty.     *)
Bilinear(s, tx, ty) ==
    LET ix == AxisIndex(s.ax, tx)
        iy == AxisIndex(s.ay, ty)
        i  == Cell(ix)
        j  == Cell(iy)
        wx == RSub(ix, I(i))
        wy == RSub(iy, I(j))
        vx == [q \in 0..1 |-> IF q = 0 THEN Den(wx) - Num(wx) ELSE Num(wx)]
        vy == [q \in 0..1 |-> IF q = 0 THEN Den(wy) - Num(wy) ELSE Num(wy)]
        h(di, dj) == LET f == vx[di] * vy[dj]
                     IN  IF f = 0 THEN 0 ELSE f * Hash(s.p, i + di, j + dj, 0, 0)
    IN  Q(h(0, 0) + h(0, 1) + h(1, 0) + h(1, 1), Den(wx) * Den(wy))

NODATA == <<>>        \* comparable with rationals, which are pairs

(* Trilinear interpolation of value v of a block [ax, ay, az, p, nd] at     *)
(* distances tx, ty, tz; missing if any of the eight corners is missing.    *)
Trilinear(b, v, tx, ty, tz) ==
    LET ix == AxisIndex(b.ax, tx)
        iy == AxisIndex(b.ay, ty)
        iz == AxisIndex(b.az, tz)
        i  == Cell(ix)
        j  == Cell(iy)
        k  == Cell(iz)
        wx == RSub(ix, I(i))
        wy == RSub(iy, I(j))
        wz == RSub(iz, I(k))
        vx == [q \in 0..1 |-> IF q = 0 THEN Den(wx) - Num(wx) ELSE Num(wx)]
        vy == [q \in 0..1 |-> IF q = 0 THEN Den(wy) - Num(wy) ELSE Num(wy)]
        vz == [q \in 0..1 |-> IF q = 0 THEN Den(wz) - Num(wz) ELSE Num(wz)]
        h(di, dj, dk) == LET f == vx[di] * vy[dj] * vz[dk]
                         IN  IF f = 0 THEN 0 ELSE f * Hash(b.p, i + di, j + dj, k + dk, v)
    IN  IF \E di, dj, dk \in 0..1 : Missing(b.nd, i + di, j + dj, k + dk, v)
        THEN NODATA
        ELSE Q(h(0, 0, 0) + h(0, 0, 1) + h(0, 1, 0) + h(0, 1, 1)
               + h(1, 0, 0) + h(1, 0, 1) + h(1, 1, 0) + h(1, 1, 1), Den(wx) * Den(wy) * Den(wz))

(* On a grid plane along some axis (where the choice of cell matters).      *)
OnPlane(a, t) == RIsInt(AxisIndex(a, t))
=============================================================================
