------------------------------ MODULE Isosurface ------------------------------
(* The isosurface tool: depths, on a raster, at which values rise through    *)
(* given isovalues.                                                          *)
(*                                                                           *)
(* A run describes a raster (bounding box, horizontal resolution), a column  *)
(* (depth limit, vertical resolution, search points), and bands (name and    *)
(* isovalue).  The answer at a pixel is stated on the values at multiples of *)
(* the vertical resolution down the column: the crossing asked for, to       *)
(* within the resolution, whatever way it is searched for.                   *)
EXTENDS QueryApi

VARIABLES app

Options0 == [bbox |-> <<>>, hres |-> I(0), vres |-> <<>>, iso |-> <<>>, ref |-> "topo", depth |-> I(0), points |-> 10, models |-> <<>>,
             output |-> FALSE, deep |-> FALSE, crs |-> 0, help |-> FALSE, bad |-> FALSE]
Apply(o, a) ==
    CASE a.k = "bbox"   -> [o EXCEPT !.bbox = a.v]
      [] a.k = "hres"   -> [o EXCEPT !.hres = a.v]
      [] a.k = "vres"   -> [o EXCEPT !.vres = a.v]
      [] a.k = "iso"    -> [o EXCEPT !.iso = Append(@, a.v)]
      [] a.k = "ref"    -> [o EXCEPT !.ref = a.v]
      [] a.k = "depth"  -> [o EXCEPT !.depth = a.v]
      [] a.k = "search" -> [o EXCEPT !.points = a.v]
      [] a.k = "models" -> [o EXCEPT !.models = a.v]
      [] a.k = "output" -> [o EXCEPT !.output = TRUE]
      [] a.k = "deep"   -> [o EXCEPT !.deep = TRUE]
      [] a.k = "crs"    -> [o EXCEPT !.crs = a.v]
      [] a.k = "help"   -> [o EXCEPT !.help = TRUE]
      [] a.k = "unknown" -> [o EXCEPT !.bad = TRUE]
      [] OTHER -> o
RECURSIVE Parse(_, _, _)
Parse(args, i, o) == IF i > Len(args) THEN o ELSE Parse(args, i + 1, Apply(o, args[i]))

(* The raster: columns along x, rows from the top.                           *)
XRange(o, c) == IF Crs[c].yx THEN <<o.bbox[3], o.bbox[4]>> ELSE <<o.bbox[1], o.bbox[2]>>
YRange(o, c) == IF Crs[c].yx THEN <<o.bbox[1], o.bbox[2]>> ELSE <<o.bbox[3], o.bbox[4]>>
Cells(r, h) == RFloor(RAdd(RDiv(RSub(r[2], r[1]), h), Q(1, 2)))

Acceptable(o, c) ==
    /\ o.bbox # <<>> /\ RSign(o.hres) > 0 /\ RSign(o.vres) > 0 /\ RSign(o.depth) > 0
    /\ o.points >= 3 /\ o.iso # <<>> /\ o.ref \in {"top", "topo"} /\ o.output /\ o.models # <<>>
    /\ Cells(XRange(o, c), o.hres) >= 1 /\ Cells(YRange(o, c), o.hres) >= 1
Names(o) == [i \in 1..Len(o.iso) |-> o.iso[i].name]
Verdict(args, o, c) ==
    IF o.bad THEN "refused"
    ELSE IF o.help \/ Len(args) = 0 THEN "help"
    ELSE IF ~Acceptable(o, c) THEN "refused"
    ELSE IF InitVerdict(o.models, Names(o)) # "ok" THEN "refused"
    ELSE "raster"

AppInit == app = [phase |-> "none"]
Run(args, dflt) ==
    LET o0 == Parse(args, 1, Options0)
        o  == [o0 EXCEPT !.vres = IF @ = <<>> THEN dflt.vres ELSE @]
        c  == IF o.crs = 0 THEN dflt.crs ELSE o.crs
        v  == Verdict(args, o, c)
    IN  /\ app.phase \in {"none", "ended"}
        /\ app' = [phase |-> v, o |-> o, c |-> c, left |-> 0,
                   cols |-> IF v = "raster" THEN Cells(XRange(o, c), o.hres) ELSE 0,
                   rows |-> IF v = "raster" THEN Cells(YRange(o, c), o.hres) ELSE 0,
                   q |-> [phase |-> "ready", api |-> "cxx", models |-> o.models, values |-> Names(o), crs |-> c, sq |-> 0, min |-> I(0)]]

(* Pixel centre, in the order of the coordinate system.                      *)
Centre(row, col) ==
    LET h == app.o.hres
        x == RAdd(XRange(app.o, app.c)[1], RMul(h, Q(2 * col + 1, 2)))
        y == RAdd(YRange(app.o, app.c)[1], RMul(h, Q(2 * (app.rows - row) - 1, 2)))
    IN  IF Crs[app.c].yx THEN <<y, x>> ELSE <<x, y>>

-------------------------------------------------------------------------------
(* A column: values of all bands at multiples of the resolution, ground down *)
Steps == RFloor(RDiv(app.o.depth, app.o.vres))
Column(x, y, g) == [k \in 0..Steps |-> Values(app.q, x, y, RSub(g, RMul(I(k), app.o.vres)), 0)]

(* The isovalue is reached (a missing value reaches nothing).                *)
Reaches(v, t, strict) == v # NODATA /\ (RLt(t, v) \/ (~strict /\ v = t))

(* A feature that shows between two neighbouring multiples only: the values  *)
(* at the grid planes and block boundaries between them are not all on the   *)
(* side of the isovalue on which both multiples are.                         *)
Hidden(x, y, g, b, t, k, side) ==
    LET za == RSub(g, RMul(I(k), app.o.vres))
        zb == RSub(g, RMul(I(k + 1), app.o.vres))
        a  == Answering(app.q, x, y, za, 0)
    IN  IF a # Answering(app.q, x, y, zb, 0) THEN TRUE
        ELSE IF a = 0 THEN FALSE
        ELSE LET f == app.q.models[a]
                 m == Files[f].model
                 p == Place(app.q, f, x, y)
                 v == ValueIndex(m, app.q.values[b]) - 1
             IN  \E n \in RCeil(ModelZ(m, p, zb))..RFloor(ModelZ(m, p, za)) :
                    \E i \in Holding(m, I(n)) :
                        LET w == Trilinear(m.blocks[i], v, p[1], p[2], I(m.blocks[i].top - n))
                        IN  IF RSign(t) = 0 THEN Reaches(w, t, FALSE) # side ELSE w = t \/ Reaches(w, t, TRUE) # side

(* Runs of multiples above or below the isovalue that begin and end inside   *)
(* the column are wide enough to be seen by the points of the first search.  *)
Resolved(H, x, y, g, b, t) ==
    /\ \A k1, k2 \in 1..(Steps - 1) :
          (/\ k1 <= k2 /\ H[k1 - 1] # H[k1] /\ H[k2 + 1] # H[k2]
           /\ \A k \in k1..k2 : H[k] = H[k1])
          => (k2 - k1) * (app.o.points - 1) >= Steps
    /\ \A k \in 0..(Steps - 1) : H[k] = H[k + 1] => ~Hidden(x, y, g, b, t, k, H[k])

Near(d, k) == /\ d >= RMilli(RMul(I(k - 2), app.o.vres)) - 2
              /\ d <= RMilli(RMul(I(k + 1), app.o.vres)) + 2
Top(d) == d >= -2 /\ d <= RMilli(app.o.vres) + 2

(* d: reported depth in thousandths; NONE for missing.                       *)
Right(H, d, NONE) ==
    LET rises == {k \in 1..Steps : H[k] /\ ~H[k - 1]}
    IN  IF app.o.deep
        THEN IF rises # {} THEN Near(d, CHOOSE k \in rises : \A j \in rises : j <= k)
             ELSE IF H[0] THEN Top(d) ELSE d = NONE
        ELSE IF H[0] THEN Top(d)
             ELSE IF rises # {} THEN Near(d, CHOOSE k \in rises : \A j \in rises : k <= j) ELSE d = NONE
(* Closer: the values at quarters of the resolution say in which quarter the *)
(* crossing is, and the answer is within the resolution of it.               *)
Quarter(x, y, g, b, n) == Values(app.q, x, y, RSub(g, RMul(Q(n, 4), app.o.vres)), 0)[b]
Closer(H, x, y, g, b, t, d) ==
    LET rises == {k \in 1..Steps : H[k] /\ ~H[k - 1]}
        k == IF app.o.deep THEN CHOOSE k \in rises : \A j \in rises : j <= k ELSE CHOOSE k \in rises : \A j \in rises : k <= j
        v == [n \in 1..3 |-> Quarter(x, y, g, b, 4 * (k - 1) + n)]
        q == [n \in 0..4 |-> IF n = 0 THEN FALSE ELSE IF n = 4 THEN TRUE ELSE Reaches(v[n], t, FALSE)]
        at == CHOOSE n \in 0..3 : ~q[n] /\ q[n + 1]
    IN  IF rises = {} \/ (~app.o.deep /\ H[0]) THEN TRUE
        ELSE IF (\E j \in (k - 4)..(k + 3) : j >= 0 /\ j <= Steps /\ H[j] # (j >= k)) THEN TRUE       \* more than one thing happens here
        ELSE IF (\E n \in 1..3 : v[n] = t \/ (q[n] /\ ~q[n + 1])) THEN TRUE
        ELSE /\ d >= RMilli(RMul(Q(4 * (k - 1) + at - 4, 4), app.o.vres)) - 2
             /\ d <= RMilli(RMul(Q(4 * (k - 1) + at + 5, 4), app.o.vres)) + 3

Sensible(d, NONE) == d = NONE \/ (d >= -2 /\ d <= RMilli(RMul(I(Steps + 1), app.o.vres)))

(* Zeros at neighbouring multiples as well: not just where values change     *)
(* sign.                                                                     *)
Plateau(S, k) == {k - 1, k + 1} \cap S # {}

BandOk(col, x, y, g, b, d, NONE) ==
    LET t == app.o.iso[b].t
        H(s) == [k \in 0..Steps |-> Reaches(col[k][b], t, s)]
        ok(h) == IF Resolved(h, x, y, g, b, t) THEN Right(h, d, NONE) /\ Closer(h, x, y, g, b, t, d)
                 ELSE TLCSet(1, TLCGet(1) + 1) /\ Sensible(d, NONE)
        equal == {k \in 0..Steps : H(TRUE)[k] # H(FALSE)[k]}
    IN  \* where values equal the isovalue, rounding decides whether it is reached, but zeros are exact
        IF equal = {} THEN ok(H(FALSE))
        ELSE IF RSign(t) = 0 /\ \A k \in equal : Plateau(equal, k) THEN ok(H(FALSE))
        ELSE Sensible(d, NONE)

(* The numbers of a pixel, one per band.                                     *)
PixelOk(row, col, ds, NONE) ==
    LET c == Centre(row, col)
        g == Elevation(app.q, app.o.ref, c[1], c[2])
    IN  /\ Len(ds) = Len(app.o.iso)
        /\ IF g = NODATA THEN \A b \in 1..Len(ds) : ds[b] = NONE
           ELSE LET C == Column(c[1], c[2], g) IN \A b \in 1..Len(ds) : BandOk(C, c[1], c[2], g, b, ds[b], NONE)

(* Some point of the column lies on a boundary, in rounded coordinates.      *)
HairColumn(row, col) ==
    LET c == Centre(row, col)
        g == Elevation(app.q, app.o.ref, c[1], c[2])
        shared(z) == LET a == Answering(app.q, c[1], c[2], z, 0)
                     IN  IF a = 0 THEN FALSE
                         ELSE LET f == app.q.models[a]
                                  p == Place(app.q, f, c[1], c[2])
                              IN  Cardinality(Holding(Files[f].model, ModelZ(Files[f].model, p, z))) > 1
    IN  \/ ToTheHairXY(app.q, c[1], c[2])
        \/ ToTheHairElev(app.q, app.o.ref, c[1], c[2])
        \/ g # NODATA /\ shared(g)          \* the ground itself is where two blocks meet
        \/ g # NODATA /\ \E k \in 1..Steps : ToTheHair(app.q, c[1], c[2], RSub(g, RMul(I(k), app.o.vres)))

Raster == /\ app.phase = "raster"
          /\ app' = [app EXCEPT !.phase = "pixels"]
Pixel == /\ app.phase = "pixels"
         /\ app' = [app EXCEPT !.left = @ + 1]
(* cut: the file that is written cannot take all bytes.                      *)
CanEnd(exit, cut) ==
    IF cut /\ exit = "error" THEN app.phase \in {"refused", "raster"}
    ELSE
    /\ \/ app.phase \in {"refused", "help"}
       \/ app.phase = "pixels" /\ app.left = app.rows * app.cols
    /\ exit = (IF app.phase = "refused" THEN "error" ELSE "ok")
End(exit, cut) == CanEnd(exit, cut) /\ app' = [phase |-> "ended"]
===============================================================================
