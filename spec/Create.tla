-------------------------------- MODULE Create --------------------------------
(* Creation of a model file from a configuration and a data source.          *)
(* Lengths are whole numbers of ticks.  A configuration has                  *)
(*   ox, oy, k, c, s     origin and rotation: cos = c / k, sin = s / k       *)
(*   depth               the domain reaches down to 16 * depth               *)
(*   surfaces            sequence of [name, x, y]: positions of grid points  *)
(*   blocks              sequence of [name, x, y, z, varz, off]: z counts    *)
(*                       depths above the bottom; off is what the top points *)
(*                       are shifted by, in sixteenths                       *)
(*   root, attrs         metadata of the model, and of each part             *)
(* The data source is a function of the georeferenced position, of the kind  *)
(*   lattice      whole-number functions given by their coefficients         *)
(*   rows         what a table records at some positions (CSV, EMC)          *)
(*   earthvision  rules applied to the fault block and zone at the position  *)
EXTENDS Integers, Sequences, FiniteSets

NONE == -2147483647          \* missing data

Top == "top_surface"
Topo == "topography_bathymetry"
SurfaceNames(g) == {g.surfaces[i].name : i \in 1..Len(g.surfaces)}
BlockNames(g) == {g.blocks[i].name : i \in 1..Len(g.blocks)}
Surf(g, nm) == g.surfaces[CHOOSE i \in 1..Len(g.surfaces) : g.surfaces[i].name = nm]
Blk(g, nm) == g.blocks[CHOOSE i \in 1..Len(g.blocks) : g.blocks[i].name = nm]

(* Georeferenced position, k times as fine as a tick.                        *)
GeoX(g, x, y) == g.k * g.ox + g.c * x + g.s * y
GeoY(g, x, y) == g.k * g.oy - g.s * x + g.c * y

(* The data source.                                                          *)
Lattice(e, X, Y) == ((e[1] * X + e[2] * Y + e[3] * ((X * Y) % 97)) % e[4]) - e[5]
(* The highest of the grids of a surface.                                    *)
Highest(es, X, Y) == LET S == {Lattice(es[i], X, Y) : i \in 1..Len(es)} IN CHOOSE h \in S : \A e \in S : e <= h
Elev(g, nm, X, Y) == IF g.src.kind = "earthvision" THEN Highest(g.src.elev[nm], X, Y) ELSE Lattice(g.src.elev[nm], X, Y)

(* A table may record a position twice, but not differently.                 *)
Recorded(g, v, X, Y, Z) ==
    LET R == {i \in 1..Len(g.src.rows) : g.src.rows[i].at[1] = X /\ g.src.rows[i].at[2] = Y /\ g.src.rows[i].at[3] = Z}
    IN  IF R = {} THEN NONE ELSE g.src.rows[CHOOSE i \in R : TRUE].v[v]

(* Fault block and zone at a position, by number; their identifiers.         *)
Label(e, X, Y, Z) == 1 + ((e[1] * X + e[2] * Y + e[3] * Z + ((X * Y) % 89)) % e[4])
EarthVision(g, v, X, Y, Z, T, off, how) ==
    LET f == Label(g.src.fault, X, Y, Z)  z == Label(g.src.zone, X, Y, Z)
    IN  CASE v = 1 -> T - Z + how * off      \* depth
          [] v = 2 -> X
          [] v = 3 -> Y
          [] v = 4 -> 100 * f + z
          [] v = 5 -> g.src.faultids[f]
          [] v = 6 -> g.src.zoneids[z]

(* how: what the depth of a point that is shifted down is reckoned from, 0:  *)
(* where it is, 1: where it would be, -1: twice as far (all are acceptable). *)
Value(g, v, X, Y, Z, T, off, how) ==
    CASE g.src.kind = "lattice"     -> LET e == g.src.val[v] IN (e[1] * X + e[2] * Y + e[3] * (Z + off) + e[4] * T + ((X * Y) % 89)) % e[5]
      [] g.src.kind = "rows"        -> Recorded(g, v, X, Y, Z)
      [] g.src.kind = "earthvision" -> EarthVision(g, v, X, Y, Z + off, T, off, how)
Hows(g) == IF g.src.kind = "earthvision" THEN {0, 1, -1} ELSE {0}

(* The elevation of a surface of configuration g at a grid point.            *)
At(g, nm, x, y) == Elev(g, nm, GeoX(g, x, y), GeoY(g, x, y))

(* Elevation, in sixteenths, of a point of a block that is z depths above    *)
(* the bottom of the domain: stretched so that the reference level is at the *)
(* top surface (as stored: that of configuration gt), and the bottom stays.  *)
Elevation(g, gt, x, y, z) == IF Top \in SurfaceNames(g)
                             THEN (At(gt, Top, x, y) + 16 * g.depth) * z - 256 * g.depth
                             ELSE 16 * g.depth * (z - 16)
(* What depths are reckoned from.                                            *)
Ground(g, gt, gb, x, y) == IF Topo \in SurfaceNames(g) THEN 16 * At(gb, Topo, x, y)
                           ELSE IF Top \in SurfaceNames(g) THEN 16 * At(gt, Top, x, y) ELSE 0
Shift(b, p) == IF p = 1 THEN b.off ELSE 0

(* Known finding: with a list of z coordinates, points are generated as far  *)
(* above the top of the block as they should be below zero.                  *)
Mirror(b, z) == b.z[1] - z + 16

BlockValue(g, gt, gb, b, v, ix, iy, iz, mirror, how) ==
    LET x == b.x[ix]  y == b.y[iy]
        z == IF mirror THEN Mirror(b, b.z[iz]) ELSE b.z[iz]
    IN  Value(g, v, GeoX(g, x, y), GeoY(g, x, y), Elevation(g, gt, x, y, z), Ground(g, gt, gb, x, y), Shift(b, iz), how)

(* Contents, in the order in which they are stored.                          *)
SurfaceData(g, nm) == LET s == Surf(g, nm)  ny == Len(s.y)
                      IN  [i \in 1..(Len(s.x) * ny) |-> At(g, nm, s.x[1 + (i - 1) \div ny], s.y[1 + ((i - 1) % ny)])]
BlockData(g, gt, gb, nm, mirror, how) ==
    LET b == Blk(g, nm)  ny == Len(b.y)  nz == Len(b.z)  nv == g.src.n
    IN  [i \in 1..(Len(b.x) * ny * nz * nv) |->
            BlockValue(g, gt, gb, b, 1 + ((i - 1) % nv), 1 + (i - 1) \div (ny * nz * nv), 1 + (((i - 1) \div (nz * nv)) % ny),
                       1 + (((i - 1) \div nv) % nz), mirror, how)]

-----------------------------------------------------------------------------
(* The model file: which configuration its metadata say, and what the data   *)
(* of each part come from: a configuration, and for blocks the surfaces that *)
(* were stored at that time.  0: nothing is there; -1: interrupted, so that  *)
(* nothing is known.                                                         *)
CONSTANTS Configs, Parts
VARIABLES root, meta, data
cvars == <<root, meta, data>>
From(g, t, b) == [g |-> g, top |-> t, topo |-> b]
CInit == root = 0 /\ meta = [p \in Parts |-> 0] /\ data = [p \in Parts |-> From(0, 0, 0)]

Steps == {"import_domain", "import_surfaces", "import_blocks"}
Touched(g, S) == (IF "import_surfaces" \in S THEN SurfaceNames(Configs[g]) ELSE {})
                 \cup (IF "import_blocks" \in S THEN BlockNames(Configs[g]) ELSE {})
(* The surface that blocks find in the file.                                 *)
Found(g, S, p) == IF p \notin SurfaceNames(Configs[g]) THEN 0
                  ELSE IF "import_surfaces" \in S THEN g ELSE data[p].g

(* A run of some steps that is completed.                                    *)
Run(g, S) ==
    /\ root' = IF "import_domain" \in S THEN g ELSE root
    /\ meta' = [p \in Parts |-> IF p \in Touched(g, S) THEN g ELSE meta[p]]
    /\ data' = [p \in Parts |-> IF p \notin Touched(g, S) THEN data[p]
                                ELSE IF p \in SurfaceNames(Configs[g]) THEN From(g, 0, 0)
                                ELSE From(g, Found(g, S, Top), Found(g, S, Topo))]
(* Blocks conform to the surfaces that are stored, which must be those that  *)
(* the configuration describes.                                              *)
CanRun(g, S) == "import_blocks" \in S =>
    \A p \in SurfaceNames(Configs[g]) \ Touched(g, S) :
        data[p].g > 0 /\ meta[p] > 0 /\ Configs[meta[p]].attrs[p] = Configs[g].attrs[p]
(* Otherwise the run is refused.                                             *)
MustRefuse(g, S) == "import_blocks" \in S /\ \E p \in SurfaceNames(Configs[g]) \ Touched(g, S) :
    data[p].g = 0 \/ (meta[p] > 0 /\ Configs[meta[p]].attrs[p] # Configs[g].attrs[p])

(* A run that is interrupted, or refused: parts that it was to write may     *)
(* hold anything, others are untouched.                                      *)
Interrupted(g, S) ==
    /\ root' = IF "import_domain" \in S THEN -1 ELSE root
    /\ meta' = [p \in Parts |-> IF p \in Touched(g, S) THEN -1 ELSE meta[p]]
    /\ data' = [p \in Parts |-> IF p \in Touched(g, S) THEN From(-1, 0, 0) ELSE data[p]]

(* Metadata of the parts of this configuration, and nothing else.            *)
Update(g) ==
    /\ root' = g
    /\ meta' = [p \in Parts |-> IF p \in SurfaceNames(Configs[g]) \cup BlockNames(Configs[g]) THEN g ELSE meta[p]]
    /\ UNCHANGED data
CanUpdate(g) == \A p \in SurfaceNames(Configs[g]) \cup BlockNames(Configs[g]) : data[p].g > 0
===============================================================================
