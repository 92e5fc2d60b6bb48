------------------------------- MODULE QueryApi -------------------------------
(* The query interface as a state machine: query objects ("handles") are     *)
(* created, initialized with an ordered list of model files, configured for  *)
(* squashing, queried, cleaned up and initialized again.  Each action's      *)
(* effect on the caller is in `reply`.                                       *)
(*                                                                           *)
(* Files: sequence of records [ok |-> BOOLEAN, model |-> model record]; a    *)
(* file that is not ok cannot be opened or lacks metadata.                   *)
(* Crs:   sequence of records [swap, n, d, fx, fy, yx]: base frame           *)
(*        coordinates are (x, y) (swapped if swap) times n/d plus (fx, fy);  *)
(*        yx says that the system itself lists northing (latitude) first.    *)
EXTENDS GeoModel

CONSTANTS Files, Crs, Handles

VARIABLES obj,      \* per handle: phase, models, values, crs, squash mode and minimum elevation
          err,      \* per handle: status of its error handler: "ok", "warn", "error"
          reply     \* what the last call returned
vars == <<obj, err, reply>>

Fresh == [phase |-> "fresh", api |-> "cxx", models |-> <<>>, values |-> <<>>, crs |-> 1, sq |-> 0, min |-> I(0)]

Init == /\ obj = [h \in Handles |-> [Fresh EXCEPT !.phase = "none"]]
        /\ err = [h \in Handles |-> "ok"]
        /\ reply = [kind |-> "none"]

-------------------------------------------------------------------------------
(* Initialization.                                                           *)
HasValue(m, v) == \E i \in 1..Len(m.values) : m.values[i] = v
ValueIndex(m, v) == CHOOSE i \in 1..Len(m.values) :
                       m.values[i] = v /\ \A j \in 1..(i - 1) : m.values[j] # v
UnitsOf(m, v) == m.units[ValueIndex(m, v)]

(* The list of files and values is acceptable.                               *)
InitOk(fs, vs) ==
    /\ \A i \in 1..Len(fs) : Files[fs[i]].ok
    /\ \A i \in 1..Len(fs), j \in 1..Len(vs) : HasValue(Files[fs[i]].model, vs[j])
    /\ \A i, k \in 1..Len(fs), j \in 1..Len(vs) :
          UnitsOf(Files[fs[i]].model, vs[j]) = UnitsOf(Files[fs[k]].model, vs[j])

(* Everything that a message about a refusal may be about.                   *)
InitProblems(fs, vs) ==
    LET bad == {i \in 1..Len(fs) : ~Files[fs[i]].ok}
        good == 1..Len(fs) \ bad
        lacking == {<<i, j>> \in good \X (1..Len(vs)) : ~HasValue(Files[fs[i]].model, vs[j])}
    IN  {<<IF Files[fs[i]].named THEN "file" ELSE "meta", fs[i]>> : i \in bad}
        \cup {<<"value", vs[x[2]]>> : x \in lacking}
        \cup {<<"value", vs[j]>> : j \in {j \in 1..Len(vs) : \E i, k \in good :
                  /\ <<i, j>> \notin lacking /\ <<k, j>> \notin lacking
                  /\ UnitsOf(Files[fs[i]].model, vs[j]) # UnitsOf(Files[fs[k]].model, vs[j])}}

(* Only evaluated when the previous conjuncts hold. *)
InitVerdict(fs, vs) ==
    IF \E i \in 1..Len(fs) : ~Files[fs[i]].ok THEN "badfile"
    ELSE IF \E i \in 1..Len(fs), j \in 1..Len(vs) : ~HasValue(Files[fs[i]].model, vs[j]) THEN "badvalue"
    ELSE IF InitOk(fs, vs) THEN "ok" ELSE "badunits"

-------------------------------------------------------------------------------
(* Answers.                                                                  *)
BaseXY(c, x, y) ==
    LET k == Q(Crs[c].n, Crs[c].d)
        u == IF Crs[c].swap THEN y ELSE x
        v == IF Crs[c].swap THEN x ELSE y
    IN  <<RAdd(RMul(u, k), I(Crs[c].fx)), RAdd(RMul(v, k), I(Crs[c].fy))>>

(* Coordinates in system c of a base frame point, and in x, y order.         *)
FromBase(c, b) ==
    LET k == Q(Crs[c].d, Crs[c].n)
        u == RMul(RSub(b[1], I(Crs[c].fx)), k)
        v == RMul(RSub(b[2], I(Crs[c].fy)), k)
    IN  IF Crs[c].swap THEN <<v, u>> ELSE <<u, v>>
Transformed(i, j, x, y) == FromBase(j, BaseXY(i, x, y))
InXYOrder(c, x, y) == IF Crs[c].yx THEN <<y, x>> ELSE <<x, y>>

Place(o, f, x, y) == LET m == Files[f].model
                         b == BaseXY(o.crs, x, y)
                     IN  ModelXY(m, b[1], b[2])

(* Elevation at which model m is consulted; <<>> if there is none.         *)
Squashed(o, m, p, z) ==
    IF o.sq = 0 \/ RLe(z, o.min) THEN z
    ELSE IF RSign(o.min) = 0 THEN <<>>
    ELSE LET S == IF o.sq = 1 THEN TopAt(m, p) ELSE TopoAt(m, p)
         IN  RAdd(S, RDiv(RMul(z, RSub(o.min, S)), o.min))

(* eps: 0 at z, 1 a hair above z (under 0.1 mm), 2 clearly above z.          *)
ContainsZ(m, p, z, eps) ==
    LET zm == ModelZ(m, p, z)
    IN  InZ(m, zm) /\ ~(eps = 2 /\ RSign(zm) = 0)

Contains(o, f, x, y, z, eps) ==
    LET m == Files[f].model
        p == Place(o, f, x, y)
    IN  IF ~InXY(m, p) THEN FALSE
        ELSE LET zq == Squashed(o, m, p, z)
             IN  IF zq = <<>> THEN FALSE ELSE ContainsZ(m, p, zq, eps)

(* Position in the list of the model that answers; 0 if none.                *)
Answering(o, x, y, z, eps) ==
    LET S == {i \in 1..Len(o.models) : Contains(o, o.models[i], x, y, z, eps)}
    IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

Values(o, x, y, z, eps) ==
    LET a == Answering(o, x, y, z, eps)
    IN  IF a = 0 THEN [j \in 1..Len(o.values) |-> NODATA]
        ELSE LET f  == o.models[a]
                 m  == Files[f].model
                 p  == Place(o, f, x, y)
                 zm == ModelZ(m, p, Squashed(o, m, p, z))
             IN  [j \in 1..Len(o.values) |-> ValueAt(m, ValueIndex(m, o.values[j]) - 1, p, zm)]

Usable(o) == o.phase = "ready"
QueryOutcome(o, x, y, z, eps) ==
    IF ~Usable(o) \/ Len(o.values) = 0 THEN "error"
    ELSE IF Answering(o, x, y, z, eps) = 0 THEN "warn" ELSE "ok"

(* Elevation of a surface: from the first model that contains the surface    *)
(* point just below the surface.                                             *)
ElevOf(m, kind, p) == IF kind = "top" THEN TopAt(m, p) ELSE TopoAt(m, p)
ElevIn(o, f, kind, x, y) ==
    LET m == Files[f].model
        p == Place(o, f, x, y)
    IN  /\ InXY(m, p)
        /\ LET e == ElevOf(m, kind, p)
           IN  RLe(e, TopAt(m, p)) /\ RLt(I(-m.dims[3]), e)
Elevation(o, kind, x, y) ==
    LET S == IF Usable(o) THEN {i \in 1..Len(o.models) : ElevIn(o, o.models[i], kind, x, y)} ELSE {}
    IN  IF S = {} THEN NODATA
        ELSE LET a == CHOOSE i \in S : \A j \in S : i <= j
                 f == o.models[a]
             IN  ElevOf(Files[f].model, kind, Place(o, f, x, y))

-------------------------------------------------------------------------------
(* Points at which the answer hangs on equality of numbers: on the top, on   *)
(* the bottom, on the boundary of a block, on a grid plane next to missing   *)
(* data (ToTheHairZ), or on a side of a domain (ToTheHairXY).                *)
ToTheHairZ(o, x, y, z) ==
    /\ Usable(o)
    /\ \E i \in 1..Len(o.models) :
          LET f == o.models[i]
              m == Files[f].model
              p == Place(o, f, x, y)
          IN  /\ InXY(m, p)
              /\ LET zq == Squashed(o, m, p, z)
                 IN  /\ zq # <<>>
                     /\ LET zm == ModelZ(m, p, zq)
                        IN  \/ BoundaryZ(m, zm)
                            \/ /\ InZ(m, zm)
                               /\ m.blocks[BlockOf(m, zm)].nd.m > 0
                               /\ Plane(m, p, zm)
ToTheHairXY(o, x, y) ==
    /\ Usable(o)
    /\ \E i \in 1..Len(o.models) :
          LET f == o.models[i]
          IN  EdgeXY(Files[f].model, Place(o, f, x, y))
(* The surface looked for is a hair above the top of the domain, or at its   *)
(* bottom: "just below the surface" is a thousandth of the length unit.      *)
ToTheHairElev(o, kind, x, y) ==
    /\ Usable(o)
    /\ \E i \in 1..Len(o.models) :
          LET f == o.models[i]
              m == Files[f].model
              p == Place(o, f, x, y)
          IN  InXY(m, p) /\ LET e == ElevOf(m, kind, p)
                            IN  \/ RMilli(RSub(e, TopAt(m, p))) \in 0..20 /\ e # TopAt(m, p)
                                \/ RMilli(RAdd(e, I(m.dims[3]))) \in -20..20
(* Where all numbers are short binary fractions, a formula for the position  *)
(* in a column still need not be exact, however sensible, unless it divides  *)
(* by a power of two, or the point is on the surface.                        *)
PowersOf2 == {2^k : k \in 0..30}
RoughZ(o, x, y, z) ==
    /\ Usable(o)
    /\ \E i \in 1..Len(o.models) :
          LET f == o.models[i]
              m == Files[f].model
              p == Place(o, f, x, y)
          IN  /\ InXY(m, p)
              /\ LET zq == Squashed(o, m, p, z)
                 IN  /\ zq # <<>>
                     /\ LET zm == ModelZ(m, p, zq)
                        IN  /\ BoundaryZ(m, zm)
                            /\ ~(/\ zq = z \/ RSign(z) = 0 \/ Abs(Num(o.min)) \in PowersOf2
                                 /\ RSign(zm) = 0 \/ Num(RAdd(TopAt(m, p), I(m.dims[3]))) \in PowersOf2)
ToTheHair(o, x, y, z) == ToTheHairXY(o, x, y) \/ ToTheHairZ(o, x, y, z)

-------------------------------------------------------------------------------
(* Status seen by the caller: the C interface returns the status kept by the *)
(* error handler; the C++ interface returns the outcome of the call.         *)
After(h, outcome) == IF outcome = "ok" THEN err[h] ELSE outcome

New(h, api) ==
    /\ obj' = [obj EXCEPT ![h] = [Fresh EXCEPT !.api = api]]
    /\ err' = [err EXCEPT ![h] = "ok"]
    /\ reply' = [kind |-> "done"]

Initialize(h, fs, vs, c) ==
    LET ok == InitVerdict(fs, vs) = "ok" IN
    /\ obj[h].phase # "none"
    /\ obj' = [obj EXCEPT ![h].phase = IF ok THEN "ready" ELSE "failed",
                          ![h].models = IF ok THEN fs ELSE <<>>,
                          ![h].values = IF ok THEN vs ELSE <<>>,
                          ![h].crs = c]
    /\ err' = [err EXCEPT ![h] = IF ~ok /\ obj[h].api = "c" THEN "error" ELSE @]
    /\ reply' = [kind |-> "status", ok |-> ok,
                 status |-> IF obj[h].api = "c" THEN err'[h] ELSE IF ok THEN "ok" ELSE "exception"]

SetSquashing(h, mode) ==
    /\ obj[h].phase # "none"
    /\ obj' = [obj EXCEPT ![h].sq = mode]
    /\ err' = err
    /\ reply' = [kind |-> "status", ok |-> TRUE, status |-> IF obj[h].api = "c" THEN err[h] ELSE "ok"]

(* An unknown kind of squashing: refused, and squashing is off or unchanged. *)
SetUnknownSquashing(h) ==
    /\ obj[h].phase # "none" /\ obj[h].api = "c"
    /\ \E keep \in BOOLEAN : obj' = [obj EXCEPT ![h].sq = IF keep THEN @ ELSE 0]
    /\ err' = [err EXCEPT ![h] = "error"]
    /\ reply' = [kind |-> "status", ok |-> FALSE, status |-> "error"]

(* A query without a place for the answer.                                   *)
QueryNowhere(h) ==
    /\ obj[h].phase # "none"
    /\ obj' = obj
    /\ err' = [err EXCEPT ![h] = "error"]
    /\ reply' = [kind |-> "status", ok |-> FALSE, status |-> "error"]

(* What each function of the C interface answers for a null handle.          *)
NullReply(call) == CASE call \in {"init", "sq", "sqmin", "q", "fin"} -> "error"
                     [] call \in {"top", "topo"} -> "nodata"
                     [] call = "handler" -> "nohandler"
                     [] call = "destroy" -> "done"
                     [] call = "ehstatus" -> "ok"
                     [] call = "ehrest" -> "done"

SetSquashMin(h, zmin) ==
    /\ obj[h].phase # "none"
    /\ obj' = [obj EXCEPT ![h].min = zmin, ![h].sq = IF @ = 0 THEN 1 ELSE @]
    /\ err' = err
    /\ reply' = [kind |-> "status", ok |-> TRUE, status |-> IF obj[h].api = "c" THEN err[h] ELSE "ok"]

Query(h, x, y, z, eps) ==
    LET o == obj[h]
        out == QueryOutcome(o, x, y, z, eps) IN
    /\ o.phase # "none"
    /\ obj' = obj
    /\ err' = [err EXCEPT ![h] = IF out = "error" THEN "error"
                                 ELSE IF out = "warn" /\ o.api = "c" THEN "warn" ELSE @]
    /\ reply' = [kind |-> "values", outcome |-> out,
                 status |-> IF o.api = "c" THEN err'[h]
                            ELSE IF o.api = "py" /\ out = "error" THEN "exception" ELSE out,
                 vals |-> IF out = "error" THEN <<>> ELSE Values(o, x, y, z, eps)]

QueryElevation(h, kind, x, y) ==
    LET o == obj[h]
        e == Elevation(o, kind, x, y) IN
    /\ o.phase # "none"
    /\ obj' = obj
    /\ err' = [err EXCEPT ![h] = IF e = NODATA /\ o.api = "c" THEN "warn" ELSE @]
    /\ reply' = [kind |-> "elevation", elev |-> e]

(* Many points in one call: every row is answered as if it were asked alone, *)
(* in order; the call fails if any of its rows does.                         *)
QueryRows(h, rows) ==
    LET o == obj[h]
        out == [i \in 1..Len(rows) |-> QueryOutcome(o, rows[i].x, rows[i].y, rows[i].z, rows[i].eps)]
        fails == \E i \in 1..Len(rows) : out[i] = "error"
    IN  /\ o.phase # "none" /\ o.api # "c"
        /\ obj' = obj
        /\ err' = [err EXCEPT ![h] = IF fails THEN "error" ELSE @]
        /\ reply' = [kind |-> "rows", status |-> IF fails THEN "exception" ELSE "ok", outcomes |-> out,
                     vals |-> IF fails THEN <<>>
                              ELSE [i \in 1..Len(rows) |-> Values(o, rows[i].x, rows[i].y, rows[i].z, rows[i].eps)]]

ElevationRows(h, kind, rows) ==
    /\ obj[h].phase # "none" /\ obj[h].api # "c"
    /\ UNCHANGED <<obj, err>>
    /\ reply' = [kind |-> "erows", elevs |-> [i \in 1..Len(rows) |-> Elevation(obj[h], kind, rows[i].x, rows[i].y)]]

(* An argument that is not a list of points: refused, without consequences.  *)
NotPoints(h) ==
    /\ obj[h].phase # "none" /\ obj[h].api = "py"
    /\ UNCHANGED <<obj, err>>
    /\ reply' = [kind |-> "status", ok |-> FALSE, status |-> "exception"]

Reset(h) ==
    /\ obj[h].phase # "none"
    /\ obj' = obj
    /\ err' = [err EXCEPT ![h] = "ok"]
    /\ reply' = [kind |-> "done"]

(* Reading the status kept by the error handler.                             *)
Status(h) ==
    /\ obj[h].phase # "none"
    /\ UNCHANGED <<obj, err>>
    /\ reply' = [kind |-> "status", ok |-> TRUE, status |-> err[h]]

Finalize(h) ==
    /\ obj[h].phase # "none"
    /\ obj' = [obj EXCEPT ![h].phase = IF @ = "fresh" THEN "fresh" ELSE "closed",
                          ![h].models = <<>>, ![h].values = <<>>]
    /\ err' = err
    /\ reply' = [kind |-> "status", ok |-> TRUE, status |-> IF obj[h].api = "c" THEN err[h] ELSE "ok"]
===============================================================================
