--------------------------------- MODULE Apps ---------------------------------
(* The command-line tools that answer queries: values at points (query),     *)
(* elevations at points (queryelev), and values down a hole (borehole).      *)
(*                                                                           *)
(* A run reads its command line (a sequence of options), refuses it or not,  *)
(* and then writes one row per point, in order.                              *)
EXTENDS QueryApi

VARIABLES app      \* the run in progress
avars == <<app>>

Options0 == [values |-> <<>>, models |-> <<>>, points |-> "", output |-> FALSE, crs |-> 0, sq |-> 0, min |-> <<>>, topo |-> FALSE,
             help |-> FALSE, bad |-> FALSE, loc |-> FALSE, dz |-> <<>>, maxdepth |-> <<>>]

(* Options take effect in the order given.                                   *)
Apply(o, a) ==
    CASE a.k = "values"  -> [o EXCEPT !.values = a.v]
      [] a.k = "models"  -> [o EXCEPT !.models = a.v]
      [] a.k = "points"  -> [o EXCEPT !.points = a.v]
      [] a.k = "output"  -> [o EXCEPT !.output = TRUE]
      [] a.k = "crs"     -> [o EXCEPT !.crs = a.v]
      [] a.k = "minelev" -> [o EXCEPT !.min = a.v, !.sq = IF @ = 0 THEN 1 ELSE @]
      [] a.k = "squash"  -> [o EXCEPT !.sq = a.v]
      [] a.k = "surface" -> [o EXCEPT !.topo = (a.v = "topo")]
      [] a.k = "help"    -> [o EXCEPT !.help = TRUE]
      [] a.k = "unknown" -> [o EXCEPT !.bad = TRUE]
      [] a.k = "loc"     -> [o EXCEPT !.loc = TRUE]
      [] a.k = "dz"      -> [o EXCEPT !.dz = a.v]
      [] a.k = "maxdepth" -> [o EXCEPT !.maxdepth = a.v]
      [] a.k = "log"     -> o      \* messages only
RECURSIVE Parse(_, _, _)
Parse(args, i, o) == IF i > Len(args) THEN o ELSE Parse(args, i + 1, Apply(o, args[i]))

Needs(tool, o) == /\ o.models # <<>> /\ o.output
                  /\ tool \in {"query", "queryelev"} => o.points # ""
                  /\ tool \in {"query", "borehole"} => o.values # <<>>
                  /\ tool = "borehole" => o.loc
                  /\ tool = "borehole" /\ o.dz # <<>> => RLt(I(0), o.dz)                 \* a hole goes down, by steps
                  /\ tool = "borehole" /\ o.maxdepth # <<>> => RLe(I(0), o.maxdepth)

(* The query object that the options describe; the tools' defaults for what  *)
(* the options leave open come with the run.                                 *)
ObjectOf(o, dflt) ==
    [phase |-> "ready", api |-> "cxx", models |-> o.models, values |-> o.values,
     crs |-> IF o.crs = 0 THEN dflt.crs ELSE o.crs, sq |-> o.sq,
     min |-> IF o.min = <<>> THEN dflt.min ELSE o.min]

Verdict(tool, args, o) ==
    IF o.bad THEN "refused"
    ELSE IF o.help \/ Len(args) = 0 THEN "help"
    ELSE IF ~Needs(tool, o) THEN "refused"
    ELSE IF InitVerdict(o.models, IF tool = "queryelev" THEN <<>> ELSE o.values) # "ok" THEN "refused"
    ELSE IF tool # "borehole" /\ o.points = "absent" THEN "refused"
    ELSE "rows"

(* Ground elevation of a hole; rows down to the depth limit.                 *)
Ground(q0, x, y) == Elevation(q0, "top", x, y)
HoleRows(dz, maxdepth) == RFloor(RDiv(maxdepth, dz)) + 1
HoleElev(g, i, dz) == RSub(g, RMul(I(i), dz))

AppInit == app = [phase |-> "none"]

(* pts: the points of the file, up to something that is not a point (torn).  *)
Run(tool, args, dflt, pts, torn) ==
    LET o == Parse(args, 1, Options0)
        v == Verdict(tool, args, o)
        q == ObjectOf(o, dflt)
        dz == IF o.dz = <<>> THEN dflt.dz ELSE o.dz
        md == IF o.maxdepth = <<>> THEN dflt.maxdepth ELSE o.maxdepth
        g == IF v = "rows" /\ tool = "borehole" THEN Ground(q, pts[1].x, pts[1].y) ELSE NODATA
        outside == v = "rows" /\ tool = "borehole" /\ g = NODATA
    IN  /\ app.phase \in {"none", "ended"}
        /\ app' = [phase |-> IF outside THEN "refused" ELSE v, torn |-> torn /\ v = "rows", tool |-> tool, obj |-> q, pts |-> pts, next |-> 1, ground |-> g, dz |-> dz,
                   kind |-> IF o.topo THEN "topo" ELSE "top",
                   rows |-> IF v # "rows" \/ outside THEN 0
                            ELSE IF tool = "borehole" THEN HoleRows(dz, md) ELSE Len(pts)]

(* The numbers of the next row, after its point.                             *)
RowValues ==
    LET p == app.pts[IF app.tool = "borehole" THEN 1 ELSE app.next]
    IN  CASE app.tool = "query"     -> Values(app.obj, p.x, p.y, p.z, 0)
          [] app.tool = "queryelev" -> <<Elevation(app.obj, app.kind, p.x, p.y)>>
          [] app.tool = "borehole"  ->
               LET z == HoleElev(app.ground, app.next - 1, app.dz)
               IN  <<z, RMul(I(app.next - 1), app.dz)>> \o Values(app.obj, p.x, p.y, z, 0)

Row == /\ app.phase = "rows" /\ app.next <= app.rows
       /\ app' = [app EXCEPT !.next = @ + 1]

(* The header names the columns: those of the point (whatever their names),  *)
(* and each value by the name it was asked by (in lower case here).          *)
Points == CASE app.tool = "query" -> 3 [] app.tool = "queryelev" -> 2 [] app.tool = "borehole" -> 2
Named == IF app.tool = "queryelev" THEN <<"elevation">> ELSE app.obj.values
Headed(head) == app.phase = "rows" /\ (~app.torn \/ head # <<>>) =>
                                      /\ Len(head) = Points + Len(Named)
                                      /\ SubSeq(head, Points + 1, Len(head)) = Named

CanEnd(exit) ==
    /\ app.phase \in {"rows", "refused", "help"}
    /\ app.next = app.rows + 1 \/ app.torn
    /\ exit = (IF app.phase = "refused" \/ app.torn THEN "error" ELSE "ok")
End(exit) ==
    /\ CanEnd(exit)
    /\ app' = [phase |-> "ended"]

(* The output takes no more rows: the run says so.                           *)
CanCut(exit) == app.phase = "rows" /\ exit = "error"
Cut(exit) == CanCut(exit) /\ app' = [phase |-> "ended"]
===============================================================================
