------------------------------- MODULE AppTrace -------------------------------
(* Recorded runs of the command-line tools, checked against Apps.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Config == JsonDeserialize(IOEnv.GMG_CONFIG)
Trace  == ndJsonDeserialize(IOEnv.GMG_TRACE)
VARIABLES obj, err, reply, app, l
A == INSTANCE Apps WITH Files <- Config.files, Crs <- Config.crs, Handles <- {}
vars == <<obj, err, reply, app, l>>
E == Trace[l]
NONE == -2147483647
Match(ok) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, E, IF E.op = "row" THEN A!RowValues ELSE app>>) /\ FALSE
Agrees(rec, exact) == IF exact = A!NODATA THEN rec = NONE ELSE LET q == A!RMilli(exact) IN rec = q \/ rec = q + 1
AgreeAll(rec, exact) == Len(rec) = Len(exact) /\ \A i \in 1..Len(rec) : Agrees(rec[i], exact[i])

P == app.pts[IF app.tool = "borehole" THEN 1 ELSE app.next]
Lenient ==
    CASE app.tool = "query" -> IF P.ex THEN A!RoughZ(app.obj, P.x, P.y, P.z) ELSE A!ToTheHair(app.obj, P.x, P.y, P.z)
      [] app.tool = "queryelev" -> ~P.ex /\ (A!ToTheHairXY(app.obj, P.x, P.y) \/ A!ToTheHairElev(app.obj, app.kind, P.x, P.y))
      \* a hole starts a hair below the ground unless the ground is at zero
      [] app.tool = "borehole" -> app.next > 1 /\ A!ToTheHair(app.obj, P.x, P.y, A!HoleElev(app.ground, app.next - 1, app.dz))

RowOk == \* the row is about the next point (E.at: the points it can be about) and has the right numbers
    /\ app.tool # "borehole" => \E i \in 1..Len(E.at) : E.at[i] = app.next
    /\ IF Lenient THEN TLCSet(1, TLCGet(1) + 1) ELSE AgreeAll(E.vals, A!RowValues)

Step ==
    \/ E.op = "run" /\ A!Run(E.tool, E.args, E.dflt, E.pts, E.torn)
    \/ E.op = "row" /\ Match(app.phase = "rows" /\ app.next <= app.rows) /\ Match(RowOk) /\ A!Row
    \/ E.op = "end" /\ (E.cut => A!CanEnd(E.exit)) /\ Match(A!CanEnd(E.exit)) /\ Match(A!Headed(E.head)) /\ A!End(E.exit)
    \/ E.op = "end" /\ E.cut /\ ~A!CanEnd(E.exit) /\ Match(A!CanCut(E.exit)) /\ A!Cut(E.exit)

TraceInit == A!AppInit /\ l = 1 /\ obj = <<>> /\ err = <<>> /\ reply = <<>> /\ TLCSet(1, 0)
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1 /\ UNCHANGED <<obj, err, reply>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace), "LENIENT", TLCGet(1)>>) /\ d = Len(Trace)
===============================================================================
