------------------------------- MODULE IsoTrace -------------------------------
(* Recorded runs of the isosurface tool, checked against Isosurface.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Config == JsonDeserialize(IOEnv.GMG_CONFIG)
Trace  == ndJsonDeserialize(IOEnv.GMG_TRACE)
VARIABLES obj, err, reply, app, l
A == INSTANCE Isosurface WITH Files <- Config.files, Crs <- Config.crs, Handles <- {}
vars == <<obj, err, reply, app, l>>
E == Trace[l]
NONE == -2147483647
Match(ok) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, E, app>>) /\ FALSE

Close(rec, exact) == LET q == A!RMilli(exact) IN rec >= q - 1 /\ rec <= q + 2
RasterOk ==
    /\ app.phase = "raster"
    /\ E.cols = app.cols /\ E.rows = app.rows /\ E.bands = Len(app.o.iso)
    /\ E.crs /\ E.nodata
    /\ \A b \in 1..E.bands : E.labels[b].name = app.o.iso[b].name /\ Close(E.labels[b].t, app.o.iso[b].t)
    \* the cells are where the values are
    /\ Close(E.x0, A!XRange(app.o, app.c)[1])
    /\ Close(E.x1, A!RAdd(A!XRange(app.o, app.c)[1], A!RMul(app.o.hres, A!I(app.cols))))
    /\ Close(E.y0, A!YRange(app.o, app.c)[1])
    /\ Close(E.y1, A!RAdd(A!YRange(app.o, app.c)[1], A!RMul(app.o.hres, A!I(app.rows))))

PixelOk ==
    /\ app.phase = "pixels"
    /\ E.row = app.left \div app.cols /\ E.col = app.left % app.cols
    /\ IF A!HairColumn(E.row, E.col) THEN TLCSet(1, TLCGet(1) + 1)
       ELSE A!PixelOk(E.row, E.col, E.vals, NONE)

Step ==
    \/ E.op = "run" /\ A!Run(E.args, E.dflt)
    \/ E.op = "raster" /\ Match(RasterOk) /\ A!Raster
    \/ E.op = "pixel" /\ Match(PixelOk) /\ A!Pixel
    \/ E.op = "end" /\ Match(A!CanEnd(E.exit, E.cut)) /\ A!End(E.exit, E.cut)

TraceInit == A!AppInit /\ l = 1 /\ obj = <<>> /\ err = <<>> /\ reply = <<>> /\ TLCSet(1, 0)
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1 /\ UNCHANGED <<obj, err, reply>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace), "LENIENT", TLCGet(1)>>) /\ d = Len(Trace)
===============================================================================
