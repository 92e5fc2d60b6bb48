------------------------------ MODULE RasterTrace ------------------------------
(* Recorded use of raster objects, checked against Raster.                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.GMG_TRACE)
VARIABLES ras, disk, answer, l
R == INSTANCE Raster WITH Names <- {"a", "b", "c"}, Paths <- {"f", "g", "h"}
vars == <<ras, disk, answer, l>>
E == Trace[l]
Match(ok) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, E.op, IF "n" \in DOMAIN E THEN ras[E.n] ELSE "">>) /\ FALSE
Same == UNCHANGED <<ras, disk, answer>>
Crs(seen, c) == \E i \in 1..Len(seen) : seen[i] = c

Step ==
    \/ E.op = "new"    /\ R!New(E.n)
    \/ E.op = "size"   /\ R!SetSize(E.n, E.field, E.v) /\ Match(answer' = E.r)
    \/ E.op = "labels" /\ R!SetLabels(E.n, E.v) /\ Match(answer' = E.r)
    \/ E.op = "crs"    /\ R!SetCrs(E.n, E.v) /\ Match(answer' = E.r)
    \/ E.op = "box"    /\ R!SetBox(E.n, E.v) /\ Match(answer' = E.r)
    \/ E.op = "nodata" /\ R!SetNodata(E.n, E.v) /\ Match(answer' = E.r)
    \/ E.op = "create" /\ R!Create(E.n, E.f) /\ Match(answer' = E.r)
    \/ E.op = "fill"   /\ R!Fill(E.n, E.v) /\ Match(answer' = E.r)
    \/ E.op = "write"  /\ (IF E.cut /\ E.r = "refused" THEN R!WriteFails(E.n) ELSE R!Write(E.n)) /\ Match(answer' = E.r)
    \/ E.op = "close"  /\ R!Close(E.n) /\ Match(answer' = E.r)
    \/ E.op = "delete" /\ R!Delete(E.n) /\ Match(answer' = E.r)
    \/ E.op = "read"   /\ R!Read(E.n, E.f) /\ Match(answer' = E.r)
    \/ E.op = "gone"   /\ R!Gone(E.f)
    \/ E.op = "get"    /\ Same /\ Match(/\ E.rows = ras[E.n].rows /\ E.cols = ras[E.n].cols /\ E.bands = ras[E.n].bands
                                        /\ E.labels = ras[E.n].labels /\ Crs(E.crs, ras[E.n].crs) /\ E.box = ras[E.n].box)
    \/ E.op = "data"   /\ Same /\ Match(E.v = ras[E.n].data)
    \/ E.op = "peek"   /\ Same /\ Match(/\ disk[E.f] # <<>>
                                        /\ E.rows = disk[E.f].rows /\ E.cols = disk[E.f].cols /\ E.bands = disk[E.f].bands
                                        /\ E.labels = disk[E.f].labels /\ Crs(E.crs, disk[E.f].crs) /\ E.box = disk[E.f].box
                                        /\ E.nodata = disk[E.f].nodata /\ E.v = disk[E.f].data)

TraceInit == R!RInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace)>>) /\ d = Len(Trace)
===============================================================================
