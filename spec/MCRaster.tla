------------------------------- MODULE MCRaster -------------------------------
(* Every history of two rasters and one file (and a place where no file can  *)
(* be made), with two layouts; a raster is prepared in one step and painted  *)
(* in another.                                                               *)
EXTENDS Raster, TLC, Json
CONSTANT Layouts
VARIABLES call,
          ledger      \* layout whose picture was finished last on each path, 0 if none
mcvars == <<ras, disk, answer, call, ledger>>
MCInit == RInit /\ call = [op |-> "init"] /\ ledger = [f \in Paths |-> 0]
Do(c) == call' = c
Keep == ledger' = ledger
Busy(n, f) == \E k \in Names : k # n /\ ras[k].alive /\ ras[k].file = f
Idle(n) == ras[n].alive /\ ras[n].file = ""
Prepare(n, k) == /\ Set(n, [ras[n] EXCEPT !.rows = Layouts[k].rows, !.cols = Layouts[k].cols, !.bands = Layouts[k].bands, !.labels = Layouts[k].labels,
                                          !.crs = Layouts[k].crs, !.box = Layouts[k].box, !.nodata = k, !.data = <<>>])
                 /\ Ok /\ UNCHANGED disk
Layout(r) == {k \in 1..Len(Layouts) : r.labels = Layouts[k].labels}
Paint(n) == \E k \in Layout(ras[n]) : Set(n, [ras[n] EXCEPT !.data = Layouts[k].data]) /\ Ok /\ UNCHANGED disk
(* What a file that is let go of holds.                                      *)
Let(n) == LET f == ras[n].file
          IN  ledger' = IF f = "" THEN ledger
                        ELSE [ledger EXCEPT ![f] = IF ras[n].data = <<>> THEN 0 ELSE CHOOSE k \in Layout(ras[n]) : TRUE]
(* Never read: a file on which nothing was painted. *)
Known(f) == IF f = "nowhere" THEN TRUE ELSE IF disk[f] = <<>> THEN TRUE ELSE disk[f].data # <<>>
MCNext == \E n \in Names :
    \/ ~ras[n].alive /\ New(n) /\ Keep /\ Do([op |-> "new", n |-> n])
    \/ \E k \in 1..Len(Layouts) : Idle(n) /\ Prepare(n, k) /\ Keep /\ Do([op |-> "prepare", n |-> n, k |-> k])
    \/ \E f \in Paths \cup {"nowhere"} : /\ Idle(n) /\ Layout(ras[n]) # {} /\ ras[n].nodata > 0 /\ ~Busy(n, f)
                                         /\ Create(n, f) /\ Keep /\ Do([op |-> "create", n |-> n, f |-> f])
    \/ ras[n].alive /\ ras[n].file # "" /\ ras[n].data = <<>> /\ Paint(n) /\ Keep /\ Do([op |-> "paint", n |-> n])
    \/ ras[n].alive /\ Close(n) /\ Let(n) /\ Do([op |-> "close", n |-> n])
    \/ ras[n].alive /\ Delete(n) /\ Let(n) /\ Do([op |-> "delete", n |-> n])
    \/ \E f \in Paths \cup {"nowhere"} : /\ Idle(n) /\ ~Busy(n, f) /\ Known(f)
                                         /\ Read(n, f) /\ Keep /\ Do([op |-> "read", n |-> n, f |-> f])
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<ras, disk>>

(* A file that is let go of holds exactly what was painted on it last.       *)
Holds(d, k) == d.rows = Layouts[k].rows /\ d.cols = Layouts[k].cols /\ d.labels = Layouts[k].labels /\ d.crs = Layouts[k].crs
               /\ d.box = Layouts[k].box /\ d.data = Layouts[k].data
Faithful == \A f \in Paths : (ledger[f] > 0 /\ ~\E n \in Names : ras[n].alive /\ ras[n].file = f) => Holds(disk[f], ledger[f])
Steps == [][/\ (call'.op = "read" /\ answer' = "ok") => Holds(ras'[call'.n], ledger[call'.f])
            /\ \A k \in Names : k # call'.n => ras'[k] = ras[k]
            /\ answer' = "refused" => disk' = disk]_mcvars

Fields(r) == IF ~r.alive THEN <<>> ELSE <<r.rows, r.cols, r.bands, r.labels, r.crs, r.box, r.nodata, r.data, r.file>>
FileFields(d) == IF d = <<>> THEN <<>> ELSE <<d.rows, d.cols, d.bands, d.labels, d.crs, d.box, d.nodata, d.data>>
Canon(r, d) == ToString(<<[n \in Names |-> Fields(r[n])], [f \in Paths |-> FileFields(d[f])]>>)
Emit == PrintT(<<"EDGE", ToJson([s |-> Canon(ras, disk), t |-> Canon(ras', disk'), c |-> call'])>>)
MCLayouts == <<[rows |-> 1, cols |-> 2, bands |-> 1, labels |-> <<"one">>, crs |-> 1, box |-> <<-118, -116, 34, 35>>, data |-> <<8, -2147483647>>],
               [rows |-> 2, cols |-> 1, bands |-> 2, labels |-> <<"", "top">>, crs |-> 2, box |-> <<100, 107, -30, 30>>, data |-> <<1, 2, -3, 4>>]>>
===============================================================================
