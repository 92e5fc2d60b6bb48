-------------------------------- MODULE Raster --------------------------------
(* Rasters in memory and in files.  Several raster objects may be alive at   *)
(* the same time; each can be filled, written to a file, closed, and used to *)
(* read a file.                                                              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Names, Paths
VARIABLES ras,      \* raster objects by name
          disk,     \* files: header and data, or <<>> if there is no raster
          answer
rvars == <<ras, disk, answer>>

None == [alive |-> FALSE]
Blank == [alive |-> TRUE, rows |-> 0, cols |-> 0, bands |-> 0, labels |-> <<>>, crs |-> 0, box |-> <<0, 0, 0, 0>>, nodata |-> 0,
          data |-> <<>>, file |-> ""]

RInit == /\ ras = [n \in Names |-> None]
         /\ disk = [f \in Paths |-> <<>>]
         /\ answer = "none"

Set(n, r) == ras' = [ras EXCEPT ![n] = r]
Ok == answer' = "ok"
Refuse == answer' = "refused" /\ UNCHANGED <<ras, disk>>

New(n) == Set(n, Blank) /\ Ok /\ UNCHANGED disk
Put(n, field, v) == Set(n, [ras[n] EXCEPT ![field] = v]) /\ Ok /\ UNCHANGED disk

SetSize(n, field, v) == IF v = 0 THEN Refuse ELSE Put(n, field, v)
SetLabels(n, v) == IF Len(v) # ras[n].bands THEN Refuse ELSE Put(n, "labels", v)
SetCrs(n, v) == IF v = 0 THEN Refuse ELSE Put(n, "crs", v)
(* To be set after the size of the image (documented precondition).         *)
SetBox(n, v) == Put(n, "box", v)
SetNodata(n, v) == Put(n, "nodata", v)

Image(r) == [rows |-> r.rows, cols |-> r.cols, bands |-> r.bands, labels |-> r.labels, crs |-> r.crs, box |-> r.box,
             nodata |-> r.nodata, data |-> r.data]
(* A file is complete when its raster is closed.                             *)
Closed(n) == IF ras[n].file = "" THEN disk ELSE [disk EXCEPT ![ras[n].file] = Image(ras[n])]

Create(n, f) ==
    /\ ras[n].rows > 0 /\ ras[n].cols > 0 /\ ras[n].bands > 0 /\ Len(ras[n].labels) = ras[n].bands /\ ras[n].crs > 0
    /\ IF f = "nowhere" THEN /\ Set(n, [ras[n] EXCEPT !.file = "", !.data = <<>>]) /\ disk' = Closed(n) /\ answer' = "refused"
       ELSE Set(n, [ras[n] EXCEPT !.file = f, !.data = <<>>]) /\ disk' = Closed(n) /\ Ok
Fill(n, d) == Len(d) = ras[n].rows * ras[n].cols * ras[n].bands /\ Put(n, "data", d)
Write(n) == ras[n].file # "" /\ ras[n].data # <<>> /\ Ok /\ UNCHANGED <<ras, disk>>
(* Without room for the file, a write may also be refused; then there is no  *)
(* raster.                                                                   *)
WriteFails(n) == /\ ras[n].file # "" /\ ras[n].data # <<>> /\ answer' = "refused"
                 /\ disk' = [disk EXCEPT ![ras[n].file] = <<>>]
                 /\ Set(n, [ras[n] EXCEPT !.file = "", !.data = <<>>])
Close(n) == Set(n, [ras[n] EXCEPT !.file = "", !.data = <<>>]) /\ disk' = Closed(n) /\ Ok
Delete(n) == Set(n, None) /\ disk' = Closed(n) /\ Ok

(* Somebody else deletes a file that no raster has open.                     *)
Gone(f) == /\ ~\E n \in Names : ras[n].alive /\ ras[n].file = f
           /\ disk' = [disk EXCEPT ![f] = <<>>] /\ Ok /\ UNCHANGED ras

Readable(f) == f # "nowhere" /\ disk[f] # <<>> /\ disk[f].data # <<>>
Read(n, f) ==
    /\ disk' = Closed(n)
    /\ IF f # "nowhere" /\ disk'[f] # <<>>
       THEN LET d == disk'[f]
            IN  Set(n, [ras[n] EXCEPT !.rows = d.rows, !.cols = d.cols, !.bands = d.bands, !.labels = d.labels, !.crs = d.crs,
                                      !.box = d.box, !.data = d.data, !.file = ""]) /\ Ok
       ELSE Set(n, [ras[n] EXCEPT !.data = <<>>, !.file = ""]) /\ answer' = "refused"
===============================================================================
