------------------------------- MODULE Verify --------------------------------
(* What the verification of a model has to say about it, step by step.       *)
(* A model is a record                                                       *)
(*   complete: all required metadata are present                             *)
(*   crs: [valid, units] with one unit per axis of the coordinate system     *)
(*   dims, top, topo, blocks: as in GeoModel, but not necessarily sound      *)
EXTENDS Grid, FiniteSets

Spans(a, n) == AxisLen(a) = n
SurfaceOk(m, s) == Spans(s.ax, m.dims[1]) /\ Spans(s.ay, m.dims[2])

(* Both surfaces are given on the same grid.                                 *)
SameSpacing(a, b) == IF a.kind = "u" /\ b.kind = "u" THEN {a.d = b.d}
                     ELSE IF a.kind = b.kind THEN {a.c = b.c, TRUE} ELSE {FALSE}
MatchVerdicts(m) == {x /\ y : x \in SameSpacing(m.top.ax, m.topo.ax), y \in SameSpacing(m.top.ay, m.topo.ay)}

(* Points of a block lie on points of the top surface: its spacing is a      *)
(* multiple (for uniform spacing; otherwise this is not judged).             *)
Fits(m, a, s) == IF m.top.on /\ a.kind = "u" /\ s.kind = "u" THEN a.d % s.d = 0 ELSE TRUE
BlockOk(m, b) == /\ Spans(b.ax, m.dims[1]) /\ Spans(b.ay, m.dims[2])
                 /\ m.top.on => Fits(m, b.ax, m.top.ax) /\ Fits(m, b.ay, m.top.ay)

Top(b) == b.top
Bottom(b) == b.top - AxisLen(b.az)
(* The blocks tile the domain: each begins where another, or the domain,     *)
(* ends.                                                                     *)
Tiles(m) ==
    LET n == Len(m.blocks)
        B == 1..n
    IN  /\ \A i \in B : Bottom(m.blocks[i]) = -m.dims[3] \/ \E j \in B : Top(m.blocks[j]) = Bottom(m.blocks[i])
        /\ \A i \in B : Top(m.blocks[i]) = 0 \/ \E j \in B : Bottom(m.blocks[j]) = Top(m.blocks[i])
        /\ \A i, j \in B : i # j => Top(m.blocks[i]) # Top(m.blocks[j])
        /\ \E i \in B : Top(m.blocks[i]) = 0
        /\ \A i \in B : Top(m.blocks[i]) <= 0

CrsOk(m) == m.crs.valid /\ m.crs.units[1] = m.crs.units[2]

Sound(m) == /\ m.complete /\ CrsOk(m) /\ Tiles(m)
            /\ m.top.on => SurfaceOk(m, m.top)
            /\ m.topo.on => SurfaceOk(m, m.topo)
            /\ \A i \in 1..Len(m.blocks) : BlockOk(m, m.blocks[i])

(* Steps of a report: sequences of [what, ok]; what is "metadata", "crs",    *)
(* "top", "topo", "match", "z", or the number of a block.                    *)
Expected(m) ==
    {<<"metadata", m.complete>>, <<"crs", CrsOk(m)>>, <<"z", Tiles(m)>>}
    \cup (IF m.top.on THEN {<<"top", SurfaceOk(m, m.top)>>} ELSE {})
    \cup (IF m.topo.on THEN {<<"topo", SurfaceOk(m, m.topo)>>} ELSE {})
Judged(m, what) == what \notin {"match", "block"}
ReportOk(m, steps, blocks) ==
    LET S == {<<steps[i].what, steps[i].ok>> : i \in 1..Len(steps)}
    IN  IF ~m.complete THEN <<"metadata", FALSE>> \in S
        ELSE /\ {x \in S : x[1] # "match"} = Expected(m)
             /\ (m.top.on /\ m.topo.on) => \E v \in MatchVerdicts(m) : {x \in S : x[1] = "match"} = {<<"match", v>>}
             /\ ~(m.top.on /\ m.topo.on) => {x \in S : x[1] = "match"} = {}
             /\ {<<blocks[i].at, blocks[i].ok>> : i \in 1..Len(blocks)} = {<<i, BlockOk(m, m.blocks[i])>> : i \in 1..Len(m.blocks)}
             /\ Len(blocks) = Len(m.blocks)

-----------------------------------------------------------------------------
(* Runs of the tool.  What was said about a model (with given options) is    *)
(* said again whenever it is asked about.                                    *)
CONSTANT Files
VARIABLES said
VInit == said = [x \in {} |-> ""]
Say(f, o, text) == said' = IF <<f, o>> \in DOMAIN said THEN said
                           ELSE [x \in DOMAIN said \cup {<<f, o>>} |-> IF x = <<f, o>> THEN text ELSE said[x]]
SameAsBefore(f, o, text) == <<f, o>> \in DOMAIN said => said[<<f, o>>] = text
===============================================================================
