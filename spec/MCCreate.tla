------------------------------- MODULE MCCreate -------------------------------
(* All histories of complete, interrupted, refused and repeated steps and    *)
(* updates of metadata, with three configurations: two that share the layout *)
(* of the surface, and one with another.                                     *)
EXTENDS Create
VARIABLES last, under
mcvars == <<root, meta, data, last, under>>
G(a) == [surfaces |-> <<[name |-> Top]>>, blocks |-> <<[name |-> "b"]>>, attrs |-> [p \in {Top, "b"} |-> a]]
MCConfigs == <<G("x"), G("x"), G("y")>>
(* last: per step, the configuration it was last completed with, or -1 after *)
(* an interruption; under: the surface that the blocks were made under.      *)
MCInit == CInit /\ last = [p \in Steps |-> 0] /\ under = 0
Done(g, S) == /\ last' = [p \in DOMAIN last |-> IF p \in S THEN g ELSE last[p]]
              /\ under' = IF "import_blocks" \in S THEN (IF g = -1 THEN 0 ELSE IF "import_surfaces" \in S THEN g ELSE last["import_surfaces"])
                          ELSE under
MCNext == \E g \in 1..3 :
    \/ \E S \in SUBSET Steps : S # {} /\ CanRun(g, S) /\ Run(g, S) /\ Done(g, S)
    \/ \E S \in SUBSET Steps : S # {} /\ Interrupted(g, S) /\ Done(-1, S)
    \/ CanUpdate(g) /\ Update(g) /\ UNCHANGED <<last, under>>
MCSpec == MCInit /\ [][MCNext]_mcvars
(* Data depend only on the last complete run of the step: not on how often,  *)
(* in which company, or after what interruption it was run.                  *)
DataFromLast == data[Top].g = last["import_surfaces"] /\ data["b"].g = last["import_blocks"] /\ data["b"].top = under
(* A complete run of everything ends in the same state from anywhere.        *)
Fresh(g) == root' = g /\ meta' = [p \in Parts |-> g] /\ data' = [p \in Parts |-> IF p = Top THEN From(g, 0, 0) ELSE From(g, g, 0)]
AllIsAll == [][\A g \in 1..3 : (Run(g, Steps) => Fresh(g))]_mcvars
Updates == [][\A g \in 1..3 : Update(g) => data' = data]_mcvars
===============================================================================
