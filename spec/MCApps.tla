-------------------------------- MODULE MCApps --------------------------------
(* Every command line of a family (subsets of a menu of options, with what   *)
(* is needed left out, given twice, or spoiled in up to a few places), and   *)
(* the run of a tool that follows.  The command lines are printed and given  *)
(* to the real tools.                                                        *)
EXTENDS TLC, Json, IOUtils, Integers, Sequences, FiniteSets
Config == JsonDeserialize(IOEnv.GMG_CONFIG)
M == Config.mc        \* tool, menu of [k, v, odd, at], needed and always (kinds), limit, points, dflt
VARIABLES obj, err, reply, app, typed, wrote
A == INSTANCE Apps WITH Files <- Config.files, Crs <- Config.crs, Handles <- {}
mcvars == <<obj, err, reply, app, typed, wrote>>

Menu == M.menu
Kinds(t) == {Menu[t[i]].k : i \in 1..Len(t)}
Args(t) == [i \in 1..Len(t) |-> [k |-> Menu[t[i]].k, v |-> Menu[t[i]].v]]
Odd(t) == Cardinality({i \in 1..Len(t) : Menu[t[i]].odd}) + (Len(t) - Cardinality(Kinds(t)))
Missing(t) == Cardinality({i \in 1..Len(M.needed) : M.needed[i] \notin Kinds(t)})
Worth(t) == /\ Odd(t) + Missing(t) <= M.limit
            /\ \A i \in 1..Len(M.always) : M.always[i] \in Kinds(t)
Last(t, k) == LET S == {i \in 1..Len(t) : Menu[t[i]].k = k} IN IF S = {} THEN [odd |-> FALSE, at |-> 0] ELSE Menu[t[CHOOSE i \in S : \A j \in S : j <= i]]
Points(t) == IF M.tool = "borehole" /\ Last(t, "loc").at > 0 THEN <<M.points[Last(t, "loc").at]>> ELSE M.points

MCInit == A!AppInit /\ typed = <<>> /\ wrote = <<>> /\ obj = <<>> /\ err = <<>> /\ reply = <<>>
MCNext ==
    /\ UNCHANGED <<obj, err, reply>>
    /\ \/ /\ app.phase = "none"
          /\ \E i \in ((IF typed = <<>> THEN 0 ELSE typed[Len(typed)]) + 1)..Len(Menu) : typed' = Append(typed, i)
          /\ Odd(typed') <= M.limit
          /\ UNCHANGED <<app, wrote>>
       \/ /\ app.phase = "none" /\ (typed = <<>> \/ Worth(typed))
          /\ \E torn \in (IF M.tool = "borehole" THEN {FALSE} ELSE BOOLEAN) : A!Run(M.tool, Args(typed), M.dflt, Points(typed), torn)
          /\ UNCHANGED <<typed, wrote>>
          /\ PrintT(<<"RUN", ToJson(typed)>>)
       \/ A!Row /\ wrote' = Append(wrote, A!RowValues) /\ UNCHANGED typed
       \/ (\E e \in {"ok", "error"} : A!End(e) \/ A!Cut(e)) /\ UNCHANGED <<typed, wrote>>
MCSpec == MCInit /\ [][MCNext]_mcvars
Running == app.phase \in {"rows", "refused", "help"}

(* What is wrong with a command line, in words of its options alone.         *)
Spoiled(k) == Last(typed, k).odd
Wrong == \/ "unknown" \in Kinds(typed)
         \/ /\ "help" \notin Kinds(typed) /\ typed # <<>>
            /\ \/ Missing(typed) > 0
               \/ \E k \in {"models", "values", "points", "loc", "dz", "maxdepth"} : Spoiled(k)
RefusedMeans == Running => (app.phase = "refused" <=> Wrong)
HelpMeans == Running => (app.phase = "help" <=> ~Wrong /\ ("help" \in Kinds(typed) \/ typed = <<>>))
(* Nothing is written by a run that is refused or shows help, and nothing is *)
(* left out by one that answers.                                             *)
Count == IF M.tool = "borehole" THEN app.rows ELSE Len(M.points)
RowsMean == /\ app.phase \in {"refused", "help", "none"} => wrote = <<>>
            /\ Running /\ app.phase = "rows" => Len(wrote) = app.next - 1 /\ app.rows = Count
            /\ (Running /\ app.phase = "rows" /\ ENABLED A!End("ok")) => Len(wrote) = Count
            /\ (Running /\ app.phase = "rows" /\ M.tool = "borehole") =>
                  A!RLe(A!RMul(A!I(Count - 1), app.dz), M.deepest) /\ A!RLt(M.deepest, A!RMul(A!I(Count), app.dz))
(* A run that ends well has answered every point of the whole file.          *)
WellMeans == (Running /\ app.phase = "rows" /\ ENABLED (A!End("ok") \/ A!Cut("ok"))) => ~app.torn /\ Len(wrote) = Count
(* Options may be given in any order, other than twice.                      *)
Swap(s, i) == [j \in 1..Len(s) |-> IF j = i THEN s[i + 1] ELSE IF j = i + 1 THEN s[i] ELSE s[j]]
OrderFree == \A i \in 1..(Len(typed) - 1) :
    Menu[typed[i]].k # Menu[typed[i + 1]].k => A!Parse(Args(Swap(typed, i)), 1, A!Options0) = A!Parse(Args(typed), 1, A!Options0)
===============================================================================
