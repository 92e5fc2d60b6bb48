------------------------------- MODULE MCQuery --------------------------------
(* Every history of query objects over a small world of model files (which   *)
(* the harness also writes to disk): every state that the calls listed in    *)
(* the configuration can reach, and every call in it.  The transitions are   *)
(* printed and replayed on the real code.                                    *)
EXTENDS TLC, Json, IOUtils, Integers, Sequences
Config == JsonDeserialize(IOEnv.GMG_CONFIG)
M == Config.mc
Set(s) == {s[i] : i \in 1..Len(s)}

VARIABLES obj, err, reply, call
Api == INSTANCE QueryApi WITH Files <- Config.files, Crs <- Config.crs, Handles <- Set(M.handles)
mcvars == <<obj, err, reply, call>>

MCInit == Api!Init /\ call = [op |-> "init"]
Do(c) == call' = c
Meaningful(h, p) == ~(obj[h].sq # 0 /\ obj[h].min = <<0, 1>> /\ Api!RSign(p.z) > 0)

MCNext == \E h \in Set(M.handles) :
    \/ \E a \in Set(M.apis) : Api!New(h, a) /\ Do([op |-> "new", h |-> h, api |-> a])
    \/ \E i \in 1..Len(M.inits) : LET x == M.inits[i] IN Api!Initialize(h, x.fs, x.vs, x.crs) /\ Do([op |-> "init", h |-> h, i |-> i])
    \/ \E k \in Set(M.modes) : Api!SetSquashing(h, k) /\ Do([op |-> "sq", h |-> h, mode |-> k])
    \/ \E z \in Set(M.mins) : Api!SetSquashMin(h, z) /\ Do([op |-> "sqmin", h |-> h, min |-> z])
    \/ M.odd /\ Api!SetUnknownSquashing(h) /\ Do([op |-> "squnk", h |-> h])
    \/ M.odd /\ obj[h].api = "c" /\ Api!QueryNowhere(h) /\ Do([op |-> "qnull", h |-> h])
    \/ \E i \in 1..Len(M.points) : LET p == M.points[i] IN
          Meaningful(h, p) /\ Api!Query(h, p.x, p.y, p.z, 0) /\ Do([op |-> "q", h |-> h, i |-> i])
    \/ \E i \in 1..Len(M.places), k \in {"top", "topo"} : LET p == M.places[i] IN
          Api!QueryElevation(h, k, p.x, p.y) /\ Do([op |-> k, h |-> h, i |-> i])
    \/ Api!Reset(h) /\ Do([op |-> "reset", h |-> h])
    \/ Api!Status(h) /\ Do([op |-> "status", h |-> h])
    \/ Api!Finalize(h) /\ Do([op |-> "fin", h |-> h])
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<obj, err>>

-------------------------------------------------------------------------------
(* All or nothing: an object answers from exactly the files it was last      *)
(* initialized with, which are all in order; otherwise from none.            *)
File(f) == Config.files[f]
UnitOf(m, v) == (CHOOSE p \in {<<m.values[i], m.units[i]>> : i \in 1..Len(m.values)} : p[1] = v)[2]
AllOrNothing == \A h \in Set(M.handles) :
    IF obj[h].phase = "ready"
    THEN /\ \A f \in Set(obj[h].models) : /\ File(f).ok
                                          /\ Set(obj[h].values) \subseteq Set(File(f).model.values)
         /\ \A f, g \in Set(obj[h].models), v \in Set(obj[h].values) : UnitOf(File(f).model, v) = UnitOf(File(g).model, v)
    ELSE obj[h].models = <<>>

(* The answer to a point is that of one model alone, the first that has it.  *)
Alone(o, f) == [o EXCEPT !.models = <<f>>]
Has(o, f, p) == Api!Answering(Alone(o, f), p.x, p.y, p.z, 0) = 1
FirstAlone == \A h \in Set(M.handles) : LET o == obj[h] IN
    o.phase = "ready" => \A p \in Set(M.points) :
       LET v == Api!Values(o, p.x, p.y, p.z, 0)
           n == Len(o.models)
       IN  IF \A i \in 1..n : ~Has(o, o.models[i], p) THEN \A j \in 1..Len(v) : v[j] = Api!NODATA
           ELSE \E i \in 1..n : /\ Has(o, o.models[i], p)
                                /\ \A j \in 1..(i - 1) : ~Has(o, o.models[j], p)
                                /\ v = Api!Values(Alone(o, o.models[i]), p.x, p.y, p.z, 0)
                                (* value by value by name *)
                                /\ \A j \in 1..Len(v) : <<v[j]>> = Api!Values([Alone(o, o.models[i]) EXCEPT !.values = <<o.values[j]>>], p.x, p.y, p.z, 0)

Same(o, p) == [o EXCEPT !.sq = p.sq, !.min = p.min, !.api = p.api]
Others(h) == \A k \in Set(M.handles) : k # h => obj'[k] = obj[k] /\ err'[k] = err[k]
Asking == {"q", "top", "topo", "reset", "status", "qnull"}
Steps == [][LET h == call'.h IN
    (* no object is touched by a call on another; none by being asked *)
    /\ Others(h)
    /\ call'.op \in Asking => obj' = obj
    (* initialization: what it makes does not depend on what was before, other than squashing; refusals are reported *)
    /\ call'.op = "init" =>
          /\ obj'[h].sq = obj[h].sq /\ obj'[h].min = obj[h].min
          /\ LET x == M.inits[call'.i]
                 ok == \A f \in Set(x.fs) : File(f).ok
             IN  /\ ~ok => obj'[h].phase = "failed"
                 /\ obj'[h].phase = "ready" => obj'[h].models = x.fs /\ obj'[h].values = x.vs
                 /\ (obj'[h].phase = "failed") = (reply'.status \in {"error", "exception"} /\ ~reply'.ok)
                 /\ obj[h].api = "c" => (err'[h] = "error" \/ obj'[h].phase = "ready")
    (* without models a query is refused, and an elevation is missing *)
    /\ (call'.op = "q" /\ obj[h].phase # "ready") => reply'.outcome = "error" /\ err'[h] = "error"
    /\ (call'.op \in {"top", "topo"} /\ obj[h].phase # "ready") => reply'.elev = Api!NODATA
    (* a status stays until it is reset or another problem replaces it *)
    /\ (err'[h] = "ok" /\ err[h] # "ok") => call'.op \in {"reset", "new"}
    /\ (call'.op = "reset") => err'[h] = "ok"
    (* settings of squashing commute with initialization and are independent of each other *)
    /\ call'.op = "sq" => obj' = [obj EXCEPT ![h].sq = call'.mode]
    /\ call'.op = "sqmin" => obj'[h].min = call'.min /\ obj'[h].sq = (IF obj[h].sq = 0 THEN 1 ELSE obj[h].sq)
    ]_mcvars

Fields(o) == <<o.phase, o.api, o.models, o.values, o.crs, o.sq, o.min>>
Canon(o, e) == ToString(<<[h \in Set(M.handles) |-> Fields(o[h])], e>>)
Emit == PrintT(<<"EDGE", ToJson([s |-> Canon(obj, err), t |-> Canon(obj', err'), c |-> call'])>>)
===============================================================================
