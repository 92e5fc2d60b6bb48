------------------------------ MODULE QueryTrace ------------------------------
(* Accepts a recorded run of the real query interface iff it is a behaviour  *)
(* of QueryApi: each line of the trace is one call with its arguments and    *)
(* what it returned (numbers in thousandths).                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Config == JsonDeserialize(IOEnv.GMG_CONFIG)
Trace  == ndJsonDeserialize(IOEnv.GMG_TRACE)

HandleSet == {Trace[i].h : i \in 1..Len(Trace)}
NONE == -2147483647          \* stands for the missing-data value in the trace

VARIABLES obj, err, reply, l, about
Api == INSTANCE QueryApi WITH Files <- Config.files, Crs <- Config.crs, Handles <- HandleSet
vars == <<obj, err, reply, l, about>>

E == Trace[l]

(* A recorded number agrees with an exact one (recorded: nearest thousandth).*)
Agrees(rec, exact) ==
    IF exact = Api!NODATA THEN rec = NONE
    ELSE LET q == Api!RMilli(exact) IN rec = q \/ rec = q + 1

AgreeAll(rec, exact) == Len(rec) = Len(exact) /\ \A i \in 1..Len(rec) : Agrees(rec[i], exact[i])

(* In frames where the implementation must round (r.ex = FALSE), a point     *)
(* exactly on a boundary may fall on either side; not so on the sides of the *)
(* domain if it rounds but does not compute them (r.side).  Elsewhere it     *)
(* may only where a formula for its position in the column may round.        *)
Side(r) == IF "side" \in DOMAIN r THEN r.side ELSE FALSE
LenientRowXY(r) == ~r.ex /\ ~Side(r) /\ Api!ToTheHairXY(obj[E.h], r.x, r.y)
LenientRow(r) == IF r.ex THEN Api!RoughZ(obj[E.h], r.x, r.y, r.z)
                 ELSE LenientRowXY(r) \/ Api!ToTheHairZ(obj[E.h], r.x, r.y, r.z)
Loose(S) == IF S = {} THEN TRUE ELSE TLCSet(1, TLCGet(1) + Cardinality(S))
Lenient == LenientRow(E)
LenientElevRow(r, kind) == ~r.ex /\ (LenientRowXY(r) \/ Api!ToTheHairElev(obj[E.h], kind, r.x, r.y))
LenientXY == LenientRowXY(E)
LenientElev == LenientElevRow(E, E.op)

AnyQuery ==
    /\ TLCSet(1, TLCGet(1) + 1)
    /\ obj' = obj
    /\ \E out \in {"ok", "warn"} :
          /\ err' = [err EXCEPT ![E.h] = IF out = "warn" /\ obj[E.h].api = "c" THEN "warn" ELSE @]
          /\ E.status = IF obj[E.h].api = "c" THEN err'[E.h] ELSE out
          /\ reply' = [kind |-> "lenient"]

AnyElevation ==
    /\ TLCSet(1, TLCGet(1) + 1)
    /\ obj' = obj
    /\ err' = [err EXCEPT ![E.h] = IF E.elev = NONE /\ obj[E.h].api = "c" THEN "warn" ELSE @]
    /\ reply' = [kind |-> "lenient"]

Match(ok) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, E, reply'>>) /\ FALSE

(* What the kept message is about: the problem of the last failing call.     *)
Says ==
    obj[E.h].api = "c" =>
        IF err[E.h] = "ok" THEN E.says.empty
        ELSE /\ ~E.says.empty
             /\ \E a \in about[E.h] :
                   CASE a[1] = "file"  -> \E i \in 1..Len(E.says.files) : E.says.files[i] = a[2]
                     [] a[1] = "value" -> \E i \in 1..Len(E.says.values) : E.says.values[i] = a[2]
                     [] a[1] = "point" -> \E i \in 1..Len(E.says.points) : E.says.points[i] = a[2]
                     [] OTHER -> TRUE

AboutNext ==
    IF obj[E.h].api # "c" THEN about[E.h]
    ELSE CASE E.op = "init" -> IF Api!InitVerdict(E.fs, E.vs) = "ok" THEN about[E.h] ELSE Api!InitProblems(E.fs, E.vs)
           [] E.op = "q" -> IF ~Api!Usable(obj[E.h]) \/ Len(obj[E.h].values) = 0 THEN {<<"uninit">>}
                            ELSE IF reply'.kind = "values" THEN IF reply'.outcome = "warn" THEN {<<"point", l>>} ELSE about[E.h]
                            ELSE about[E.h] \cup {<<"point", l>>}          \* lenient
           [] E.op \in {"top", "topo"} -> IF E.elev = NONE THEN {<<"point", l>>} ELSE about[E.h]
           [] E.op \in {"squnk", "qnull"} -> {<<"option">>}
           [] E.op \in {"reset", "new"} -> {}
           [] OTHER -> about[E.h]

Step ==
    \/ E.op = "new"    /\ Api!New(E.h, E.api)
    \/ E.op = "init"   /\ Api!Initialize(E.h, E.fs, E.vs, E.crs) /\ Match(reply'.status = E.status)
    \/ E.op = "sq"     /\ Api!SetSquashing(E.h, E.mode) /\ Match(reply'.status = E.status)
    \/ E.op = "sqmin"  /\ Api!SetSquashMin(E.h, E.min) /\ Match(reply'.status = E.status)
    \/ E.op = "squnk"  /\ Api!SetUnknownSquashing(E.h) /\ Match(reply'.status = E.status)
    \/ E.op = "qnull"  /\ Api!QueryNowhere(E.h) /\ Match(reply'.status = E.status)
    \/ E.op = "null"   /\ UNCHANGED <<obj, err>>
                       /\ reply' = [kind |-> "null", status |-> Api!NullReply(E.call)]
                       /\ Match(reply'.status = E.status)
    \/ E.op = "q"      /\ IF Lenient THEN AnyQuery
                          ELSE /\ Api!Query(E.h, E.x, E.y, E.z, E.eps)
                               /\ Match(/\ reply'.status = E.status
                                        /\ (reply'.outcome = "error" \/ AgreeAll(E.vals, reply'.vals)))
    \/ E.op \in {"top", "topo"}
                       /\ IF LenientElev THEN AnyElevation
                          ELSE /\ Api!QueryElevation(E.h, E.op, E.x, E.y)
                               /\ Match(Agrees(E.elev, reply'.elev))
    \/ E.op = "rows"                  \* E.form: the answer has the shape promised and stays as it is
                       /\ Api!QueryRows(E.h, E.rows)
                       /\ LET hair == {i \in 1..Len(E.rows) : LenientRow(E.rows[i])}
                          IN  /\ Loose(hair)
                              /\ Match(/\ reply'.status = E.status
                                       /\ E.status = "ok" =>
                                            /\ E.form = "ok" /\ Len(E.sts) = Len(E.rows) /\ Len(E.vals) = Len(E.rows)
                                            /\ \A i \in 1..Len(E.rows) \ hair :
                                                   /\ E.sts[i] \in {reply'.outcomes[i], "-"}
                                                   /\ AgreeAll(E.vals[i], reply'.vals[i]))
    \/ E.op = "erows"  /\ Api!ElevationRows(E.h, E.kind, E.rows)
                       /\ LET hair == {i \in 1..Len(E.rows) : LenientElevRow(E.rows[i], E.kind)}
                          IN  /\ Loose(hair)
                              /\ Match(/\ E.form = "ok" /\ Len(E.elevs) = Len(E.rows)
                                       /\ \A i \in 1..Len(E.rows) \ hair : Agrees(E.elevs[i], reply'.elevs[i]))
    \/ E.op = "merows" /\ UNCHANGED <<obj, err>>     \* the surface of one model, at points within it
                       /\ reply' = [kind |-> "erows", elevs |-> [i \in 1..Len(E.rows) |->
                                       LET f == obj[E.h].models[1]
                                           p == Api!Place(obj[E.h], f, E.rows[i].x, E.rows[i].y)
                                       IN  IF E.kind = "top" THEN Api!TopAt(Config.files[f].model, p)
                                           ELSE Api!TopoAt(Config.files[f].model, p)]]
                       /\ LET hair == {i \in 1..Len(E.rows) : LenientRowXY(E.rows[i])}
                          IN  /\ Loose(hair)
                              /\ Match(/\ E.form = "ok" /\ Len(E.elevs) = Len(E.rows)
                                       /\ \A i \in 1..Len(E.rows) \ hair : Agrees(E.elevs[i], reply'.elevs[i]))
    \/ E.op = "notpoints" /\ Api!NotPoints(E.h) /\ Match(reply'.status = E.status)
    \* The same question put to several interfaces: the answers are the same (apart: differences in units of 1e-10
    \* of the number), also where rounding decides the answer.
    \/ E.op = "same"   /\ UNCHANGED <<obj, err>>
                       /\ reply' = [kind |-> "same"]
                       /\ Match(/\ \A i \in 1..Len(E.apart) : E.apart[i] <= E.within
                                /\ \A i, j \in 1..Len(E.outcomes) : E.outcomes[i] = E.outcomes[j])
    \/ E.op \in {"mtop", "mtopo"}     \* the surface of one model, whatever its top
                       /\ LET f == obj[E.h].models[1]
                              p == Api!Place(obj[E.h], f, E.x, E.y)
                              m == Config.files[f].model
                              e == IF E.op = "mtop" THEN Api!TopAt(m, p) ELSE Api!TopoAt(m, p)
                          IN  /\ UNCHANGED <<obj, err>>
                              /\ reply' = [kind |-> "elevation", elev |-> e]
                              /\ (LenientXY \/ Match(Agrees(E.elev, e)))
    \/ E.op = "tr"     /\ UNCHANGED <<obj, err>>
                       /\ reply' = [kind |-> "point", at |-> Api!Transformed(E.i, E.j, E.x, E.y)]
                       /\ Match(/\ AgreeAll(E.res, reply'.at \o <<Api!Q(25, 2)>>)
                                /\ AgreeAll(E.back, <<E.x, E.y, Api!Q(25, 2)>>))
    \/ E.op = "xy"     /\ UNCHANGED <<obj, err>>
                       /\ reply' = [kind |-> "point", at |-> Api!InXYOrder(E.i, E.x, E.y)]
                       /\ Match(AgreeAll(E.res, reply'.at))
    \/ E.op = "status" /\ Api!Status(E.h) /\ Match(reply'.status = E.status /\ Says)
    \/ E.op = "reset"  /\ Api!Reset(E.h)
    \/ E.op = "fin"    /\ Api!Finalize(E.h) /\ Match(reply'.status = E.status)

TraceInit == Api!Init /\ l = 1 /\ TLCSet(1, 0) /\ about = [h \in HandleSet |-> {}]
TraceNext == /\ l <= Len(Trace)
             /\ Step
             /\ about' = [about EXCEPT ![E.h] = AboutNext]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars

TraceAccepted ==
    LET d == TLCGet("stats").diameter - 1
    IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace), "LENIENT", TLCGet(1)>>) /\ d = Len(Trace)
===============================================================================
