------------------------------ MODULE CreateTrace -----------------------------
(* Recorded runs of the application and the files they left, checked against *)
(* Create.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Config == JsonDeserialize(IOEnv.GMG_CONFIG)
Trace  == ndJsonDeserialize(IOEnv.GMG_TRACE)
VARIABLES root, meta, data, l
C == INSTANCE Create WITH Configs <- Config.configs, Parts <- {Config.parts[i] : i \in 1..Len(Config.parts)}
vars == <<root, meta, data, l>>
E == Trace[l]
Match(ok, why) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, why, E.op, root, meta, data>>) /\ FALSE
SetOf(s) == {s[i] : i \in 1..Len(s)}
G(i) == Config.configs[i]
IsBlock(p, g) == p \in C!BlockNames(G(g))

(* Known finding: only the mirrored points are excused, nothing else.        *)
Finding(what) == PrintT(<<"FINDING", what>>)
First(s, t) == CHOOSE i \in 1..Len(s) : i > Len(t) \/ s[i] # t[i]
Contents(p, mirror, how) == LET d == data[p] IN
    IF IsBlock(p, d.g) THEN C!BlockData(G(d.g), G(IF d.top = 0 THEN d.g ELSE d.top), G(IF d.topo = 0 THEN d.g ELSE d.topo), p, mirror, how)
    ELSE C!SurfaceData(G(d.g), p)
Expected(p) == Contents(p, FALSE, 0)
DataOk(p, v) == \/ \E how \in C!Hows(G(data[p].g)) : v = Contents(p, FALSE, how)
                \/ /\ IsBlock(p, data[p].g) /\ C!Blk(G(data[p].g), p).varz
                   /\ v = Contents(p, TRUE, 0) /\ Finding("variable-z-mirrored")
DataWhy(p, v) == LET x == Expected(p) IN IF Len(x) # Len(v) THEN <<"data of", p, "sizes", Len(x), Len(v)>>
                 ELSE <<"data of", p, "first at", First(v, x), "should be", x[First(v, x)], "is", v[First(v, x)]>>
PartOk(q) == /\ Match(data[q.name].g # 0, <<"unexpected part", q.name>>)
             /\ (meta[q.name] > 0 => Match(q.attrs = G(meta[q.name]).attrs[q.name], <<"metadata of", q.name, q.attrs>>))
             /\ (data[q.name].g > 0 => IF DataOk(q.name, q.v) THEN TRUE ELSE Match(FALSE, DataWhy(q.name, q.v)))
RootWhy(x) == {f \in DOMAIN x : f \notin DOMAIN E.root \/ E.root[f] # x[f]}
FileOk == /\ (root > 0 => Match(RootWhy(G(root).root) = {}, <<"metadata of the model", RootWhy(G(root).root)>>))
          /\ (root = 0 => Match(DOMAIN E.root = {}, "metadata of the model that were never written"))
          /\ \A q \in SetOf(E.parts) : PartOk(q)
          /\ Match(\A p \in SetOf(Config.parts) : data[p].g > 0 => \E q \in SetOf(E.parts) : q.name = p, "a part is missing")

Step ==
    \/ E.op = "new" /\ root' = 0 /\ meta' = [p \in DOMAIN meta |-> 0] /\ data' = [p \in DOMAIN data |-> C!From(0, 0, 0)]
    \/ E.op = "run" /\ E.r = "ok" /\ Match(C!CanRun(E.g, SetOf(E.steps)), "a run that should have been refused") /\ C!Run(E.g, SetOf(E.steps))
    \/ E.op = "run" /\ E.r = "interrupted" /\ C!Interrupted(E.g, SetOf(E.steps))
    \/ E.op = "run" /\ E.r = "failed" /\ Match(C!MustRefuse(E.g, SetOf(E.steps)), <<"a run that should have been completed", E.why>>)
       /\ C!Interrupted(E.g, SetOf(E.steps))
    \/ E.op = "update" /\ Match(E.r = "ok" /\ C!CanUpdate(E.g), <<"an update that should have been completed", E.why>>) /\ C!Update(E.g)
    \/ E.op = "file" /\ FileOk /\ UNCHANGED <<root, meta, data>>

TraceInit == C!CInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace)>>) /\ d = Len(Trace)
===============================================================================
