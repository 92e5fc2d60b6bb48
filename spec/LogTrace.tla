------------------------------- MODULE LogTrace -------------------------------
(* Recorded calls on error handlers and reads of their log files, checked    *)
(* against ErrorLog.                                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.GMG_TRACE)
HandleSet == {Trace[i].h : i \in 1..Len(Trace)}
FileSet == {Trace[i].f : i \in {j \in 1..Len(Trace) : Trace[j].op \in {"file", "read"}}}
VARIABLES file, active, text, sure, l
L == INSTANCE ErrorLog WITH Handles <- HandleSet, LogFiles <- FileSet
E == Trace[l]
vars == <<file, active, text, sure, l>>
Match(ok) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, E, IF E.op = "read" THEN <<text[E.f], sure[E.f]>> ELSE <<>>>>) /\ FALSE
Step ==
    \/ E.op = "new"  /\ L!Create(E.h)
    \/ E.op = "file" /\ L!Choose(E.h, E.f) /\ Match(E.name = E.f)
    \/ E.op = "on"   /\ L!Turn(E.h, E.on)
    \/ E.op = "msg"  /\ L!Log(E.h, E.t)
    \/ E.op = "ask"  /\ (IF E.miss THEN L!Log(E.h, E.t) ELSE UNCHANGED <<file, active, text, sure>>) /\ Match(~E.bad)
    \/ E.op = "del"  /\ L!Destroy(E.h)
    \/ E.op = "read" /\ UNCHANGED <<file, active, text, sure>> /\ Match(L!Readable(E.f, E.toks))
TraceInit == L!LogInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace)>>) /\ d = Len(Trace)
===============================================================================
