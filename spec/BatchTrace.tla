------------------------------ MODULE BatchTrace ------------------------------
(* Splits made by the real batch generators, checked against Batches.  Small *)
(* imports are followed batch by batch, others judged as a whole.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace  == ndJsonDeserialize(IOEnv.GMG_TRACE)
VARIABLES n, limit, done, count, l
B == INSTANCE Batches
vars == <<n, limit, done, count, l>>
E == Trace[l]
Match(ok) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, E, n, limit, done, count>>) /\ FALSE
Step ==
    \/ E.op = "start" /\ E.r = "ok" /\ B!Start(E.n, E.limit)
    \/ E.op = "next"  /\ Match(B!Allowed(E.b)) /\ B!Take(E.b)
    \/ E.op = "end"   /\ Match(B!Finished) /\ B!End
    \/ E.op = "all"   /\ Match(E.r = "ok" /\ B!GoodImport(E.n, E.limit, E.bs)) /\ UNCHANGED <<n, limit, done, count>>
TraceInit == n = <<>> /\ limit = 0 /\ done = <<>> /\ count = 0 /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace)>>) /\ d = Len(Trace)
===============================================================================
