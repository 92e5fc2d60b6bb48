----------------------------- MODULE VerifyTrace ------------------------------
(* Recorded runs of the info tool, checked against Verify.                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Config == JsonDeserialize(IOEnv.GMG_CONFIG)
Trace  == ndJsonDeserialize(IOEnv.GMG_TRACE)
VARIABLES said, left, l
V == INSTANCE Verify WITH Files <- Config.files
vars == <<said, left, l>>
E == Trace[l]
M == Config.files[E.file]
Match(ok) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, E, IF "file" \in DOMAIN E THEN <<V!Expected(M), [i \in 1..Len(M.blocks) |-> V!BlockOk(M, M.blocks[i])]>> ELSE left>>) /\ FALSE

(* A run announces the models it was given; a section follows for each.      *)
Step ==
    \/ E.op = "run" /\ left' = E.files /\ UNCHANGED said
    \/ E.op = "section" /\ left' = Tail(left) /\ Match(Len(left) > 0 /\ left[1] = E.file)
                        /\ Match(E.verify => V!ReportOk(M, E.steps, E.blocks))
                        /\ Match(E.coordsys /\ M.complete => E.units = M.crs.units)
                        /\ Match(V!SameAsBefore(E.file, E.opts, E.text))
                        /\ V!Say(E.file, E.opts, E.text)
    \/ E.op = "end" /\ Match(E.exit = "ok" /\ left = <<>>) /\ UNCHANGED <<said, left>>

TraceInit == V!VInit /\ l = 1 /\ left = <<>>
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace)>>) /\ d = Len(Trace)
===============================================================================
