---------------------------- MODULE DescribeTrace -----------------------------
(* Recorded runs of the info tool, checked against Describe.                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Config == JsonDeserialize(IOEnv.GMG_CONFIG)
Trace  == ndJsonDeserialize(IOEnv.GMG_TRACE)
VARIABLES left, l
D == INSTANCE Describe
vars == <<left, l>>
E == Trace[l]
Match(ok) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, E, IF "file" \in DOMAIN E THEN [p \in D!Asked(E.opts) |-> D!Facts(Config.files[E.file], p)] ELSE left>>) /\ FALSE
Range(s) == {s[i] : i \in 1..Len(s)}

(* A run announces the models it was given; a section follows for each, in   *)
(* that order.  A run that is refused shows nothing, one that asks for help  *)
(* shows no models.  A model that cannot be opened ends the run.             *)
Step ==
    \/ E.op = "run" /\ left' = E.files
    \/ E.op = "section" /\ left' = Tail(left) /\ Match(Len(left) > 0 /\ left[1] = E.file)
                        /\ Match(Range(E.parts) = D!Asked(E.opts))
                        /\ Match(D!Complete(Config.files[E.file], E.facts, D!Asked(E.opts)))
                        /\ Match(D!Listed(Config.files[E.file], E.facts))
    \/ E.op = "end" /\ left' = <<>>
                    /\ Match(CASE E.kind = "describe" -> E.exit = "ok" /\ left = <<>>
                               [] E.kind = "help"     -> E.exit = "ok" /\ E.usage /\ left = E.files
                               [] E.kind = "refused"  -> E.exit = "error" /\ left = E.files
                               [] E.kind = "missing"  -> E.exit = "error" /\ Len(left) = Len(E.files) - E.good)

TraceInit == l = 1 /\ left = <<>>
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace)>>) /\ d = Len(Trace)
===============================================================================
