---------------------------- MODULE EndToEndTrace -----------------------------
(* Models that the application created, queried with the tools, checked      *)
(* against EndToEnd.  Numbers are in hundredths.                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Config == JsonDeserialize(IOEnv.GMG_CONFIG)
Trace  == ndJsonDeserialize(IOEnv.GMG_TRACE)
VARIABLES g, l
S == INSTANCE EndToEnd WITH Configs <- Config.configs
vars == <<g, l>>
E == Trace[l]
Match(ok, why) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, why, E>>) /\ FALSE
R(p) == S!Q(p[1], p[2])
G == Config.configs[g]

(* Ground above the top of the model is not in the model (a thousandth of a  *)
(* unit, up to a hundredth of a tick, is left open).                         *)
(* got is what was answered, in hundredths, NONE for missing data.           *)
Is(got, want, slack) == got # S!C!NONE /\ LET d == S!RSub(S!I(got), S!RMul(S!I(100), want))
                            IN  S!RLe(S!I(-slack), d) /\ S!RLe(d, S!I(slack))

Step ==
    \/ E.op = "create" /\ Match(E.r = "ok", E.why) /\ g' = E.g
    \/ E.op = "sound" /\ Match(~G.tiles \/ (E.exit = "ok" /\ E.verdicts # <<>> /\ \A i \in 1..Len(E.verdicts) : E.verdicts[i] = "OK"), "a created model that is not sound") /\ UNCHANGED g
    \/ E.op = "tool" /\ Match(E.exit = "ok" /\ E.rows = E.asked, <<"a run of the tool", E.exit, E.why>>) /\ UNCHANGED g
    \/ E.op = "point" /\ UNCHANGED g
       /\ LET x == R(E.x)  y == R(E.y)  z == R(E.z)
          IN  IF E.inside
              THEN /\ Match(S!InDomain(G, x, y) /\ S!LevelAt(G, x, y, z) = R(E.elev), <<"not the point that was meant", S!LevelAt(G, x, y, z)>>)
                   /\ Match(Len(E.got) = G.src.n /\ \A v \in 1..G.src.n : Is(E.got[v], S!Answer(G, v, x, y, z), E.slack), [v \in 1..G.src.n |-> S!Answer(G, v, x, y, z)])
              ELSE Match(Len(E.got) = G.src.n /\ \A v \in 1..G.src.n : E.got[v] = S!C!NONE, "a point outside")
    \/ E.op = "elevation" /\ UNCHANGED g
       /\ LET x == R(E.x)  y == R(E.y)
              top == S!TopAt(G, x, y)
              want == IF E.surface = "top" THEN top ELSE S!GroundAt(G, x, y)
              above == S!RSub(want, top)
          IN  IF E.inside
              THEN /\ Match(S!InDomain(G, x, y), "not the point that was meant")
                   /\ Match(\/ S!RSign(above) <= 0 /\ Is(E.got, want, 1)
                            \/ S!RSign(above) > 0 /\ E.got = S!C!NONE
                            \/ S!RSign(above) > 0 /\ S!RLe(S!RMul(S!I(40), above), S!I(1)) /\ Is(E.got, want, 1), <<want, top>>)
              ELSE Match(E.got = S!C!NONE, "a point outside")

TraceInit == l = 1 /\ g = 0
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace)>>) /\ d = Len(Trace)
===============================================================================
