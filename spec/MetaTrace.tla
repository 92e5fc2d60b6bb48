------------------------------ MODULE MetaTrace -------------------------------
(* Recorded use of model objects, checked against Metadata.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Config == JsonDeserialize(IOEnv.GMG_CONFIG)
Trace  == ndJsonDeserialize(IOEnv.GMG_TRACE)
VARIABLES mod, told, l
X == INSTANCE Metadata WITH Files <- Config.files, Handles <- {"a", "b", "c"}
vars == <<mod, told, l>>
E == Trace[l]
Match(ok) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, E, told'>>) /\ FALSE
SetOf(s) == {s[i] : i \in 1..Len(s)}

(* A refusal names everything that is missing, and nothing that is there.    *)
Answer == IF told'.r = "ok" THEN E.r = "ok"
          ELSE E.r = "refused" /\ told'.names \subseteq SetOf(E.named) /\ SetOf(E.named) \subseteq told'.may

Step ==
    \/ E.op = "new"    /\ X!New(E.h) /\ Match(Answer)
    \/ E.op = "open"   /\ X!Open(E.h, E.f) /\ Match(Answer)
    \/ E.op = "load"   /\ X!Load(E.h) /\ Match(Answer)
    \/ E.op = "get"    /\ X!Get(E.h) /\ Match({<<E.items[i].k, E.items[i].v>> : i \in 1..Len(E.items)} = told'.facts)
    \/ E.op = "getroot" /\ X!Get(E.h) /\ Match({<<E.items[i].k, E.items[i].v>> : i \in 1..Len(E.items)} = X!RootFacts(Config.files[mod[E.h].f]))
    \/ E.op = "close"  /\ X!Close(E.h) /\ Match(Answer)
    \/ E.op = "delete" /\ X!Delete(E.h) /\ Match(Answer)

TraceInit == X!MInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace)>>) /\ d = Len(Trace)
===============================================================================
