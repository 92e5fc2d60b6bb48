-------------------------------- MODULE MCMeta --------------------------------
(* Every history of two model objects over a few files (also written to disk *)
(* by the harness); the transitions are printed and replayed.                *)
EXTENDS TLC, Json, IOUtils, Integers, Sequences
Config == JsonDeserialize(IOEnv.GMG_CONFIG)
Hs == {"a", "b"}
VARIABLES mod, told, call
X == INSTANCE Metadata WITH Files <- Config.files, Handles <- Hs
mcvars == <<mod, told, call>>
Fs == 1..Len(Config.files)
MCInit == X!MInit /\ call = [op |-> "init", h |-> "a"]
Do(c) == call' = c
MCNext == \E h \in Hs :
    \/ X!New(h) /\ Do([op |-> "new", h |-> h])
    \/ \E f \in Fs : X!Open(h, f) /\ Do([op |-> "open", h |-> h, f |-> f])
    \/ X!Load(h) /\ Do([op |-> "load", h |-> h])
    \/ X!Get(h) /\ Do([op |-> "get", h |-> h])
    \/ X!Close(h) /\ Do([op |-> "close", h |-> h])
    \/ X!Delete(h) /\ Do([op |-> "delete", h |-> h])
MCSpec == MCInit /\ [][MCNext]_mcvars
View == mod

(* Only a file with every required attribute can be in use, and everything   *)
(* that is stored in it can be asked for.                                    *)
InUse == \A h \in Hs : mod[h].st = "loaded" =>
    LET F == Config.files[mod[h].f]
    IN  /\ F.exists /\ X!RootRequired \subseteq DOMAIN F.root
        /\ \A p \in X!Parts(F), a \in {"x", "y"} : X!Has(p, a \o "_resolution") \/ X!Has(p, a \o "_coordinates")
        /\ \A a \in DOMAIN F.root : <<a, F.root[a]>> \in X!Facts(F)
Steps == [][LET h == call'.h IN
    /\ \A k \in Hs : k # h => mod'[k] = mod[k]
    /\ call'.op = "get" => mod' = mod /\ told'.facts = X!Facts(Config.files[mod[h].f])
    (* whatever was done with the object before, a file is accepted, or refused for all that it lacks *)
    /\ call'.op = "load" => LET F == Config.files[mod[h].f]
                            IN  told'.r = "ok" <=> (X!Missing(F) = {} /\ ~X!Wrong(F))
    /\ (call'.op = "load" /\ told'.r = "refused" /\ Config.files[mod[h].f].grouped) => told'.names = X!Missing(Config.files[mod[h].f])
    /\ call'.op \in {"new", "close", "delete"} => told'.r = "ok"
    ]_mcvars
Canon(m) == ToString([h \in Hs |-> <<m[h].st, m[h].f>>])
Emit == PrintT(<<"EDGE", ToJson([s |-> Canon(mod), t |-> Canon(mod'), c |-> call'])>>)
===============================================================================
