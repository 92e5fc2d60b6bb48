------------------------------- MODULE ErrorLog -------------------------------
(* Log files of error handlers.  A handler writes to at most one file.       *)
(* Choosing a file empties it and starts logging to it; logging can be       *)
(* turned off and on.  Messages go to the end of the file while logging is   *)
(* on.  A message is surely in the file once the handler has let go of the   *)
(* file (by any change of the setting); until then a prefix may be there.    *)
EXTENDS Integers, Sequences

CONSTANTS Handles, LogFiles

VARIABLES file,     \* per handler: its file, or "none"
          active,   \* per handler: is logging on
          text,     \* per file: messages, oldest first
          sure      \* per file: how many of them are surely there
lvars == <<file, active, text, sure>>

None == "none"
LogInit == /\ file = [h \in Handles |-> None]
           /\ active = [h \in Handles |-> TRUE]
           /\ text = [f \in LogFiles |-> <<>>]
           /\ sure = [f \in LogFiles |-> 0]

Settled(s, f) == IF f = None THEN s ELSE [s EXCEPT ![f] = Len(text[f])]

Create(h) == /\ file' = [file EXCEPT ![h] = None]
             /\ active' = [active EXCEPT ![h] = TRUE]
             /\ UNCHANGED <<text, sure>>

Choose(h, f) ==
    /\ \A k \in Handles : k # h => file[k] # f
    /\ file' = [file EXCEPT ![h] = f]
    /\ active' = [active EXCEPT ![h] = TRUE]
    /\ text' = [text EXCEPT ![f] = <<>>]
    /\ sure' = [Settled(sure, file[h]) EXCEPT ![f] = 0]

Turn(h, on) ==
    /\ active' = [active EXCEPT ![h] = on]
    /\ sure' = Settled(sure, file[h])
    /\ UNCHANGED <<file, text>>

Log(h, m) ==
    /\ text' = IF file[h] # None /\ active[h] THEN [text EXCEPT ![file[h]] = Append(@, m)] ELSE text
    /\ UNCHANGED <<file, active, sure>>

Destroy(h) ==
    /\ file' = [file EXCEPT ![h] = None]
    /\ sure' = Settled(sure, file[h])
    /\ UNCHANGED <<active, text>>

(* What may be read from a file now.                                         *)
Readable(f, toks) ==
    /\ Len(toks) >= sure[f] /\ Len(toks) <= Len(text[f])
    /\ \A i \in 1..Len(toks) : toks[i] = text[f][i]
===============================================================================
