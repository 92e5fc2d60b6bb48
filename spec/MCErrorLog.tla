------------------------------ MODULE MCErrorLog ------------------------------
(* Exhaustive exploration of ErrorLog for one handler and two files, with a  *)
(* history of the calls from which the property is stated independently.     *)
EXTENDS ErrorLog, TLC, Json
VARIABLES hist, call
mcvars == <<file, active, text, sure, hist, call>>

MCInit == LogInit /\ hist = <<>> /\ call = [op |-> "init"]

Msgs == {"a", "b"}
Do(c) == hist' = Append(hist, c) /\ call' = c

MCNext == \E h \in Handles :
    \/ \E f \in LogFiles : Choose(h, f) /\ Do([op |-> "file", h |-> h, f |-> f])
    \/ \E b \in BOOLEAN : Turn(h, b) /\ Do([op |-> "on", h |-> h, on |-> b])
    \/ \E m \in Msgs : Log(h, m) /\ Do([op |-> "msg", h |-> h, m |-> m])
MCSpec == MCInit /\ [][MCNext]_mcvars
Bound == Len(hist) <= 6 /\ \A f \in LogFiles : Len(text[f]) <= 3
View == lvars

(* From the calls alone: what file f must hold.                              *)
RECURSIVE Expected(_, _, _, _, _)
Expected(f, i, cur, on, acc) ==
    IF i > Len(hist) THEN acc
    ELSE LET c == hist[i] IN
         CASE c.op = "file" -> Expected(f, i + 1, c.f, TRUE, IF c.f = f THEN <<>> ELSE acc)
           [] c.op = "on"   -> Expected(f, i + 1, cur, c.on, acc)
           [] c.op = "msg"  -> Expected(f, i + 1, cur, on, IF cur = f /\ on THEN Append(acc, c.m) ELSE acc)
HoldsExactly == \A f \in LogFiles : text[f] = Expected(f, 1, None, TRUE, <<>>)
SureIsPrefix == \A f \in LogFiles : sure[f] <= Len(text[f])

(* Turning logging off or on never changes what was written; choosing a file *)
(* empties that file only.                                                   *)
Steps == [][/\ (call'.op = "on" => text' = text)
            /\ (call'.op = "file" => \A f \in LogFiles : f # call'.f => text'[f] = text[f])
            /\ (call'.op = "msg" => \A f \in LogFiles : \E t \in {<<>>, <<call'.m>>} : text'[f] = text[f] \o t)]_mcvars

Emit == PrintT(<<"EDGE", ToJson([s |-> ToString(lvars), t |-> ToString(lvars'), c |-> call'])>>)
===============================================================================
