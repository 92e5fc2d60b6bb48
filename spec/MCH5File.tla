------------------------------- MODULE MCH5File -------------------------------
(* Exhaustive exploration of handles on two files (one of them absent at     *)
(* first) and one that is no such file.                                      *)
EXTENDS H5File, TLC, Json
VARIABLES call
mcvars == <<hnd, disk, share, told, call>>
MCInit == HInit /\ call = [op |-> "init"]
Do(c) == call' = c
MCNext == \E h \in Handles :
    \/ New(h) /\ Do([op |-> "new", h |-> h])
    \/ Close(h) /\ Do([op |-> "close", h |-> h])
    \/ Delete(h) /\ Do([op |-> "delete", h |-> h])
    \/ IsOpen(h) /\ Do([op |-> "isopen", h |-> h])
    \/ \E f \in Paths, m \in {"r", "w", "c"} : Open(h, f, m) /\ Do([op |-> "open", h |-> h, f |-> f, mode |-> m])
    \/ Group(h, "g") /\ Do([op |-> "group", h |-> h, p |-> "g"])
    \/ Window(h, "g/d", <<1>>, <<1>>) /\ Do([op |-> "read", h |-> h, p |-> "g/d", o |-> <<1>>, d |-> <<1>>])
    \/ Window(h, "g/d", <<1>>, <<2>>) /\ Do([op |-> "read", h |-> h, p |-> "g/d", o |-> <<1>>, d |-> <<2>>])
    \/ Read(h, "g", "t", "text", FALSE) /\ Do([op |-> "attr", h |-> h, p |-> "g", a |-> "t", kind |-> "text", list |-> FALSE])
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<hnd, disk, share>>

Node(p, k, n, at) == [path |-> p, kind |-> k, n |-> n, a |-> 3, b |-> 1, m |-> 7, attrs |-> at]
MCContents == <<[valid |-> TRUE, nodes |-> <<Node("", "group", <<>>, <<>>),
                                             Node("g", "group", <<>>, <<[name |-> "t", kind |-> "text", list |-> FALSE, v |-> <<"x">>]>>),
                                             Node("g/d", "data", <<2>>, <<>>)>>],
                [valid |-> FALSE, nodes |-> <<>>]>>
MCStart == [p \in Paths |-> CASE p = "f" -> 1 [] p = "junk" -> 2 [] OTHER -> 0]

(* A file counts as open exactly while some handle has it open.              *)
ShareMeaning == \A f \in Paths : share[f] # "" <=> \E h \in Handles : hnd[h].st = "open" /\ hnd[h].f = f
OpenIsReadable == \A h \in Handles : hnd[h].st = "open" => IsH5(disk[hnd[h].f])
(* A refusal, and a question, change nothing; files change only by creation. *)
Steps == [][/\ (told'.r = "refused" => UNCHANGED <<hnd, disk, share>>)
            /\ (call'.op \notin {"new", "open", "close", "delete"} => UNCHANGED <<hnd, disk, share>>)
            /\ (disk' # disk => call'.op = "open" /\ call'.mode = "c")
            /\ (call'.op = "open" /\ hnd[call'.h].st = "open" => told'.r = "refused")
            /\ (call'.op \in {"close", "delete", "new"} => told'.r = "ok")]_mcvars
(* A window that is answered lies inside the array, and is its part.         *)
Emit == PrintT(<<"EDGE", ToJson([s |-> ToString(View), t |-> ToString(<<hnd', disk', share'>>), c |-> call'])>>)
===============================================================================
