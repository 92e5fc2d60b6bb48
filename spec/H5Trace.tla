-------------------------------- MODULE H5Trace -------------------------------
(* Recorded use of file handles, checked against H5File.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Config == JsonDeserialize(IOEnv.GMG_CONFIG)
Trace  == ndJsonDeserialize(IOEnv.GMG_TRACE)
VARIABLES hnd, disk, share, told, l
X == INSTANCE H5File WITH Handles <- {Config.handles[i] : i \in 1..Len(Config.handles)},
                          Paths <- DOMAIN Config.start, Contents <- Config.contents, Start <- Config.start
vars == <<hnd, disk, share, told, l>>
E == Trace[l]
Match(ok) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, E, told'>>) /\ FALSE
SetOf(s) == {s[i] : i \in 1..Len(s)}
Same == E.r = told'.r /\ E.v = told'.v
(* A refusal is explained: the message names what was asked for.             *)
Named == E.r = "refused" => E.named

Step ==
    \/ E.op = "new"     /\ X!New(E.h) /\ Match(Same)
    \/ E.op = "delete"  /\ X!Delete(E.h) /\ Match(Same)
    \/ E.op = "close"   /\ X!Close(E.h) /\ Match(Same)
    \/ E.op = "cache"   /\ UNCHANGED <<hnd, disk, share, told>> /\ Match(E.r = "ok")
    \/ E.op = "isopen"  /\ X!IsOpen(E.h) /\ Match(Same)
    \/ E.op = "open"    /\ X!Open(E.h, E.f, E.mode) /\ Match(Same /\ (hnd[E.h].st = "closed" => Named))
    \/ E.op = "group"   /\ X!Group(E.h, E.p) /\ Match(Same)
    \/ E.op = "dataset" /\ X!Dataset(E.h, E.p) /\ Match(Same)
    \/ E.op = "hasattr" /\ X!Attr(E.h, E.p, E.a) /\ Match(Same)
    \/ E.op = "dims"    /\ X!Dims(E.h, E.p) /\ Match(Same /\ Named)
    \/ E.op = "names"   /\ X!Names(E.h, E.p, E.kids)
                        /\ Match(E.r = told'.r /\ Named /\ SetOf(E.v) = {k.name : k \in SetOf(told'.v)} /\ Len(E.v) = Len(told'.v))
    \/ E.op = "attr"    /\ X!Read(E.h, E.p, E.a, E.kind, E.list) /\ Match(Same /\ Named)
    \/ E.op = "read"    /\ X!Window(E.h, E.p, E.o, E.d) /\ Match(Same /\ Named)
    \/ E.op = "slab"    /\ X!Kept(E.h, E.p, E.d) /\ Match(Same)
    \/ E.op = "at"      /\ X!Ask1(E.h, E.p, E.d, E.how, E.q) /\ Match(Same)

TraceInit == X!HInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  PrintT(<<"CONSUMED", d, "OF", Len(Trace)>>) /\ d = Len(Trace)
===============================================================================
