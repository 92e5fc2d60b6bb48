-------------------------------- MODULE H5File --------------------------------
(* Handles on files of named arrays and attributes.  A handle is closed or   *)
(* open on one file; every operation either answers exactly what is stored   *)
(* or is refused, and neither changes the state of any handle.               *)
(*                                                                           *)
(* A file's content is a sequence of nodes                                   *)
(*   [path, kind, n, a, b, m, attrs]                                         *)
(* kind is "group" or "data"; an array of shape n holds at (row-major)       *)
(* position k the number (a * k + b) % m; attrs is a sequence of             *)
(*   [name, kind, list, v]   kind "number" or "text", v the values in order. *)
(* The root group has the path "".                                           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Handles, Paths, Contents, Start   \* Start: initial content of each path (0: there is no file)
VARIABLES hnd,      \* handles
          disk,     \* content of each path: index in Contents, 0 absent, Blank for an empty file
          share,    \* how an open file was first opened: "", "r", "w"
          told
hvars == <<hnd, disk, share, told>>

Blank == Len(Contents) + 1
BlankFile == <<[path |-> "", kind |-> "group", n |-> <<>>, a |-> 0, b |-> 0, m |-> 1, attrs |-> <<>>]>>
Content(c) == IF c = Blank THEN BlankFile ELSE Contents[c].nodes
IsH5(c) == c = Blank \/ (c > 0 /\ Contents[c].valid)

Gone == [st |-> "none", f |-> ""]
Shut == [st |-> "closed", f |-> ""]
HInit == /\ hnd = [h \in Handles |-> Gone]
         /\ disk = Start
         /\ share = [p \in Paths |-> ""]
         /\ told = [r |-> "none", v |-> <<>>]

Done(v) == told' = [r |-> "ok", v |-> v]
Refused == told' = [r |-> "refused", v |-> <<>>]
Keep == UNCHANGED <<hnd, disk, share>>

New(h) == hnd[h].st = "none" /\ hnd' = [hnd EXCEPT ![h] = Shut] /\ Done(<<>>) /\ UNCHANGED <<disk, share>>

Others(h, f) == {k \in Handles : k # h /\ hnd[k].st = "open" /\ hnd[k].f = f}
LetGo(h) == share' = IF hnd[h].st = "open" /\ Others(h, hnd[h].f) = {} THEN [share EXCEPT ![hnd[h].f] = ""] ELSE share
Close(h) == hnd[h].st # "none" /\ hnd' = [hnd EXCEPT ![h] = Shut] /\ LetGo(h) /\ Done(<<>>) /\ UNCHANGED disk
Delete(h) == hnd[h].st # "none" /\ hnd' = [hnd EXCEPT ![h] = Gone] /\ LetGo(h) /\ Done(<<>>) /\ UNCHANGED disk

(* A file can be created anew only when nobody has it open, and be opened    *)
(* for writing only when nobody has it open for reading only.                *)
CanOpen(f, mode) == CASE mode = "c" -> share[f] = ""
                      [] mode = "w" -> IsH5(disk[f]) /\ share[f] # "r"
                      [] mode = "r" -> IsH5(disk[f])
Open(h, f, mode) ==
    /\ hnd[h].st # "none"
    /\ IF hnd[h].st = "closed" /\ CanOpen(f, mode)
       THEN /\ hnd' = [hnd EXCEPT ![h] = [st |-> "open", f |-> f]]
            /\ disk' = IF mode = "c" THEN [disk EXCEPT ![f] = Blank] ELSE disk
            /\ share' = IF share[f] # "" THEN share ELSE [share EXCEPT ![f] = IF mode = "r" THEN "r" ELSE "w"]
            /\ Done(<<>>)
       ELSE Keep /\ Refused

YesNo(b) == IF b THEN "yes" ELSE "no"
IsOpen(h) == hnd[h].st # "none" /\ Keep /\ Done(<<YesNo(hnd[h].st = "open")>>)

-----------------------------------------------------------------------------
(* What an open file holds.                                                  *)
Nodes(h) == LET s == Content(disk[hnd[h].f]) IN {s[i] : i \in 1..Len(s)}
At(h, p) == {x \in Nodes(h) : x.path = p}
Is(h, p, kind) == \E x \in At(h, p) : x.kind = kind
AttrsOf(h, p) == UNION {{x.attrs[i] : i \in 1..Len(x.attrs)} : x \in At(h, p)}
AttrAt(h, p, a) == {y \in AttrsOf(h, p) : y.name = a}

Ask(h) == hnd[h].st = "open" /\ Keep
Group(h, p) == Ask(h) /\ Done(<<YesNo(Is(h, p, "group"))>>)
Dataset(h, p) == Ask(h) /\ Done(<<YesNo(Is(h, p, "data"))>>)
Attr(h, p, a) == Ask(h) /\ Done(<<YesNo(AttrAt(h, p, a) # {})>>)
Dims(h, p) == Ask(h) /\ IF Is(h, p, "data") THEN Done((CHOOSE x \in At(h, p) : TRUE).n) ELSE Refused

(* Names in a group; children are given by the paths that the caller lists.  *)
Names(h, p, kids) == Ask(h) /\ IF Is(h, p, "group")
                               THEN Done(SelectSeq(kids, LAMBDA k : At(h, k.path) # {})) ELSE Refused

(* An attribute is read as what it is, or the read is refused.               *)
Read(h, p, a, kind, list) ==
    /\ Ask(h)
    /\ LET s == {y \in AttrAt(h, p, a) : y.kind = kind /\ (IF list THEN y.list /\ y.v # <<>> ELSE Len(y.v) = 1)}
       IN  IF s = {} THEN Refused ELSE Done((CHOOSE y \in s : TRUE).v)

(* A window of an array: where it starts and how many along each axis.       *)
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
RECURSIVE Flat(_, _, _)
Flat(n, at, acc) == IF n = <<>> THEN acc ELSE Flat(Tail(n), Tail(at), acc * Head(n) + Head(at))
RECURSIVE Unflat(_, _)
Unflat(d, k) == IF d = <<>> THEN <<>> ELSE LET rest == Product(Tail(d)) IN <<k \div rest>> \o Unflat(Tail(d), k % rest)
Fits(x, o, d) == Len(o) = Len(x.n) /\ \A i \in 1..Len(o) : o[i] + d[i] <= x.n[i]
Stored(x, k) == (x.a * k + x.b) % x.m
Part(x, o, d) == [k \in 1..Product(d) |-> LET u == Unflat(d, k - 1)
                                          IN  Stored(x, Flat(x.n, [i \in 1..Len(d) |-> o[i] + u[i]], 0))]
Window(h, p, o, d) ==
    /\ Ask(h)
    /\ LET s == {x \in At(h, p) : x.kind = "data" /\ Fits(x, o, d)}
       IN  IF s = {} THEN Refused ELSE Done(Part(CHOOSE x \in s : TRUE, o, d))

(* A window of an array that is kept in memory gives, at an index (in        *)
(* quarters of a cell along each axis but the last), the values of the       *)
(* nearest point, or those between the points around; d tells how many       *)
(* values are kept.  What was asked before makes no difference.              *)
Min(a, b) == IF a < b THEN a ELSE b
Kept(h, p, d) == Ask(h) /\ IF \E x \in At(h, p) : x.kind = "data" /\ Len(x.n) = Len(d) /\ Len(d) \in {3, 4} THEN Done(<<>>) ELSE Refused
Inside(x, q) == Len(q) = Len(x.n) - 1 /\ \A i \in 1..Len(q) : q[i] \in 0..(4 * (x.n[i] - 1))
Nearest(x, q, v) == Stored(x, Flat(x.n, [i \in 1..Len(q) |-> (q[i] + 2) \div 4] \o <<v>>, 0))
RECURSIVE Between(_, _, _, _)
Between(x, q, at, v) ==       \* 4^(number of axes) times the value
    IF q = <<>> THEN Stored(x, Flat(x.n, at \o <<v>>, 0))
    ELSE LET i == Head(q) \div 4  w == Head(q) % 4
         IN  (4 - w) * Between(x, Tail(q), at \o <<i>>, v) + (IF w = 0 THEN 0 ELSE w * Between(x, Tail(q), at \o <<i + 1>>, v))
Ask1(h, p, d, how, q) ==
    /\ Ask(h)
    /\ LET x == CHOOSE x \in At(h, p) : TRUE
       IN  Inside(x, q) /\ Done([v \in 1..Min(d, x.n[Len(x.n)]) |-> IF how = "nearest" THEN Nearest(x, q, v - 1) ELSE Between(x, q, <<>>, v - 1)])
===============================================================================
