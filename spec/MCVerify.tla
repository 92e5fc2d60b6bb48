------------------------------- MODULE MCVerify --------------------------------
(* What Verify says of blocks, surfaces and reports, for every stack of      *)
(* blocks of a family (sound or not) and every report on a small model.      *)
EXTENDS Grid, FiniteSets
VARIABLES m, said
V == INSTANCE Verify WITH Files <- <<>>
CONSTANT Depth
Axis(d, n) == [kind |-> "u", d |-> d, n |-> n + 1]
Var(c) == [kind |-> "v", c |-> c]
Block(t, n, ax, ay) == [top |-> t, ax |-> ax, ay |-> ay, az |-> Axis(1, n)]
Off == [on |-> FALSE]
Surf(ax, ay) == [on |-> TRUE, ax |-> ax, ay |-> ay]
Model(bs, top, topo, c) == [complete |-> c, crs |-> [valid |-> TRUE, units |-> <<"m", "m">>], dims |-> <<4, 4, Depth>>, top |-> top, topo |-> topo, blocks |-> bs]

Slabs == {Block(t, n, Axis(2, 2), Axis(2, 2)) : t \in (-Depth)..1, n \in 1..(Depth + 1)}
Axes4 == {Axis(2, 2), Axis(1, 4), Axis(4, 1), Axis(2, 1), Axis(1, 3), Var(<<0, 1, 4>>), Var(<<0, 2, 3>>), Var(<<0, 3, 4>>)}
Surfaces == {Off} \cup {Surf(a, b) : a \in Axes4, b \in {Axis(2, 2), Axis(1, 4), Var(<<0, 1, 4>>)}}
Plain == Block(0, Depth, Axis(2, 2), Axis(2, 2))

Init == /\ said = {}
        /\ \/ m = Model(<<>>, Off, Off, TRUE)
           \/ \E s, t \in Surfaces, c \in BOOLEAN : m = Model(<<Plain>>, s, t, c)
           \/ \E a, b \in Axes4, s \in {Off, Surf(Axis(1, 4), Axis(2, 2)), Surf(Var(<<0, 1, 4>>), Axis(1, 4))} : m = Model(<<Block(0, Depth, a, b)>>, s, Off, TRUE)
(* Stacks grow block by block, in any order.                                 *)
Next == /\ ~m.top.on /\ ~m.topo.on /\ Len(m.blocks) < 3 /\ m.complete
        /\ \E b \in Slabs : (Len(m.blocks) = 2 => b.top <= 0 /\ b.top - V!AxisLen(b.az) >= -Depth) /\ m' = [m EXCEPT !.blocks = Append(@, b)]
        /\ UNCHANGED said
Spec == Init /\ [][Next]_<<m, said>>

(* Blocks tile the domain when every unit of depth down to its bottom is in  *)
(* exactly one block, and nothing else is.                                   *)
In(b, k) == b.top >= k /\ b.top - V!AxisLen(b.az) <= k - 1         \* the unit from k-1 to k
Covers == \A k \in (-2 * Depth - 2)..(2 * Depth + 2) :
            Cardinality({i \in 1..Len(m.blocks) : In(m.blocks[i], k)}) = IF k > -Depth /\ k <= 0 THEN 1 ELSE 0
TilesMean == V!Tiles(m) <=> Covers

(* A surface is fine when it reaches from side to side, by its last point.   *)
Last(a) == IF a.kind = "u" THEN a.d * (a.n - 1) ELSE a.c[Len(a.c)]
SurfacesMean == \A s \in {m.top, m.topo} : s.on => (V!SurfaceOk(m, s) <=> Last(s.ax) = m.dims[1] /\ Last(s.ay) = m.dims[2])

(* Points of a sound block lie on points of a uniform top surface.           *)
Marks(a) == IF a.kind = "u" THEN {k * a.d : k \in 0..(a.n - 1)} ELSE {a.c[k] : k \in 1..Len(a.c)}
BlocksMean == \A i \in 1..Len(m.blocks) :
    LET b == m.blocks[i] IN
    (V!BlockOk(m, b) /\ m.top.on /\ V!SurfaceOk(m, m.top) /\ \A a \in {b.ax, b.ay, m.top.ax, m.top.ay} : a.kind = "u")
        => Marks(b.ax) \subseteq Marks(m.top.ax) /\ Marks(b.ay) \subseteq Marks(m.top.ay)

(* The judge accepts the report that says what is so of everything, and no   *)
(* report that differs in one verdict, or leaves something out.              *)
Steps(f) == LET w == <<"metadata", "crs">> \o (IF m.top.on THEN <<"top">> ELSE <<>>) \o (IF m.topo.on THEN <<"topo">> ELSE <<>>)
                     \o (IF m.top.on /\ m.topo.on THEN <<"match">> ELSE <<>>) \o <<"z">>
            IN  [i \in 1..Len(w) |-> [what |-> w[i], ok |-> f[w[i]]]]
Truth == [w \in {"metadata", "crs", "z", "top", "topo", "match"} |->
            CASE w = "metadata" -> m.complete [] w = "crs" -> TRUE [] w = "z" -> V!Tiles(m)
              [] w = "top" -> m.top.on /\ V!SurfaceOk(m, m.top) [] w = "topo" -> m.topo.on /\ V!SurfaceOk(m, m.topo)
              [] w = "match" -> m.top.on /\ m.topo.on /\ CHOOSE v \in V!MatchVerdicts(m) : TRUE]
BlockVerdicts == [i \in 1..Len(m.blocks) |-> [at |-> i, ok |-> V!BlockOk(m, m.blocks[i])]]
JudgeMeans ==
    LET s == Steps(Truth)  b == BlockVerdicts
        flip(q, i) == [q EXCEPT ![i].ok = ~@]
        loose(i) == s[i].what = "match"
    IN  /\ V!ReportOk(m, s, b)
        /\ m.complete => /\ \A i \in 1..Len(s) : ~loose(i) => ~V!ReportOk(m, flip(s, i), b)
                         /\ \A i \in 1..Len(b) : ~V!ReportOk(m, s, flip(b, i))
                         /\ ~V!ReportOk(m, Tail(s), b) /\ (b # <<>> => ~V!ReportOk(m, s, Tail(b)) /\ ~V!ReportOk(m, s, b \o b))
        /\ ~m.complete => ~V!ReportOk(m, flip(s, CHOOSE i \in 1..Len(s) : s[i].what = "metadata"), b)
(* A sound model is one of whose report no verdict is bad.                   *)
SoundMeans ==
    V!Sound(m) <=> /\ \A i \in 1..Len(Steps(Truth)) : Steps(Truth)[i].what # "match" => Steps(Truth)[i].ok
                   /\ \A j \in 1..Len(BlockVerdicts) : BlockVerdicts[j].ok
===============================================================================
