------------------------------- MODULE MCDomain -------------------------------
(* What the domain of a model, its blocks, and squashing mean, for every     *)
(* small model of a family and every point of a lattice.                     *)
EXTENDS QueryApi
CONSTANTS Models, Fine, Mins
VARIABLES m, q, z
mcvars == <<m, q, z, obj, err, reply>>

XLattice(n) == {Q(i, Fine) : i \in -1..(Fine * n + 1)}
ZLattice == {Q(i, Fine) : i \in -(Fine * 6)..(Fine * 4)}
Start == <<>>
MCInit == /\ m \in Models
          /\ q = Start /\ z = I(0)
          /\ obj = [h \in {} |-> Fresh] /\ err = [h \in {} |-> "ok"] /\ reply = [kind |-> "none"]
MCNext == /\ q = Start
          /\ q' \in XLattice(m.dims[1]) \X XLattice(m.dims[2])
          /\ z' \in ZLattice
          /\ UNCHANGED <<m, obj, err, reply>>
MCSpec == MCInit /\ [][MCNext]_mcvars

D == I(m.dims[3])
Bottom == RNeg(D)
Between(lo, x, hi) == RLe(lo, x) /\ RLe(x, hi)

(* Contained: horizontally in the domain, and between bottom and top surface.*)
Inside == /\ Between(I(0), q[1], I(m.dims[1])) /\ Between(I(0), q[2], I(m.dims[2]))
          /\ Between(Bottom, z, TopAt(m, q))
ContainsMeans == q # Start => ((InXY(m, q) /\ ContainsZ(m, q, z, 0)) <=> (InXY(m, q) /\ Inside))

(* Stretching maps the top to the reference level, the bottom to itself, and *)
(* is linear in between.                                                     *)
Stretch == (q # Start /\ InXY(m, q)) =>
    /\ ModelZ(m, q, TopAt(m, q)) = I(0)
    /\ ModelZ(m, q, Bottom) = Bottom
    /\ LET w == RDiv(RSub(z, Bottom), RSub(TopAt(m, q), Bottom))
       IN  ModelZ(m, q, z) = RAdd(Bottom, RMul(w, D))

(* Every contained point is answered by one block, whose range holds it, and *)
(* on a shared boundary it is the upper one.                                 *)
Owner == (q # Start /\ InXY(m, q) /\ InZ(m, ModelZ(m, q, z))) =>
    LET zm == ModelZ(m, q, z)
        i  == BlockOf(m, zm)
    IN  /\ InBlock(m.blocks[i], zm)
        /\ \A j \in 1..Len(m.blocks) : j # i =>
              \/ ~InBlock(m.blocks[j], zm)
              \/ zm = I(BlockBottom(m.blocks[i])) /\ m.blocks[j].top = BlockBottom(m.blocks[i])

(* Squashing.                                                                *)
O(mode, min) == [Fresh EXCEPT !.sq = mode, !.min = I(min)]
Surf(mode) == IF mode = 1 THEN TopAt(m, q) ELSE TopoAt(m, q)
SquashMeans == (q # Start /\ InXY(m, q)) =>
    /\ Squashed([Fresh EXCEPT !.min = I(-1)], m, q, z) = z
    /\ \A mode \in {1, 2}, min \in Mins :
          /\ RLe(z, I(min)) => Squashed(O(mode, min), m, q, z) = z
          /\ Squashed(O(mode, min), m, q, I(0)) = Surf(mode)
          /\ Between(I(min), z, I(0)) =>
                LET w == RDiv(RSub(z, I(min)), I(-min))
                IN  Squashed(O(mode, min), m, q, z) = RAdd(I(min), RMul(w, RSub(Surf(mode), I(min))))

(* Rotation: the frame of the model is reached by moving the origin and      *)
(* turning, so that lengths are kept and the y axis points along (s, c).     *)
Turned == q # Start => LET P(x, y) == ModelXY(m, x, y)
              X(p) == RSub(p[1], P(I(0), I(0))[1])
              Y(p) == RSub(p[2], P(I(0), I(0))[2])
              at == P(q[1], q[2])
              c == Q(m.rot[1], m.rot[3])
              s == Q(m.rot[2], m.rot[3])
              sqr(x) == RMul(x, x)
          IN  /\ P(I(m.origin[1]), I(m.origin[2])) = <<I(0), I(0)>>
              /\ RAdd(sqr(X(at)), sqr(Y(at))) = RAdd(sqr(q[1]), sqr(q[2]))
              /\ P(RAdd(I(m.origin[1]), s), RAdd(I(m.origin[2]), c)) = <<I(0), I(1)>>
              /\ P(RAdd(I(m.origin[1]), c), RSub(I(m.origin[2]), s)) = <<I(1), I(0)>>

U(d, n) == [kind |-> "u", d |-> d, n |-> n]
V(c) == [kind |-> "v", c |-> c]
Hs(a, bb, mm, off) == [a |-> a, b |-> bb, c |-> 1, d |-> 1, e |-> 1, f |-> 0, g |-> 0, m |-> mm, off |-> off]
None == [on |-> FALSE]
Surface(ax, ay, off) == [on |-> TRUE, ax |-> ax, ay |-> ay, p |-> Hs(1, 2, 3, off)]
NoGap == [a |-> 0, b |-> 0, c |-> 0, d |-> 0, m |-> 0]
B(top, az) == [top |-> top, ax |-> U(2, 2), ay |-> U(1, 3), az |-> az, p |-> Hs(2, 3, 7, 0), nd |-> NoGap]
Layouts == {<<B(0, U(2, 3))>>, <<B(-1, V(<<-1, -2, -4>>)), B(0, U(1, 2))>>, <<B(0, U(1, 2)), B(-3, U(1, 2)), B(-1, U(2, 2))>>}
Tops == {None, Surface(U(2, 2), U(2, 2), -1), Surface(V(<<0, 2>>), V(<<0, 1, 2>>), 0)}
AllModels == {[dims |-> <<2, 2, 4>>, rot |-> r, origin |-> <<5, -3>>, top |-> tp, topo |-> tb, blocks |-> l, values |-> <<"vp">>, units |-> <<"m">>] :
               r \in {<<1, 0, 1>>, <<3, 4, 5>>, <<0, 1, 1>>, <<-4, -3, 5>>}, tp \in Tops, tb \in {None, Surface(U(1, 3), U(2, 2), -2)}, l \in Layouts}
MCModels == {x \in AllModels : x.rot = <<1, 0, 1>> \/ (~x.topo.on /\ Len(x.blocks) = 1)}
MCFiles == <<>>
MCCrs == <<>>
MCMins == {-1, -3}
===============================================================================
