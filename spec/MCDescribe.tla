------------------------------ MODULE MCDescribe ------------------------------
(* What Describe says of corners, the order of blocks, and options, for      *)
(* every frame, order and sequence of options of a family.                   *)
EXTENDS Describe
G == INSTANCE GeoModel
VARIABLES m, opts
mcvars == <<m, opts>>
Rots == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<12, -5, 13>>, <<-5, -12, 13>>}
Axis(n) == [kind |-> "u", d |-> 1, n |-> n + 1]
Slab(t, n) == [name |-> ToString(t), top |-> t, ax |-> Axis(1), ay |-> Axis(2), az |-> Axis(n)]
Stacks == {<<Slab(0, 3)>>, <<Slab(0, 1), Slab(-1, 2)>>, <<Slab(-1, 2), Slab(0, 1)>>, <<Slab(-2, 1), Slab(0, 1), Slab(-1, 1)>>,
           <<Slab(-1, 1), Slab(-2, 1), Slab(0, 1)>>, <<Slab(0, 1), Slab(-2, 1), Slab(-1, 1)>>}
Options == {"all", "verify", "description", "coordsys", "values", "blocks"}
Turn(r, o, d, b) == [rot |-> r, origin |-> o, dims |-> d, blocks |-> b, top |-> [on |-> FALSE], topo |-> [on |-> FALSE]]
Init == /\ opts = <<>>
        /\ \E r \in Rots, o \in {<<0, 0>>, <<7, -3>>}, d \in {<<1, 2, 3>>, <<4, 1, 3>>}, b \in Stacks : m = Turn(r, o, d, b)
Next == Len(opts) < 3 /\ \E o \in Options : opts' = Append(opts, o) /\ UNCHANGED m
Spec == Init /\ [][Next]_mcvars

(* The corners are those of the domain, in the frame of the model, and       *)
(* follow each other along its sides.                                        *)
In(p) == G!ModelXY(m, Q(p[1], m.rot[3]), Q(p[2], m.rot[3]))
CornersMean == LET C == Corners(m)
               IN  /\ In(C[1]) = <<I(0), I(0)>> /\ In(C[2]) = <<I(m.dims[1]), I(0)>>
                   /\ In(C[3]) = <<I(m.dims[1]), I(m.dims[2])>> /\ In(C[4]) = <<I(0), I(m.dims[2])>>
(* Blocks are shown once each, every one on top of the next.                 *)
OrderMeans == LET o == Order(m) n == Len(m.blocks)
              IN  /\ {o[i] : i \in 1..n} = 1..n
                  /\ \A i \in 1..(n - 1) : G!BlockBottom(m.blocks[o[i]]) = m.blocks[o[i + 1]].top
                  /\ m.blocks[o[1]].top = 0
(* Options only ever add parts, their order and repetition do not matter.    *)
OptionsMean == /\ Asked(opts) \subseteq Parts
               /\ (Asked(opts) = {} <=> opts = <<>>)
               /\ \A p \in Parts : p \in Asked(opts) <=> \E i \in 1..Len(opts) : opts[i] = "all" \/ opts[i] = p \/ (opts[i] = "verify" /\ p = "verification")
(* What is shown is accepted when it is all of it, and not without some of   *)
(* it, or with something twice.                                              *)
Listing == LET f == Blocks(m)  n == Cardinality(f)
               s == CHOOSE s \in [1..n -> f] : \A i, j \in 1..n : i # j => s[i] # s[j]
           IN  [i \in 1..n |-> [part |-> "blocks", at |-> s[i].at, label |-> s[i].label, texts |-> s[i].texts, nums |-> s[i].nums]]
JudgeMeans == (opts = <<>> /\ Len(m.blocks) = 1) =>
    LET s == Listing
    IN  /\ Complete(m, s, {"blocks"})
        /\ ~Complete(m, Tail(s), {"blocks"}) /\ ~Complete(m, <<s[1]>> \o s, {"blocks"})
        /\ ~Complete(m, <<[s[1] EXCEPT !.at = "elsewhere"]>> \o Tail(s), {"blocks"})
===============================================================================
