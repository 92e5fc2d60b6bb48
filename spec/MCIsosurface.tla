----------------------------- MODULE MCIsosurface -----------------------------
(* What Isosurface accepts at a pixel, for every column of values of a       *)
(* family, and what it makes of sequences of options.                        *)
EXTENDS Isosurface
CONSTANTS Height, Levels, Nothing
VARIABLES v, deep, args
mcvars == <<v, deep, args, app, obj, err, reply>>
None == -2147483647
Iso == Q(3, 2)                      \* between the levels, which are whole
Res == Q(1, 2)

AppOf(dp) == [phase |-> "pixels", o |-> [Options0 EXCEPT !.vres = Res, !.depth = RMul(I(Height), Res), !.deep = dp, !.points = 100]]
Menu == <<[k |-> "bbox", v |-> <<I(0), I(4), I(0), I(6)>>], [k |-> "hres", v |-> I(2)], [k |-> "vres", v |-> Res], [k |-> "iso", v |-> [name |-> "vp", t |-> Iso]],
         [k |-> "iso", v |-> [name |-> "vs", t |-> Iso]], [k |-> "ref", v |-> "top"], [k |-> "depth", v |-> I(3)], [k |-> "search", v |-> 2],
         [k |-> "models", v |-> <<1>>], [k |-> "output", v |-> TRUE], [k |-> "deep", v |-> TRUE], [k |-> "crs", v |-> 1], [k |-> "unknown", v |-> TRUE]>>

MCInit == /\ deep \in BOOLEAN /\ app = AppOf(deep) /\ obj = <<>> /\ err = <<>> /\ reply = <<>>
        /\ \/ v = <<>> /\ args = <<>>
           \/ v = <<>> /\ ~deep /\ \E i \in 1..Len(Menu) : args = <<Menu[i]>>
MCNext == /\ UNCHANGED <<deep, app, obj, err, reply>>
        /\ \/ args = <<>> /\ Len(v) <= Height /\ (\E x \in 0..Levels : v' = Append(v, I(x)) \/ v' = Append(v, NODATA)) /\ UNCHANGED args
           \/ args # <<>> /\ Len(args) < 3 /\ \E i \in 1..Len(Menu) : args' = Append(args, Menu[i]) /\ UNCHANGED v
MCSpec == MCInit /\ [][MCNext]_mcvars

(* The column between the multiples: linear from value to value (a missing   *)
(* value is below everything).  Where it comes up through the isovalue:      *)
Val(k) == IF v[k + 1] = NODATA THEN I(-1) ELSE v[k + 1]
Up(k) == RLt(Val(k - 1), Iso) /\ RLt(Iso, Val(k))
Cross(k) == RMul(Res, RAdd(I(k - 1), RDiv(RSub(Iso, Val(k - 1)), RSub(Val(k), Val(k - 1)))))
Ups == {k \in 1..Height : Up(k)}
First == RLt(Iso, Val(0))
Answer == IF deep THEN IF Ups # {} THEN RMilli(Cross(CHOOSE k \in Ups : \A j \in Ups : j <= k)) ELSE IF First THEN 0 ELSE None
          ELSE IF First THEN 0 ELSE IF Ups # {} THEN RMilli(Cross(CHOOSE k \in Ups : \A j \in Ups : k <= j)) ELSE None

Full == Len(v) = Height + 1
H == [k \in 0..Height |-> Reaches(v[k + 1], Iso, FALSE)]
Depths == {(n * RMilli(Res)) \div 2 : n \in -3..(2 * Height + 4)}

(* The crossing itself is accepted, ...                                      *)
AnswerAccepted == Full => Right(TLCEval(H), Answer, None) /\ Sensible(Answer, None)
(* ... and nothing that is further from it than twice the resolution.        *)
NothingElse == Full =>
    LET h == TLCEval(H)  a == TLCEval(Answer)
    IN  /\ \A d \in Depths : Right(h, d, None) => a # None /\ d - a <= 2 * RMilli(Res) + 2 /\ a - d <= 2 * RMilli(Res) + 2
        /\ Right(h, None, None) <=> a = None
(* The deepest is not above the shallowest, and both are there or neither.   *)
Ordered == (Full /\ Ups # {} /\ ~First) => RLe(Cross(CHOOSE k \in Ups : \A j \in Ups : k <= j), Cross(CHOOSE k \in Ups : \A j \in Ups : j <= k))

(* Options: the last of each counts, bands add up in order; a run is refused *)
(* unless all that is needed is there.                                       *)
LastOf(k) == LET S == {i \in 1..Len(args) : args[i].k = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Isos == SelectSeq(args, LAMBDA a : a.k = "iso")
OptionsMean == LET o == Parse(args, 1, Options0) IN
    /\ o.iso = [i \in 1..Len(Isos) |-> Isos[i].v]
    /\ o.bad = (LastOf("unknown") # 0)
    /\ LastOf("depth") # 0 => o.depth = args[LastOf("depth")].v
    /\ LastOf("search") # 0 => o.points = args[LastOf("search")].v
    /\ LastOf("models") # 0 => o.models = args[LastOf("models")].v
    /\ o.deep = (LastOf("deep") # 0) /\ o.output = (LastOf("output") # 0)
    /\ o.ref = (IF LastOf("ref") = 0 THEN "topo" ELSE "top")
    /\ (\A n \in {"bbox", "hres", "depth", "iso", "models", "output"} : LastOf(n) # 0) \/ (o.bbox = <<>> \/ ~(RSign(o.hres) > 0) \/ ~(RSign(o.depth) > 0) \/ o.iso = <<>> \/ o.models = <<>> \/ ~o.output)
===============================================================================
