------------------------------ MODULE Describe -------------------------------
(* What the info tool shows of models that were given to it.                 *)
(* A model is a record                                                       *)
(*   texts: root metadata by name, lists: keywords, authors, references      *)
(*   names, units, layout: of the values, in the order in which they are     *)
(*   crs: [text, units]; turn: azimuth in thousandths of a degree            *)
(*   dims, rot, origin, top, topo, blocks: as in GeoModel                    *)
(*   corners: what positions (h times as fine as a tick) are in latitude and *)
(*            longitude, in ten thousandths of a degree                      *)
(* Lengths are shown in thousandths of a tick.                               *)
EXTENDS Grid, FiniteSets, TLC

Parts == {"verification", "description", "coordsys", "values", "blocks"}
(* Which parts an option asks for.                                           *)
PartsOf(o) == CASE o = "all"    -> Parts
                [] o = "verify" -> {"verification"}
                [] OTHER        -> {o}
Asked(opts) == UNION {PartsOf(opts[i]) : i \in 1..Len(opts)}

Fact(at, label, texts, nums) == [at |-> at, label |-> label, texts |-> texts, nums |-> nums]
K(n) == 1000 * n

(* Corners of the domain, in order around it; h times as fine as a tick.     *)
Corner(m, ix, iy) ==
    LET c == m.rot[1]  s == m.rot[2]  h == m.rot[3]
        x == ix * m.dims[1]  y == iy * m.dims[2]
    IN  <<h * m.origin[1] + c * x + s * y, h * m.origin[2] - s * x + c * y>>
Corners(m) == <<Corner(m, 0, 0), Corner(m, 1, 0), Corner(m, 1, 1), Corner(m, 0, 1)>>
InDegrees(m, p) == LET i == CHOOSE i \in 1..Len(m.corners) : m.corners[i].at = p
                   IN  m.corners[i].degrees
Box(m) == LET d(i) == InDegrees(m, Corners(m)[i])
          IN  d(1) \o d(2) \o d(3) \o d(4)

Description(m) ==
    {Fact("", l, <<m.texts[l]>>, <<>>) : l \in {"title", "id", "description", "history", "comment", "acknowledgement", "version", "license"}}
    \cup {Fact("", l, m.lists[l], <<>>) : l \in {"keywords", "authors", "references"}}
    \cup {Fact("", "creator", <<m.texts["creator_name"], m.texts["creator_institution"], m.texts["creator_email"]>>, <<>>),
          Fact("", "repository", <<m.texts["repository_name"], m.texts["repository_url"]>>, <<>>),
          Fact("", "doi", <<m.texts["repository_doi"]>>, <<>>),
          Fact("", "dimensions", <<>>, <<K(m.dims[1]), K(m.dims[2]), K(m.dims[3])>>),
          Fact("", "box", <<>>, Box(m))}
    \cup (IF m.auxiliary = "" THEN {} ELSE {Fact("", "auxiliary", <<m.auxiliary>>, <<>>)})

CoordSys(m) ==
    {Fact("", "crs", <<m.crs.text>>, <<>>), Fact("", "units", m.crs.units, <<>>),
     Fact("", "origin", <<>>, <<K(m.origin[1]), K(m.origin[2])>>), Fact("", "azimuth", <<>>, <<m.turn>>)}

Values(m) == {Fact(ToString(i - 1), "value", <<m.names[i], m.units[i]>>, <<>>) : i \in 1..Len(m.names)}
             \cup {Fact("", "layout", <<"vertex">>, <<>>)}

(* Spacing of a variable axis is not a number; what is shown is not judged.  *)
Spacing(a) == IF a.kind = "u" THEN K(a.d) ELSE 0
Surface(s, at) == IF s.on THEN {Fact(at, "points", <<>>, <<AxisN(s.ax), AxisN(s.ay)>>), Fact(at, "spacing", <<>>, <<Spacing(s.ax), Spacing(s.ay)>>)}
                  ELSE {Fact(at, "none", <<>>, <<>>)}
Block(b) == {Fact(b.name, "points", <<>>, <<AxisN(b.ax), AxisN(b.ay), AxisN(b.az)>>),
             Fact(b.name, "spacing", <<>>, <<Spacing(b.ax), Spacing(b.ay), Spacing(b.az)>>),
             Fact(b.name, "top", <<>>, <<K(b.top)>>),
             Fact(b.name, "dimensions", <<>>, <<K(AxisLen(b.ax)), K(AxisLen(b.ay)), K(AxisLen(b.az))>>)}
Blocks(m) == Surface(m.top, "top surface") \cup Surface(m.topo, "topography") \cup {Fact("", "count", <<>>, <<Len(m.blocks)>>)}
             \cup UNION {Block(m.blocks[i]) : i \in 1..Len(m.blocks)}

Facts(m, part) == CASE part = "description"  -> Description(m)
                    [] part = "coordsys"     -> CoordSys(m)
                    [] part = "values"       -> Values(m)
                    [] part = "blocks"       -> Blocks(m)
                    [] part = "verification" -> {}
(* Blocks are listed from the top down.                                      *)
Order(m) == CHOOSE q \in [1..Len(m.blocks) -> 1..Len(m.blocks)] :
                \A i, j \in 1..Len(m.blocks) : i < j => m.blocks[q[i]].top > m.blocks[q[j]].top

(* Six digits are shown.                                                     *)
Digits(shown, is) == LET a == Abs(is) IN Abs(shown - is) <= 1 + a \div 190
(* Numbers that are not known are shown anyhow where an axis has no spacing. *)
SameNumbers(f, e) ==
    /\ Len(f.nums) = Len(e.nums)
    /\ \A i \in 1..Len(e.nums) : \/ f.label = "spacing" /\ e.nums[i] = 0
                                 \/ f.label = "box" /\ Abs(f.nums[i] - e.nums[i]) <= 3
                                 \/ f.label \in {"points", "count"} /\ f.nums[i] = e.nums[i]
                                 \/ f.label \notin {"points", "count", "box"} /\ Digits(f.nums[i], e.nums[i])
Same(f, e) == f.at = e.at /\ f.label = e.label /\ f.texts = e.texts /\ SameNumbers(f, e)

Complete(m, shown, parts) ==
    LET want == UNION {{<<p, e>> : e \in Facts(m, p)} : p \in parts}
    IN  /\ \A w \in want : Cardinality({i \in 1..Len(shown) : shown[i].part = w[1] /\ Same(shown[i], w[2])}) = 1
        /\ Len(shown) = Cardinality(want)
Listed(m, shown) ==
    LET tops == SelectSeq(shown, LAMBDA f : f.part = "blocks" /\ f.label = "top")
        o == Order(m)
    IN  \A i \in 1..Len(tops) : tops[i].at = m.blocks[o[i]].name
===============================================================================
