------------------------------ MODULE Metadata --------------------------------
(* What a model file says about the model, and what opening it makes of it.  *)
(* Every stored attribute is a sequence of strings (numbers are written out  *)
(* in full).  A file is a record                                             *)
(*   exists, grouped   the file, and the group of blocks, are there          *)
(*   root              attributes of the model                               *)
(*   parts             sequence of surfaces and blocks: [path, kind, n, rank, attrs, top] *)
(* where n is the size along each axis and top orders the blocks.            *)
EXTENDS Integers, Sequences, FiniteSets

RootRequired == {"title", "id", "description", "keywords", "history", "comment", "creator_name", "creator_institution",
                 "creator_email", "acknowledgement", "authors", "references", "repository_name", "repository_url",
                 "repository_doi", "version", "license", "data_values", "data_units", "data_layout", "crs", "origin_x",
                 "origin_y", "y_azimuth", "dim_x", "dim_y", "dim_z"}
RootOptional == {"auxiliary"}

Axes(part) == IF part.kind = "block" THEN <<"x", "y", "z">> ELSE <<"x", "y">>
AxisNo(a) == CASE a = "x" -> 1 [] a = "y" -> 2 [] a = "z" -> 3
AxesOf(part) == {Axes(part)[i] : i \in 1..Len(Axes(part))}
Has(part, a) == a \in DOMAIN part.attrs

(* An axis has a uniform spacing or a list of coordinates.                   *)
AxisMissing(part, a) == IF Has(part, a \o "_resolution") \/ Has(part, a \o "_coordinates") THEN {}
                        ELSE {a \o "_resolution", a \o "_coordinates"}
(* Uniform spacing along z needs the elevation of the top as well.           *)
TopMissing(part) == IF part.kind = "block" /\ Has(part, "z_resolution") /\ ~Has(part, "z_top") THEN {"z_top"} ELSE {}
PartMissing(part) == {part.path \o "/" \o a : a \in UNION {AxisMissing(part, x) : x \in AxesOf(part)} \cup TopMissing(part)}

Parts(f) == {f.parts[i] : i \in 1..Len(f.parts)}
Missing(f) == (RootRequired \ DOMAIN f.root) \cup UNION {PartMissing(p) : p \in Parts(f)}
Present(f) == DOMAIN f.root \cup UNION {{p.path \o "/" \o a : a \in DOMAIN p.attrs} : p \in Parts(f)}

(* Attributes that contradict the data or each other.                        *)
AxisWrong(p, a) == ~Has(p, a \o "_resolution") /\ Has(p, a \o "_coordinates") /\ Len(p.attrs[a \o "_coordinates"]) # p.n[AxisNo(a)]
PartWrong(f, p) == \/ p.rank # (IF p.kind = "block" THEN 4 ELSE 3)
                   \/ \E a \in AxesOf(p) : AxisWrong(p, a)
                   \/ p.kind = "block" /\ p.rank = 4 /\ "data_values" \in DOMAIN f.root /\ p.n[4] < Len(f.root["data_values"])
Wrong(f) == \/ ~f.grouped
            \/ "data_layout" \in DOMAIN f.root /\ f.root["data_layout"] # <<"vertex">>
            \/ {"data_values", "data_units"} \subseteq DOMAIN f.root /\ Len(f.root["data_values"]) # Len(f.root["data_units"])
            \/ \E p \in Parts(f) : PartWrong(f, p)

Complete(f) == Missing(f) = {} /\ ~Wrong(f)

(* What can be asked of an open model: key and values.                       *)
RootFacts(f) == {<<a, f.root[a]>> : a \in DOMAIN f.root} \cup (IF "auxiliary" \in DOMAIN f.root THEN {} ELSE {<<"auxiliary", <<"">>>>})
AxisFact(p, a) == IF Has(p, a \o "_resolution") THEN <<p.path \o "/" \o a \o "_resolution", p.attrs[a \o "_resolution"]>>
                  ELSE <<p.path \o "/" \o a \o "_coordinates", p.attrs[a \o "_coordinates"]>>
TopFact(p) == IF Has(p, "z_resolution") THEN p.attrs["z_top"] ELSE <<p.attrs["z_coordinates"][1]>>
PartFacts(p) == {AxisFact(p, a) : a \in AxesOf(p)} \cup {<<p.path \o "/n", p.count>>}
                \cup (IF p.kind = "block" THEN {<<p.path \o "/z_top", TopFact(p)>>, <<p.path \o "/z_bottom", p.bottom>>} ELSE {})
Blocks(f) == {p \in Parts(f) : p.kind = "block"}
Before(p, f) == {q \in Blocks(f) : q.top > p.top}
OrderFact(f) == <<"order", [i \in 1..Cardinality(Blocks(f)) |-> (CHOOSE p \in Blocks(f) : Cardinality(Before(p, f)) = i - 1).name]>>
Facts(f) == RootFacts(f) \cup UNION {PartFacts(p) : p \in Parts(f)} \cup {OrderFact(f)}

-----------------------------------------------------------------------------
(* Model objects: closed, open on a file, or loaded.                         *)
CONSTANTS Files, Handles
VARIABLES mod, told
mvars == <<mod, told>>
MInit == mod = [h \in Handles |-> [st |-> "none", f |-> 0]] /\ told = [r |-> "none"]
Put(h, st, f) == mod' = [mod EXCEPT ![h] = [st |-> st, f |-> f]]
New(h) == mod[h].st = "none" /\ Put(h, "closed", 0) /\ told' = [r |-> "ok"]
Open(h, f) == /\ mod[h].st = "closed"
              /\ IF Files[f].exists THEN Put(h, "open", f) /\ told' = [r |-> "ok"]
                 ELSE UNCHANGED mod /\ told' = [r |-> "refused", names |-> {}, may |-> {}]
Load(h) == /\ mod[h].st \in {"open", "loaded", "bad"}
           /\ LET F == Files[mod[h].f]
              IN  IF Complete(F) THEN Put(h, "loaded", mod[h].f) /\ told' = [r |-> "ok"]
                  ELSE Put(h, "bad", mod[h].f) /\ told' = [r |-> "refused", names |-> IF F.grouped THEN Missing(F) ELSE {}, may |-> Missing(F)]
Get(h) == mod[h].st = "loaded" /\ UNCHANGED mod /\ told' = [r |-> "facts", facts |-> Facts(Files[mod[h].f])]
Close(h) == mod[h].st # "none" /\ Put(h, "closed", 0) /\ told' = [r |-> "ok"]
Delete(h) == mod[h].st # "none" /\ Put(h, "none", 0) /\ told' = [r |-> "ok"]
===============================================================================
