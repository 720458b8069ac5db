------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Batches: a query for a whole array of observation points and samples    *)
(* (frequencies or times) is the family of the answers for each single     *)
(* point and sample, samples first, then points, each block holding the    *)
(* components.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, ConformRules, Catalogue

RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 1 ELSE s[1] * Size(Tail(s))
RECURSIVE Squeeze(_)
Squeeze(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = 1 THEN <<>> ELSE <<s[1]>>) \o Squeeze(Tail(s))

\* ---- layouts -------------------------------------------------------------
ObsShape(l) == CASE l = "single" -> <<>>
                 [] l = "one" -> <<1>>
                 [] l = "two" -> <<2>>
                 [] l \in {"three", "samecount", "listarrays", "tuplelists"} -> <<3>>
                 [] l = "grid" -> <<2, 4>>
                 [] l = "threes" -> <<3, 3>>
                 [] l = "cube" -> <<2, 1, 3>>
                 [] l \in {"column", "tuplecolumn"} -> <<4, 1>>
                 [] l \in {"tuple", "list"} -> <<4>>
                 [] l \in {"tuplegrid", "listgrid"} -> <<2, 3>>
                 [] l = "tuplecube" -> <<1, 2, 2>>
                 [] l \in {"tuplepoint", "listpoint"} -> <<>>
                 [] l = "empty" -> <<0>>
                 [] l = "emptygrid" -> <<2, 0>>
                 [] OTHER -> <<6>>
Rows == {"one", "two", "three", "samecount", "int", "single precision", "strided", "fortran", "readonly", "repeated", "singular", "reversed"}
Arrays == Rows \cup {"single", "grid", "threes", "cube", "column"}
Every == Arrays \cup {"tuple", "tuplegrid", "tuplepoint", "tuplecolumn", "tuplecube", "list", "listgrid", "listarrays", "tuplelists", "listpoint", "empty", "emptygrid"}
ObsLayouts(c) == IF Classes[c].rows THEN Rows ELSE IF Classes[c].arrays THEN Arrays ELSE Every
SamShape(s) == CASE s = "scalar" -> <<>> [] s = "s1" -> <<1>> [] s = "s2" -> <<2>> [] s = "s3" -> <<3>> [] OTHER -> <<6>>
SamLayouts(c, l) == IF ~ Classes[c].sampled THEN {"scalar"}
                    ELSE (IF Classes[c].rows THEN {"s1"} ELSE {"scalar", "s1"})
                         \cup (CASE l = "samecount" -> {"s3"} [] l = "repeated" -> {"s6"} [] l \in {"grid", "three", "threes", "single"} -> {"s2", "s3"} [] OTHER -> {"s2"})
Components(r) == CASE r = 0 -> <<>> [] r = 1 -> <<3>> [] OTHER -> <<3, 3>>

Whole(s, o, r) == SamShape(s) \o ObsShape(o) \o Components(r)
ResultShape(c, s, o, r) == IF Classes[c].squeeze THEN Squeeze(Whole(s, o, r)) ELSE Whole(s, o, r)

\* block k (from 1, in C order) belongs to sample and point (from 0)
Blocks(s, o) == Size(SamShape(s)) * Size(ObsShape(o))
Owner(s, o, k) == << (k - 1) \div Size(ObsShape(o)), (k - 1) % Size(ObsShape(o)) >>
SlotOf(s, o, i, j) == i * Size(ObsShape(o)) + j + 1

LayConfigs == UNION {UNION {UNION {{[cls |-> c, q |-> Classes[c].queries[n], obs |-> o, sam |-> s, rank |-> Classes[c].rank[n]] : s \in SamLayouts(c, o)}
                                   : o \in ObsLayouts(c)}
                            : n \in {m \in DOMAIN Classes[c].queries : Classes[c].rank[m] >= 0}}
                     : c \in DOMAIN Classes}
PairConfigs == UNION {{[cls |-> c, q |-> Classes[c].queries[n], obs |-> o, sam |-> "pair", rank |-> Classes[c].rank[n]] :
                         n \in {m \in DOMAIN Classes[c].queries : Classes[c].rank[m] >= 0}, o \in Every \ {"singular"}}
                      : c \in {d \in DOMAIN Classes : Classes[d].pair}}
\* a long list of points, a large grid, and one point near the source (far from it) among many far (near) ones
BigConfigs == UNION {{[cls |-> c, q |-> Classes[c].queries[n], obs |-> o, sam |-> "scalar", rank |-> Classes[c].rank[n]] :
                        n \in {m \in DOMAIN Classes[c].queries : Classes[c].rank[m] >= 0}, o \in {"big", "biggrid", "onenear", "onefar"}}
                     : c \in {d \in DOMAIN Classes : ~ Classes[d].rows}}
LayRule(c, q) == Rule(90, 0, "exact")
LayPlan == PlanOf(LayConfigs \X {"batch"}, LayRule) \cup PlanOf(PairConfigs \X {"batch"}, LayRule) \cup PlanOf(BigConfigs \X {"batch"}, LayRule)

\* e.hits: for every block, the (sample, point) pairs whose single answer it equals
Hits(h, p) == \E n \in DOMAIN h : h[n] = p
LayClause(e) ==
  LET c == e.cfg
      sam == IF c.sam = "pair" THEN "scalar" ELSE c.sam
  IN IF e.out # "ok" THEN "query failed"
     ELSE IF c.obs \in {"big", "biggrid", "onenear", "onefar"} THEN (IF e.hits # <<TRUE>> THEN "an answer depends on how many points there are, or on the others" ELSE "")
     ELSE IF e.shape # ResultShape(c.cls, sam, c.obs, c.rank) THEN "shape of the result"
     ELSE IF Len(e.hits) # Blocks(sam, c.obs) THEN "number of entries"
     ELSE IF \E k \in DOMAIN e.hits : ~ Hits(e.hits[k], Owner(sam, c.obs, k)) THEN "an entry is not the answer for its own point and sample"
     ELSE ""
===========================================================================
