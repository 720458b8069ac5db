-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Tensor grids, column-major flattening and the shape of point arrays, as *)
(* executable definitions over index tuples (indices from 0).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, ConformRules

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))

\* the k-th tuple (k from 0), first index fastest / last index fastest
RECURSIVE FirstFast(_, _)
FirstFast(sh, k) == IF sh = <<>> THEN <<>> ELSE <<k % sh[1]>> \o FirstFast(Tail(sh), k \div sh[1])
RECURSIVE LastFast(_, _)
LastFast(sh, k) == IF sh = <<>> THEN <<>>
                   ELSE LastFast(SubSeq(sh, 1, Len(sh) - 1), k \div sh[Len(sh)]) \o <<k % sh[Len(sh)]>>
\* position of a tuple in the C layout
RECURSIVE CPos(_, _)
CPos(sh, ix) == IF sh = <<>> THEN 0
                ELSE CPos(SubSeq(sh, 1, Len(sh) - 1), SubSeq(ix, 1, Len(ix) - 1)) * sh[Len(sh)] + ix[Len(ix)]

\* ndgrid(..., vector=True): the rows
GridRows(sh) == [k \in 1..Prod(sh) |-> FirstFast(sh, k - 1)]
\* ndgrid(..., vector=False): the arrays have shape sh; read in C order, entry k of array j is index j
GridArr(sh, j) == [k \in 1..Prod(sh) |-> LastFast(sh, k - 1)[j]]
\* mkvc of an array whose entries are their C positions
Flat(sh) == [k \in 1..Prod(sh) |-> CPos(sh, FirstFast(sh, k - 1))]
Ones(n) == [k \in 1..n |-> 1]

\* ---- the point check: which arrays are points of dimension dim ----------
\* an argument is described by its form: an array/list of a shape, or a tuple of arrays of shapes
PointsOK(a, dim) == IF a.form = "tuple" THEN Len(a.shapes) = dim /\ \A k \in DOMAIN a.shapes : a.shapes[k] = a.shapes[1]
                    ELSE Len(a.shape) > 0 /\ a.shape[Len(a.shape)] = dim
PointsShape(a) == IF a.form = "tuple" THEN a.shapes[1] \o <<Len(a.shapes)>> ELSE a.shape

\* ---- what is demanded of one observed call -------------------------------
GrdRule(c, q) == Rule(0, 0, "exact")
Dims == 1..4
Sizes1 == {<<n>> : n \in 1..4}
Sizes2 == {<<n, m>> : n \in 1..4, m \in 1..4}
Sizes3 == {<<n, m, p>> : n \in 1..3, m \in 1..4, p \in 1..3}
Shapes == {<<>>} \cup Sizes1 \cup {<<0>>} \cup Sizes2 \cup {<<2, 0>>, <<0, 3>>} \cup Sizes3 \cup {<<2, 3, 2, 2>>, <<1, 2, 3, 4>>}
GridCases == {[f |-> "ndgrid", sh |-> s, arg |-> a, how |-> h] :
                s \in Sizes1 \cup Sizes2 \cup Sizes3, a \in {"args", "list"}, h \in {"vector", "arrays", "default"}}
VecCases  == {[f |-> "mkvc", sh |-> s, arg |-> a, how |-> h] : s \in Shapes \ {<<>>}, a \in {"C", "F", "strided", "readonly"}, h \in {"1", "2", "3", "default"}}
MatCases  == {[f |-> "mkvc", sh |-> s, arg |-> "matrix", how |-> "1"] : s \in Sizes2}
ChkCases  == {[f |-> "check", sh |-> s, arg |-> a, how |-> h] : s \in Shapes, a \in {"array", "list", "int", "single"}, h \in {"1", "2", "3", "default"}}
TupCases  == {[f |-> "check", sh |-> s, arg |-> a, how |-> h] : s \in Shapes, a \in {"tuple1", "tuple2", "tuple3", "tuple4", "ragged"}, h \in {"2", "3", "default"}}
NdCases   == {[f |-> "append", sh |-> s, arg |-> a, how |-> h] : s \in Shapes, a \in {"array", "scalar"}, h \in {"0", "1", "2", "3"}}
RepCases  == {[f |-> "repeat", sh |-> s, arg |-> "array", how |-> h] : s \in Sizes1, h \in {"1", "2", "3", "default"}}
GrdConfigs == GridCases \cup VecCases \cup MatCases \cup {c \in ChkCases : (c.arg \in {"list", "int", "single"} => c.sh # <<>>) /\ (c.arg = "list" => \A k \in DOMAIN c.sh : c.sh[k] > 0)} \cup TupCases
              \cup {c \in NdCases : c.arg = "scalar" => c.sh = <<>>} \cup RepCases
\* ---- distances, dot and cross products, point by point ---------------------
\* coordinates are multiples of 1/1024 (the trace holds the multiples), so that differences and products are exact
Kinds == {"default", "int", "list", "dyadic", "near"}
PtCases == {[f |-> f, sh |-> <<n>>, arg |-> a, how |-> h] :
              f \in {"vector_distance", "distance", "vector_dot"}, n \in {1, 2, 3, 5}, a \in Kinds, h \in {"array", "F", "strided", "int", "readonly"}}
MagCases == {[f |-> "magnitude", sh |-> s, arg |-> "none", how |-> h] : s \in {<<3>>, <<2>>, <<4, 3>>, <<3, 2>>, <<2, 3, 3>>, <<2, 1, 2, 3>>}, h \in {"array", "F", "int", "readonly"}}
DipCases == {[f |-> f, sh |-> s, arg |-> a, how |-> h] :
               f \in {"dipole.vector_distance", "dipole.distance", "dipole.dot_orientation", "dipole.cross_orientation"},
               s \in {<<3>>, <<1, 3>>, <<4, 3>>, <<2, 2, 3>>}, a \in {"magnetic", "electric", "loop", "pole"}, h \in {"X", "y", "Z", "minus", "axes"}}
PointCases == {c \in PtCases : ~ (c.f = "vector_dot" /\ c.arg = "default")} \cup MagCases \cup DipCases
GrdPlan == PlanOf((GrdConfigs \cup PointCases) \X {"call"}, GrdRule)
Minus(p, o) == [i \in DOMAIN p |-> p[i] - o[i]]
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1] + Total(Tail(s))
Dot(p, o) == Total([i \in DOMAIN p |-> p[i] * o[i]])
Cross(p, o) == << p[2] * o[3] - p[3] * o[2], p[3] * o[1] - p[1] * o[3], p[1] * o[2] - p[2] * o[1] >>
Origin == <<0, 0, 0>>
\* what is expected for one point; distances as squares
PointValue(f, p, o) == CASE f \in {"vector_distance", "dipole.vector_distance"} -> Minus(p, o)
                         [] f \in {"distance", "dipole.distance"} -> <<Dot(Minus(p, o), Minus(p, o))>>
                         [] f \in {"vector_dot", "dipole.dot_orientation"} -> <<Dot(p, o)>>
                         [] f = "magnitude" -> <<Dot(p, p)>>
                         [] OTHER -> Cross(p, o)
PointShape(c) == LET lead == IF c.f \in {"vector_distance", "distance", "vector_dot"} THEN c.sh ELSE SubSeq(c.sh, 1, Len(c.sh) - 1)
                 IN IF c.f \in {"vector_distance", "dipole.vector_distance", "dipole.cross_orientation"} THEN lead \o <<3>> ELSE lead
PointClause(e) == IF e.out # "ok" THEN "raised an error"
                  ELSE IF e.shape # PointShape(e.cfg) THEN "shape of the result"
                  ELSE IF Len(e.vals) # Len(e.pts) THEN "number of entries"
                  ELSE IF e.cfg.arg = "default" /\ e.vec # Origin THEN "reference point"
                  ELSE IF \E k \in DOMAIN e.pts : e.vals[k] # PointValue(e.cfg.f, e.pts[k], e.vec) THEN "distance or product of a point" 
                  ELSE IF ~ e.exact THEN "digits of the result" ELSE ""

Dim(c) == CASE c.how = "1" -> 1 [] c.how = "2" -> 2 [] OTHER -> 3
TupLen(c) == CASE c.arg = "tuple1" -> 1 [] c.arg = "tuple2" -> 2 [] c.arg = "tuple4" -> 4 [] OTHER -> 3
Arg(c) == IF c.arg \in {"tuple1", "tuple2", "tuple3", "tuple4"} THEN [form |-> "tuple", shapes |-> [k \in 1..TupLen(c) |-> c.sh]]
          ELSE IF c.arg = "ragged" THEN [form |-> "tuple", shapes |-> <<c.sh, c.sh, c.sh \o <<2>> >>]
          ELSE [form |-> "array", shape |-> c.sh]

\* outcome the specification prescribes: refused, or shape and entries (C order)
NdgOut(c) == IF Len(c.sh) = 1 THEN [shape |-> c.sh, vals |-> << [k \in 1..c.sh[1] |-> k - 1] >>]
             ELSE IF c.how = "arrays"
             THEN [shape |-> c.sh, vals |-> [j \in DOMAIN c.sh |-> GridArr(c.sh, j)]]
             ELSE [shape |-> <<Prod(c.sh), Len(c.sh)>>,
                   vals |-> [j \in DOMAIN c.sh |-> [k \in 1..Prod(c.sh) |-> GridRows(c.sh)[k][j]]]]
MkvcDims(c) == CASE c.how = "2" -> 2 [] c.how = "3" -> 3 [] OTHER -> 1
MkvOut(c) == [shape |-> <<Prod(c.sh)>> \o Ones(MkvcDims(c) - 1), vals |-> << Flat(c.sh) >>]
\* check_xyz_dim: entries are numbered in C order; a tuple's k-th array holds k*1000 + position
ChkOut(c) == LET sh == PointsShape(Arg(c))
             IN [shape |-> sh,
                 vals |-> << [k \in 1..Prod(sh) |-> IF Arg(c).form = "tuple"
                                 THEN LET ix == LastFast(sh, k - 1) IN
                                      1000 * ix[Len(ix)] + CPos(c.sh, SubSeq(ix, 1, Len(ix) - 1))
                                 ELSE k - 1] >>]
AppOut(c) == [shape |-> c.sh \o Ones(CASE c.how = "0" -> 0 [] c.how = "1" -> 1 [] c.how = "2" -> 2 [] OTHER -> 3),
              vals |-> << [k \in 1..Prod(c.sh) |-> k - 1] >>]
RepOut(c) == [shape |-> <<c.sh[1], Dim(c)>>, vals |-> << [k \in 1..(c.sh[1] * Dim(c)) |-> (k - 1) \div Dim(c)] >>]
Refused(c) == c.f = "check" /\ ~ PointsOK(Arg(c), Dim(c))
Expected(c) == CASE c.f = "ndgrid" -> NdgOut(c) [] c.f = "mkvc" -> MkvOut(c) [] c.f = "check" -> ChkOut(c)
                 [] c.f = "append" -> AppOut(c) [] OTHER -> RepOut(c)
GrdClause(e) ==
  LET c == e.cfg IN
  IF c \in PointCases THEN PointClause(e) ELSE
  IF Refused(c) THEN (IF e.out = "ok" THEN "accepted points of the wrong dimension" ELSE "")
  ELSE IF e.out # "ok" THEN "raised an error"
  ELSE IF e.shape # Expected(c).shape THEN "shape of the result"
  ELSE IF e.vals # Expected(c).vals THEN "entries of the result or their order"
  ELSE IF ~ e.float THEN "points are not returned as floats"
  ELSE ""
============================================================================
