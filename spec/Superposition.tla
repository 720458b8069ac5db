---------------------------- MODULE Superposition ----------------------------
(***************************************************************************)
(* Linearity in the strength of the source, and sources made of parts.     *)
(*                                                                         *)
(* Composite sources are chains: a wire is the sum of its directed unit    *)
(* edges, a box the signed sum of its eight corners (the corner form of    *)
(* every prism solution), a grounded wire also the difference of its end   *)
(* electrodes.  Two descriptions of one source have equal chains, and      *)
(* whatever is a homomorphism of chains superposes.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, ConformRules, Catalogue

\* ---- chains: functions from a finite set of cells to the integers ---------
Zero(S) == [c \in S |-> 0]
Plus(f, g) == [c \in DOMAIN f |-> f[c] + g[c]]
Neg(f) == [c \in DOMAIN f |-> 0 - f[c]]
RECURSIVE SumSeq(_, _, _)
SumSeq(s, Of(_), z) == IF s = <<>> THEN z ELSE Plus(Of(Head(s)), SumSeq(Tail(s), Of, z))

\* ---- wires on a lattice: nodes, straight segments along an axis -------------
N == 0..2
Nodes == N \X N
Cells == Nodes \X {"h", "v"}                     \* the unit edge going right / up from a node
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Straight(p, q) == (p[1] = q[1] \/ p[2] = q[2]) /\ p # q
Between(a, x, b) == (a <= x /\ x < b) \/ (b <= x /\ x < a)
SegChain(s) == LET p == s[1] q == s[2] IN
  [c \in Cells |-> LET m == c[1] IN
     IF c[2] = "h" /\ p[2] = q[2] /\ m[2] = p[2] /\ Between(p[1], m[1], q[1]) THEN Sgn(q[1] - p[1])
     ELSE IF c[2] = "v" /\ p[1] = q[1] /\ m[1] = p[1] /\ Between(p[2], m[2], q[2]) THEN Sgn(q[2] - p[2]) ELSE 0]
Segments(w) == [k \in 1..(Len(w) - 1) |-> <<w[k], w[k + 1]>>]
WireChain(w) == SumSeq(Segments(w), SegChain, Zero(Cells))
Ends(w) == [p \in Nodes |-> (IF p = w[Len(w)] THEN 1 ELSE 0) - (IF p = w[1] THEN 1 ELSE 0)]
Reverse(w) == [k \in 1..Len(w) |-> w[Len(w) + 1 - k]]
Inner(p, q) == {m \in Nodes : m # p /\ m # q /\ ((p[1] = q[1] /\ m[1] = p[1] /\ Between(p[2], m[2], q[2])) \/ (p[2] = q[2] /\ m[2] = p[2] /\ Between(p[1], m[1], q[1])))}
Insert(w, k, m) == SubSeq(w, 1, k) \o <<m>> \o SubSeq(w, k + 1, Len(w))
Shift(w) == SubSeq(w, 2, Len(w)) \o <<w[2]>>                \* a closed wire entered at its next node

\* ---- boxes: lo and hi corners -----------------------------------------------
M == 0..2
Corner == M \X M \X M
Box(b) == \A i \in 1..3 : b[1][i] < b[2][i]
BoxChain(b) == [c \in Corner |-> IF \A i \in 1..3 : c[i] \in {b[1][i], b[2][i]}
                                  THEN (IF c[1] = b[1][1] THEN -1 ELSE 1) * (IF c[2] = b[1][2] THEN -1 ELSE 1) * (IF c[3] = b[1][3] THEN -1 ELSE 1) ELSE 0]
Cut(b, i, m) == << <<b[1], [b[2] EXCEPT ![i] = m]>>, <<[b[1] EXCEPT ![i] = m], b[2]>> >>

\* ---- the strengths of the classes ---------------------------------------------
Strengths(c) ==
  CASE c = "PointMass" -> {"mass"} [] c \in {"GravitySphere", "GravityPrism"} -> {"rho"}
    [] c = "MagneticPrism" -> {"magnetization"}
    [] c \in {"ElectrostaticSphere", "MagnetostaticSphere"} -> {"primary_field"}
    [] c \in {"PointCurrentWholeSpace", "PointCurrentHalfSpace", "DipoleHalfSpace", "CircularLoop", "LineCurrent"} -> {"current"}
    [] c \in {"HarmonicElectricDipole", "TransientElectricDipole"} -> {"current", "length"}
    [] c \in {"HarmonicPlaneWave", "TransientPlaneWave"} -> {"amplitude"}
    [] c = "Fault" -> {"slip"} [] c = "Interferogram" -> {}
    [] OTHER -> {"moment"}
Signless(a) == a \in {"length", "slip"}                        \* strictly positive parameters
Scalings(a) == IF a = "length" THEN {"scale", "big", "tiny"} ELSE IF a = "slip" THEN {"scale", "zero", "big", "tiny"} ELSE {"zero", "negate", "scale", "big", "tiny"}
Vectors(c) == CASE c = "MagneticPrism" -> {"magnetization"} [] c \in {"ElectrostaticSphere", "MagnetostaticSphere"} -> {"primary_field"}
                [] c \in {"StaticMagneticDipole", "HarmonicElectricDipole", "HarmonicMagneticDipole", "TransientElectricDipole", "HarmonicPlaneWave", "TransientPlaneWave",
                          "HarmonicDipoleHalfSpace", "HarmonicDipoleLayered"} -> {"orientation"}
                [] OTHER -> {}
Reversible(c) == CASE c = "LineCurrent" -> {"nodes"} [] c = "DipoleHalfSpace" -> {"electrodes"} [] c = "Fault" -> {"rake"}
                   [] c = "CircularLoop" -> {"orientation"} [] OTHER -> Vectors(c)
Parts(c) == CASE c = "LineCurrent" -> {"segments", "halves", "refined", "entered", "outandback", "repeated"}
              [] c \in {"GravityPrism", "MagneticPrism"} -> {"cut1", "cut2", "cut3", "eight", "sliver"}
              [] c = "DipoleHalfSpace" -> {"electrodes"}
              [] c = "Fault" -> {"rake"} [] OTHER -> {}
Askable(c) == {Classes[c].queries[n] : n \in {k \in DOMAIN Classes[c].queries : Classes[c].rank[k] >= 0}} \cup (IF c = "Fault" THEN {"@displacement_vector"} ELSE {})

SupConfigs == UNION {UNION {
     {[cls |-> c, q |-> q, rule |-> r, attr |-> a] : <<a, r>> \in UNION {{a} \X Scalings(a) : a \in Strengths(c)}}
     \cup {[cls |-> c, q |-> q, rule |-> r, attr |-> a] : a \in Vectors(c), r \in {"components", "two", "unequal"}}
     \cup {[cls |-> c, q |-> q, rule |-> "reverse", attr |-> a] : a \in Reversible(c)}
     \cup {[cls |-> c, q |-> q, rule |-> p, attr |-> "parts"] : p \in Parts(c)} : q \in Askable(c)} : c \in DOMAIN Classes}
SupRule(c, q) == IF c.rule = "zero" THEN Rule(999, 0, "exact") ELSE IF c.rule = "unequal" THEN Rule(IF c.cls \in {"ElectrostaticSphere", "MagnetostaticSphere"} THEN 15 ELSE 30, 0, "exact") ELSE Rule(85, 0, "exact")
SupPlan == PlanOf(SupConfigs \X {"sum"}, SupRule)
SupClause(e) == IF e.out # "ok" THEN "query failed" ELSE IF ~ e.shape THEN "shape of the result"
                ELSE IF e.d < SupRule(e.cfg, e.qty).req THEN
                   (IF e.cfg.attr = "parts" THEN "the whole is not the sum of its parts" ELSE IF e.cfg.rule = "reverse" THEN "reversal does not change the sign" ELSE "not linear in the strength")
                ELSE ""
===========================================================================
