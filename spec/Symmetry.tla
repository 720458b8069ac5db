------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* Moving, rotating and reflecting a whole experiment.                     *)
(*                                                                         *)
(* An experiment is a source, its orientation and observation points.  A   *)
(* motion is x -> g x + t with g orthogonal.  Results transform by their   *)
(* kind: scalars are kept, polar vectors are multiplied by g, axial        *)
(* vectors by det(g) g, tensors on both sides.  Which group of motions a   *)
(* class admits: all ("full"), the symmetries of a box ("box"), those that *)
(* keep the vertical ("vertical").                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, ConformRules, Catalogue

\* ---- orthogonal integer matrices ----------------------------------------
Idx == 1..3
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Apply(g, v) == << Dot(g[1], v), Dot(g[2], v), Dot(g[3], v) >>
Scale(k, v) == << k * v[1], k * v[2], k * v[3] >>
Det(g) == Dot(g[1], Cross(g[2], g[3]))
Col(g, j) == << g[1][j], g[2][j], g[3][j] >>
Mul(g, h) == [i \in Idx |-> [j \in Idx |-> Dot(g[i], Col(h, j))]]
Transpose(g) == [i \in Idx |-> Col(g, i)]
E(i, s) == [j \in Idx |-> IF j = i THEN s ELSE 0]
Signed == {-1, 1}
B3 == {[i \in Idx |-> E(p[i], s[i])] : p \in {q \in [Idx -> Idx] : \A a, b \in Idx : q[a] = q[b] => a = b}, s \in [Idx -> Signed]}
Outer(a, b) == [i \in Idx |-> Scale(a[i], b)]
Conj(g, t) == Mul(Mul(g, t), Transpose(g))

Kinds == {"scalar", "polar", "axial", "tensor"}
Act(kind, g, v) == CASE kind = "scalar" -> v
                     [] kind = "polar" -> Apply(g, v)
                     [] kind = "axial" -> Scale(Det(g), Apply(g, v))
                     [] OTHER -> Conj(g, v)

\* ---- the kinds of the library's quantities --------------------------------
GravityKind(q) == CASE q = "gravitational_potential" -> "scalar" [] q = "gravitational_field" -> "polar" [] OTHER -> "tensor"
Magnetic == {"StaticMagneticDipole", "CircularLoop", "HarmonicMagneticDipole", "HarmonicDipoleHalfSpace", "HarmonicDipoleLayered", "TransientDipoleHalfSpace"}
Axial == {"magnetic_field", "magnetic_flux_density", "magnetic_field_time_deriv", "magnetic_flux_density_time_deriv", "magnetic_field_time_derivative", "magnetic_flux_time_derivative",
          "magnetic_field/secondary", "magnetic_field/total", "magnetic_field/cartesian", "magnetic_flux_density/cartesian"}
Scalars == {"potential", "scalar_potential", "potential/total", "potential/primary", "potential/secondary", "charge_density"}
Kind(c, q) ==
  CASE c \in {"PointMass", "GravitySphere", "GravityPrism"} -> GravityKind(q)
    [] q \in Scalars -> "scalar"
    [] c = "MagneticPrism" -> IF q = "magnetic_field_gradient" THEN "tensor" ELSE "polar"       \* of magnetic charge
    [] c \in {"MagnetostaticSphere", "StaticMagneticPole", "ElectrostaticSphere"} -> "polar"
    [] c = "HarmonicMagneticDipole" /\ q = "vector_potential" -> "axial"                         \* E = -curl of it
    [] q \in Axial -> "axial"
    [] OTHER -> "polar"
\* how the orientation (moment) of a source transforms
SourceKind(c) == IF c \in Magnetic THEN "axial" ELSE "polar"
Group(c) == CASE c \in {"GravityPrism", "MagneticPrism"} -> "box"
              [] c \in {"PointCurrentHalfSpace", "DipoleHalfSpace", "HarmonicPlaneWave", "TransientPlaneWave", "HarmonicDipoleHalfSpace", "HarmonicDipoleLayered", "TransientDipoleHalfSpace", "Fault"} -> "vertical"
              [] OTHER -> "full"
\* relations between quantities that the kinds must respect
Derived == { <<"HarmonicElectricDipole", "vector_potential", "magnetic_field">>, <<"HarmonicMagneticDipole", "vector_potential", "electric_field">>,
             <<"TransientElectricDipole", "vector_potential", "magnetic_field">>, <<"StaticMagneticDipole", "vector_potential", "magnetic_flux_density">>,
             <<"CircularLoop", "vector_potential", "magnetic_flux_density">>, <<"LineCurrent", "vector_potential", "magnetic_flux_density">>,
             <<"HarmonicElectricDipole", "magnetic_field", "electric_field">>, <<"HarmonicMagneticDipole", "magnetic_field", "electric_field">> }   \* curl
CurlFlips == \A d \in Derived : {Kind(d[1], d[2]), Kind(d[1], d[3])} = {"polar", "axial"}

\* ---- plan -----------------------------------------------------------------
Moves(c) == CASE Group(c) = "box" -> {"translate", "rot90", "flip", "both90"}
              [] OTHER -> {"translate", "rot90", "flip", "rotate", "half", "mirror", "tiny", "both"}
Cartesian(q) == q \notin {"vector_potential/cylindrical", "magnetic_field/cylindrical", "magnetic_flux_density/cylindrical"}
Askable(c) == {n \in DOMAIN Classes[c].queries : Classes[c].rank[n] >= 0 /\ Cartesian(Classes[c].queries[n])}
Regions(c) == IF Group(c) = "vertical" \/ c = "LineCurrent" THEN {"generic"} ELSE {"generic", "axis", "plane", "oaxis"}
SymConfigs == UNION {{[cls |-> c, q |-> Classes[c].queries[n], move |-> m, region |-> r, orient |-> o,
                       kind |-> Kind(c, Classes[c].queries[n]), source |-> SourceKind(c), group |-> Group(c)] :
                        n \in Askable(c), m \in Moves(c), r \in Regions(c),
                        o \in IF "orientation" \in DOMAIN Classes[c].attrs THEN {"name", "vector"} ELSE {"none"}}
                     : c \in DOMAIN Classes}
              \cup {[cls |-> "Fault", q |-> "@displacement_vector", move |-> m, region |-> "generic", orient |-> "none", kind |-> "polar", source |-> "polar", group |-> "vertical"] :
                      m \in {"translate", "rotate", "rot90", "half", "tiny", "both"}}
SymRule(c, q) == Rule(70, 0, "exact")
SymPlan == PlanOf(SymConfigs \X {"moved"}, SymRule)
SymClause(e) == IF e.out # "ok" THEN "query failed" ELSE IF ~ e.shape THEN "shape of the result"
                ELSE IF e.d < SymRule(e.cfg, e.qty).req THEN "moving the experiment did not move the result with it" ELSE ""
===========================================================================
