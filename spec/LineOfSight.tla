---------------------------- MODULE LineOfSight ----------------------------
(***************************************************************************)
(* The line of sight of a right-looking radar satellite.                   *)
(*                                                                         *)
(* On a sphere of radius R a point has the unit vector Pt(lon, lat), with  *)
(* east and north its derivatives.  The satellite flies with azimuth az    *)
(* along a great circle; the parallel track through the reference point    *)
(* has the unit normal Right = heading x up.  A point at the angle dist to *)
(* the right of that track sees the satellite (at height h) at the angle   *)
(* b2 = b + dist from its zenith at the centre of the Earth, where b is    *)
(* the angle at which the reference point sees it with incidence al.  The  *)
(* line of sight is the unit vector to the satellite (east, north, up).    *)
(***************************************************************************)
EXTENDS Term, ConformRules

Sn(a) == Fn("sin", a)  Cs(a) == Fn("cos", a)
Lon == V("lon")  Lat == V("lat")
Pt(lo, la) == << Mul(Cs(la), Cs(lo)), Mul(Cs(la), Sn(lo)), Sn(la) >>
East0 == << Neg(Sn(V("lon0"))), Cs(V("lon0")), Zero >>
North0 == [k \in 1..3 |-> D(Pt(V("lon0"), V("lat0"))[k], "lat0")]
Up0 == Pt(V("lon0"), V("lat0"))
Heading == [k \in 1..3 |-> Add(Mul(Cs(V("az")), North0[k]), Mul(Sn(V("az")), East0[k]))]
Right == Cross(Heading, Up0)
Asin(t) == Fn("atan", Mul(t, PowQ(Sub(One, Pow(t, 2)), -1, 2)))
Hgt == Add(V("R"), V("h"))
Dist == Asin(Dot(Right, Pt(Lon, Lat)))
Nadir == Sub(V("al"), Asin(Mul(Div(V("R"), Hgt), Sn(V("al")))))
B2 == Add(Nadir, Dist)
\* from the point to the satellite: horizontally (to the left of the track), and upwards
Hor(b) == Mul(Hgt, Sn(b))
Ver(b) == Sub(Mul(Hgt, Cs(b)), V("R"))
Slant(b) == Sqrt(Add(Pow(Hor(b), 2), Pow(Ver(b), 2)))
Sight(b) == << Neg(ProdT(<<Cs(V("az")), Hor(b), Inv(Slant(b))>>)), ProdT(<<Sn(V("az")), Hor(b), Inv(Slant(b))>>), Div(Ver(b), Slant(b)) >>
Law == TLCEval(Sight(B2))

\* ---- identities ------------------------------------------------------------
B == V("b")
LosIdentities ==
  << [n |-> "the track's normal is a unit vector", t |-> Sub(Dot(Right, Right), One)],
     [n |-> "the reference point is on the track", t |-> Dot(Right, Up0)],
     [n |-> "the track follows the azimuth", t |-> Dot(Right, Heading)],
     [n |-> "east is the derivative along the parallel", t |-> Sub(Dot(East0, [k \in 1..3 |-> D(Up0[k], "lon0")]), Cs(V("lat0")))],
     [n |-> "heading is a unit vector", t |-> Sub(Dot(Heading, Heading), One)],
     [n |-> "flying north, east is on the right", t |-> Sub(Dot(Right, East0), Cs(V("az")))],
     [n |-> "flying east, south is on the right", t |-> Add(Dot(Right, North0), Sn(V("az")))],
     [n |-> "the line of sight is a unit vector", t |-> Sub(Dot(Sight(B), Sight(B)), One)],
     \* sine rule: the reference point sees the satellite with the reference incidence (ga: angle at the satellite)
     [n |-> "reference incidence", t |-> LET R0 == Div(Mul(Hgt, Sn(V("ga"))), Sn(V("al")))
          sb == Sub(Mul(Sn(V("al")), Cs(V("ga"))), Mul(Cs(V("al")), Sn(V("ga"))))
          cb == Add(Mul(Cs(V("al")), Cs(V("ga"))), Mul(Sn(V("al")), Sn(V("ga"))))
        IN Sub(ProdT(<<Cs(V("al")), Hgt, sb>>), Mul(Sn(V("al")), Sub(Mul(Hgt, cb), R0)))],
     [n |-> "cosine rule", t |-> Sub(Pow(Slant(B), 2), SumT(<<Pow(V("R"), 2), Pow(Hgt, 2), ProdT(<<N(-2), V("R"), Hgt, Cs(B)>>)>>))] >>
LosControls ==
  << [n |-> "a satellite looking to the left", t |-> Add(Dot(Right, East0), Cs(V("az")))],
     [n |-> "incidence without the curvature of the Earth", t |-> Sub(ProdT(<<Cs(V("al")), Hgt, Sn(V("ga"))>>), Mul(Sn(V("al")), Sub(Mul(Hgt, Cs(V("ga"))), V("R"))))] >>
LosTerms == [sight |-> Law]

\* ---- plan --------------------------------------------------------------------
Places == {"reference", "near", "scene", "far"}
Headings == {"descending", "ascending", "north", "east", "generic"}
Forms == {"point", "three", "tuple", "list1", "list", "listlists"}
Hemispheres == {"north", "south"}
Incidences == {"generic", "steep", "grazing"}
LosConfigs == {c \in [place : Places, heading : Headings, form : Forms, side : Hemispheres, inc : Incidences] : TRUE}
LosRule(c, q) == Std
LosPlan == PlanOf(LosConfigs \X {"sight"}, LosRule)
LosClause(e) == LawClause(e, LosRule(e.cfg, e.qty))
===========================================================================
