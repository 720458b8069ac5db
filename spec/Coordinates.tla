---------------------------- MODULE Coordinates ----------------------------
(***************************************************************************)
(* Cylindrical (rho, phi, z) and spherical (r, phi, theta) coordinates are *)
(* given by their forward maps into Cartesian space; the inverse maps are  *)
(* specified by the relation "the forward map takes the result back", with *)
(* rho, r >= 0, -pi <= phi <= pi, 0 <= theta <= pi.  A vector at a point   *)
(* is converted with the orthonormal frame of the coordinates there: the   *)
(* normalised derivatives of the forward map.                              *)
(* The rotation taking direction p to direction q is the proper rotation   *)
(* about p x q.                                                            *)
(***************************************************************************)
EXTENDS Term, ConformRules

SinF(a) == Fn("sin", a)
CosF(a) == Fn("cos", a)
Ra == V("r")  Ph == V("ph")  Th == V("th")  Zz == V("zz")
CylMap == <<Mul(Ra, CosF(Ph)), Mul(Ra, SinF(Ph)), Zz>>
SphMap == << ProdT(<<Ra, SinF(Th), CosF(Ph)>>), ProdT(<<Ra, SinF(Th), SinF(Ph)>>), Mul(Ra, CosF(Th)) >>
\* frames: columns are unit vectors
CylFrame == << <<CosF(Ph), SinF(Ph), Zero>>, <<Neg(SinF(Ph)), CosF(Ph), Zero>>, <<Zero, Zero, One>> >>
SphFrame == << <<Mul(SinF(Th), CosF(Ph)), Mul(SinF(Th), SinF(Ph)), CosF(Th)>>,
               <<Neg(SinF(Ph)), CosF(Ph), Zero>>,
               <<Mul(CosF(Th), CosF(Ph)), Mul(CosF(Th), SinF(Ph)), Neg(SinF(Th))>> >>
Comp == <<V("v1"), V("v2"), V("v3")>>
ToCart(F) == TLCEval([k \in 1..3 |-> SumT([j \in 1..3 |-> Mul(Comp[j], F[j][k])])])
FromCart(F) == TLCEval([j \in 1..3 |-> SumT([k \in 1..3 |-> Mul(Comp[k], F[j][k])])])

\* ---- rotations ---------------------------------------------------------
PV == Vec("p")  QV == Vec("q")
Unit(w) == LET nn == Inv(Sqrt(Dot(w, w))) IN [k \in 1..3 |-> Mul(nn, w[k])]
Rodrigues ==                                       \* over unit vectors p, q
  LET c == Dot(PV, QV)
      k == Cross(PV, QV)
      s == << <<Zero, Neg(k[3]), k[2]>>, <<k[3], Zero, Neg(k[1])>>, <<Neg(k[2]), k[1], Zero>> >>
  IN [i \in 1..3 |-> [j \in 1..3 |->
        SumT(<<IF i = j THEN c ELSE Zero, s[i][j], ProdT(<<k[i], k[j], Inv(Add(One, c))>>)>>)]]
UnitOf(t) == LET a == Unit(Vec("n"))
                 b == Unit(Vec("m"))
             IN Subst(t, [px |-> a[1], py |-> a[2], pz |-> a[3], qx |-> b[1], qy |-> b[2], qz |-> b[3]])
RotM == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> UnitOf(Rodrigues[i][j])]])
RotP == TLCEval([i \in 1..3 |-> Add(V("c" \o XYZ[i]), SumT([j \in 1..3 |-> Mul(RotM[i][j], Sub(V(XYZ[j]), V("c" \o XYZ[j])))]))])
\* a reported matrix w (relational checks, used also for opposite directions)
Wm == [i \in 1..3 |-> [j \in 1..3 |-> V("w" \o ToString(3 * (i - 1) + j))]]
Gram == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> SumT([k \in 1..3 |-> Mul(Wm[k][i], Wm[k][j])])]])
DetW == Dot(Wm[1], Cross(Wm[2], Wm[3]))
Took == TLCEval([i \in 1..3 |-> SumT([k \in 1..3 |-> Mul(Wm[i][k], Unit(Vec("n"))[k])])])

CooTerms ==
  [ cylmap |-> CylMap, sphmap |-> SphMap, cylmap2 |-> <<CylMap[1], CylMap[2]>>,
    cyltocart |-> ToCart(CylFrame), cylfromcart |-> FromCart(CylFrame),
    sphtocart |-> ToCart(SphFrame), sphfromcart |-> FromCart(SphFrame),
    rot |-> RotM, rotp |-> RotP, gram |-> Gram, det |-> DetW, took |-> Took,
    unitm |-> Unit(Vec("m")), norm |-> Sqrt(Dot(Vec("n"), Vec("n"))),
    dist |-> Sqrt(SumT([k \in 1..3 |-> Pow(Sub(V(XYZ[k]), V("c" \o XYZ[k])), 2)])),
    vdist |-> [k \in 1..3 |-> Sub(V(XYZ[k]), V("c" \o XYZ[k]))],
    vdot |-> Dot(<<VX, VY, VZ>>, Vec("c")), vmag |-> Sqrt(Dot(<<VX, VY, VZ>>, <<VX, VY, VZ>>)) ]

\* derivative of the map along coordinate u = length * unit vector
FrameIs(map, frame, u, j, len) == [k \in 1..3 |-> Sub(D(map[k], u), Mul(len, frame[j][k]))]
VecIds(n, w) == [k \in 1..3 |-> [n |-> n \o ", component " \o ToString(k), t |-> w[k]]]
MM(i, j) == SumT([k \in 1..3 |-> Mul(RotM[k][i], RotM[k][j])])
CooIdentities ==
  VecIds("cylindrical frame, rho", FrameIs(CylMap, CylFrame, "r", 1, One)) \o
  VecIds("cylindrical frame, phi", FrameIs(CylMap, CylFrame, "ph", 2, Ra)) \o
  VecIds("cylindrical frame, z", FrameIs(CylMap, CylFrame, "zz", 3, One)) \o
  VecIds("spherical frame, r", FrameIs(SphMap, SphFrame, "r", 1, One)) \o
  VecIds("spherical frame, phi", FrameIs(SphMap, SphFrame, "ph", 2, Mul(Ra, SinF(Th)))) \o
  VecIds("spherical frame, theta", FrameIs(SphMap, SphFrame, "th", 3, Ra)) \o
  << [n |-> "cylindrical conversion keeps length", t |-> Sub(Dot(ToCart(CylFrame), ToCart(CylFrame)), Dot(Comp, Comp))],
     [n |-> "spherical conversion keeps length", t |-> Sub(Dot(ToCart(SphFrame), ToCart(SphFrame)), Dot(Comp, Comp))],
     [n |-> "there and back (cylindrical)", t |-> Sub(Subst(FromCart(CylFrame)[2], [v1 |-> ToCart(CylFrame)[1], v2 |-> ToCart(CylFrame)[2], v3 |-> ToCart(CylFrame)[3]]), V("v2"))],
     [n |-> "there and back (spherical)", t |-> Sub(Subst(FromCart(SphFrame)[3], [v1 |-> ToCart(SphFrame)[1], v2 |-> ToCart(SphFrame)[2], v3 |-> ToCart(SphFrame)[3]]), V("v3"))],
     [n |-> "radius of the spherical map", t |-> Sub(Dot(SphMap, SphMap), Pow(Ra, 2))],
     [n |-> "rotation: orthogonal 11", t |-> Sub(MM(1, 1), One)], [n |-> "rotation: orthogonal 12", t |-> MM(1, 2)],
     [n |-> "rotation: orthogonal 33", t |-> Sub(MM(3, 3), One)],
     [n |-> "rotation: proper", t |-> Sub(Dot(RotM[1], Cross(RotM[2], RotM[3])), One)],
     [n |-> "rotation: takes n to m", t |-> Sub(Dot(RotM[2], Unit(Vec("n"))), Unit(Vec("m"))[2])],
     [n |-> "rotation: axis n x m", t |-> LET k == Cross(Vec("n"), Vec("m")) IN Sub(Dot(RotM[1], k), k[1])],
     [n |-> "rotation about a centre keeps distances",
      t |-> LET dd == [i \in 1..3 |-> Sub(RotP[i], V("c" \o XYZ[i]))] IN Sub(Dot(dd, dd), Pow(Sqrt(SumT([k \in 1..3 |-> Pow(Sub(V(XYZ[k]), V("c" \o XYZ[k])), 2)])), 2))] >>
CooControls == << [n |-> "control: the frames depend on phi", t |-> D(ToCart(CylFrame)[1], "ph")],
                  [n |-> "control: theta is the polar angle", t |-> Sub(SphMap[3], Mul(Ra, SinF(Th)))] >>

Wheres == << "generic", "octants", "axes", "planes", "origin", "nearaxis", "large", "small" >>
Forms  == << "one", "rows", "grid", "list", "int", "empty", "strided", "tuplerow", "single" >>
Maps   == {"cyl2cart", "cart2cyl", "sph2cart", "cart2sph"}
ConvConfigs == {c \in [what : Maps, where : Elems(Wheres), form : Elems(Forms), alias : {"no", "yes"}] :
                  /\ c.form = "int" => c.where \in {"octants", "axes", "planes", "origin"}
                  /\ c.alias = "yes" => c.where = "generic" /\ c.form = "rows"}
Conv2Configs == {c \in [what : {"cyl2cart2", "cart2cyl2"}, where : Elems(Wheres), form : {"rows", "one", "grid"}, alias : {"no"}] : c.form # "int"}
RotConfigs == {c \in [what : {"rot"}, where : {"generic", "same", "opposite", "nearsame", "nearopposite", "closeopposite", "axes", "negaxes", "right"},
               form : {"array", "list", "int", "unnorm", "column", "object"}, alias : {"no"}] :
                  c.form = "int" => c.where \notin {"nearsame", "nearopposite", "closeopposite"}}
RotPConfigs == [what : {"rotp"}, where : {"generic", "same", "opposite", "nearopposite", "axes"}, form : {"rows", "strided", "empty"},
                alias : {"origin", "centre"}]
MetricConfigs == [what : {"metric"}, where : {"generic", "large", "small", "axes"}, form : {"rows", "one_row", "empty", "strided", "int"}, alias : {"default", "given"}]
CooReq(c, q) == IF c.form = "single" THEN Rule(50, 90, "formula") ELSE Rule(110, 30, "formula")
CooPlan == PlanOf(((ConvConfigs \cup Conv2Configs) \X {"points", "vectors"}) \cup {p \in RotConfigs \X {"matrix", "gram", "det", "took"} :
                     p[2] = "matrix" => p[1].where \notin {"opposite", "closeopposite", "negaxes"}}
                  \cup (RotPConfigs \X {"points"}) \cup (MetricConfigs \X {"dist", "vdist", "vdot", "vmag"}), CooReq)
CooClause(e) == IF e.out = "ok" /\ "range" \in DOMAIN e /\ ~ e.range THEN "coordinate outside its range"
                ELSE LawClause(e, CooReq(e.cfg, e.qty))
============================================================================
