---------------------------- MODULE Cylindrical ----------------------------
(***************************************************************************)
(* Static magnetic sources asked in cylindrical coordinates: points are    *)
(* (rho, phi, z) about the z axis, and the result is the same physical     *)
(* vector resolved on the unit vectors of the coordinates at the point.    *)
(***************************************************************************)
EXTENDS Term, ConformRules
SM == INSTANCE StaticMagnetics
SinF(a) == Fn("sin", a)
CosF(a) == Fn("cos", a)
Ra == V("r")  Ph == V("ph")  Zz == V("zz")
CylMap == <<Mul(Ra, CosF(Ph)), Mul(Ra, SinF(Ph)), Zz>>
CylFrame == << <<CosF(Ph), SinF(Ph), Zero>>, <<Neg(SinF(Ph)), CosF(Ph), Zero>>, <<Zero, Zero, One>> >>
Comp == <<V("v1"), V("v2"), V("v3")>>
Resolve(w) == TLCEval([j \in 1..3 |-> SumT([k \in 1..3 |-> Mul(w[k], CylFrame[j][k])])])
At(t) == Subst(t, [x |-> CylMap[1], y |-> CylMap[2], z |-> CylMap[3]])
AtV(w) == TLCEval([k \in 1..3 |-> At(w[k])])
\* the field of a source as a function of (r, ph, zz), in cylindrical components
Cyl(w) == Resolve(AtV(w))
DipAc == Cyl(SM!DipA)
DipBc == Cyl(SM!DipB)
PoleBc == Cyl(SM!PoleB)
CylTerms == [ Dipole |-> [A |-> DipAc, B |-> DipBc, H |-> SM!OverMu(DipBc)],
              Pole |-> [B |-> PoleBc, H |-> SM!OverMu(PoleBc)],
              same |-> Resolve(Comp) ]

\* vector analysis in cylindrical coordinates
CDiv(w) == SumT(<< Mul(Inv(Ra), D(Mul(Ra, w[1]), "r")), Mul(Inv(Ra), D(w[2], "ph")), D(w[3], "zz") >>)
CCurl(w) == << Sub(Mul(Inv(Ra), D(w[3], "ph")), D(w[2], "zz")),
               Sub(D(w[1], "zz"), D(w[3], "r")),
               Mul(Inv(Ra), Sub(D(Mul(Ra, w[2]), "r"), D(w[1], "ph"))) >>
OnAxis(t) == Subst(t, [cx |-> Zero, cy |-> Zero, ox |-> Zero, oy |-> Zero, oz |-> One])
Ids3(n, w) == [k \in 1..3 |-> [n |-> n \o ", component " \o ToString(k), t |-> w[k]]]
CylIdentities ==
  Ids3("dipole: B = curl A in cylindrical coordinates", VSub(CCurl(DipAc), DipBc)) \o
  << [n |-> "dipole: div B = 0 in cylindrical coordinates", t |-> CDiv(DipBc)],
     [n |-> "pole: div B = 0 in cylindrical coordinates", t |-> CDiv(PoleBc)],
     [n |-> "dipole: curl B = 0, phi", t |-> CCurl(DipBc)[2]],
     [n |-> "lengths are kept", t |-> Sub(Dot(Resolve(Comp), Resolve(Comp)), Dot(Comp, Comp))],
     [n |-> "vertical dipole on the axis: A is azimuthal", t |-> OnAxis(DipAc[1])],
     [n |-> "vertical dipole on the axis: B has no azimuthal part", t |-> OnAxis(DipBc[2])],
     [n |-> "vertical dipole on the axis: A does not depend on phi", t |-> OnAxis(D(DipAc[2], "ph"))],
     [n |-> "vertical dipole on the axis: B does not depend on phi", t |-> OnAxis(D(DipBc[1], "ph"))] >>
CylControls == << [n |-> "control: tilted dipole depends on phi", t |-> D(DipBc[1], "ph")],
                  [n |-> "control: a source off the axis has an azimuthal part", t |-> DipBc[2]] >>

\* ---- plan ---------------------------------------------------------------
\* regions: "zaxis0" on the axis with phi = 0 (the frame is x, y, z there);
\* "zaxis" on the axis with another phi (only length and vertical part are fixed)
CylConfigs == {c \in [src : {"Dipole", "Pole", "Loop"}, orient : {"X", "y", "Z", "neg", "generic", "unnorm"}, loc : {"origin", "offset", "axis"},
                      region : {"generic", "turns", "quarters", "tinyrho", "largerho", "zaxis0", "zaxis"}, form : {"rows", "grid", "tuple", "list", "one"}] :
                 /\ c.form # "rows" => c.region = "generic" /\ c.loc = "offset"
                 /\ c.src = "Loop" => c.region # "tinyrho" \/ c.loc = "offset"}
Names == {"polar", "CARTESIAN ", "spherical", "", "cyl", "xyz", "cylindrical_"}
RefConfigs == [src : {"Dipole", "Pole", "Loop"}, orient : Names, loc : {"-"}, region : {"-"}, form : {"name"}]
CaseConfigs == [src : {"Dipole", "Pole", "Loop"}, orient : {"CYLINDRICAL", "Cylindrical", "CARTESIAN", "Cartesian"}, loc : {"-"}, region : {"-"}, form : {"case"}]
Qty(c) == IF c.src = "Pole" THEN {"B", "H"} ELSE {"A", "B", "H"}
CylReq(c, q) == Rule(80, 30, "formula")
CylPlan == PlanOf(UNION {{c} \X Qty(c) : c \in CylConfigs \cup RefConfigs \cup CaseConfigs}, CylReq)
CylClause(e) == IF e.cfg.form = "name" THEN (IF e.out \in {"ok"} THEN "an unknown coordinate name was accepted" ELSE "") ELSE LawClause(e, CylReq(e.cfg, e.qty))
===========================================================================
