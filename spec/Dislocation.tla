---------------------------- MODULE Dislocation ----------------------------
(***************************************************************************)
(* Surface displacement of a rectangular dislocation in an elastic         *)
(* half-space.                                                             *)
(*                                                                         *)
(* First principles: U(n) is the displacement at a buried point caused by  *)
(* a unit force in direction n at a point of the surface (Boussinesq for   *)
(* the vertical, Cerruti for the horizontal force; z downwards).  They     *)
(* solve Navier's equation and leave the surface free of traction.  By     *)
(* Betti's theorem the displacement of the surface in direction n due to   *)
(* slip b on a surface element of normal v is  b . S(n) v  dA, S(n) the    *)
(* stress of U(n).  The rectangle is the integral over its elements; the   *)
(* closed form is the signed sum over the corners of an antiderivative.    *)
(***************************************************************************)
EXTENDS Term, ConformRules

R1 == Sqrt(SumT(<<Pow(VX, 2), Pow(VY, 2), Pow(VZ, 2)>>))
Em == Div(V("mu"), Add(V("lam"), V("mu")))                     \* 1 - 2 nu
R == V("R")
Rz == Add(R, VZ)
K0 == Inv(ProdT(<<N(4), Pi, V("mu")>>))
LetR(t) == Subst(t, [R |-> R1])
Vert == TLCEval([k \in 1..3 |-> LetR(Mul(K0,
   CASE k = 1 -> Sub(ProdT(<<VX, VZ, Pow(R, -3)>>), ProdT(<<Em, VX, Inv(Mul(R, Rz))>>))
     [] k = 2 -> Sub(ProdT(<<VY, VZ, Pow(R, -3)>>), ProdT(<<Em, VY, Inv(Mul(R, Rz))>>))
     [] k = 3 -> Add(Div(Add(One, Em), R), Mul(Pow(VZ, 2), Pow(R, -3)))))])
\* horizontal force along a, b the other horizontal axis
HorA(a) == LetR(Mul(K0, SumT(<<Inv(R), Mul(Pow(a, 2), Pow(R, -3)), Mul(Em, Sub(Inv(Rz), ProdT(<<Pow(a, 2), Inv(R), Pow(Rz, -2)>>)))>>)))
HorB == LetR(Mul(K0, Sub(ProdT(<<VX, VY, Pow(R, -3)>>), ProdT(<<Em, VX, VY, Inv(R), Pow(Rz, -2)>>))))
HorZ(a) == LetR(Mul(K0, Add(ProdT(<<a, VZ, Pow(R, -3)>>), ProdT(<<Em, a, Inv(Mul(R, Rz))>>))))
Force == << << HorA(VX), HorB, HorZ(VX) >>, << HorB, HorA(VY), HorZ(VY) >>, Vert >>
\* stress of a displacement
Stress(u) == TLCEval([i \in 1..3 |-> [j \in 1..3 |->
     Add(IF i = j THEN Mul(V("lam"), DivV(u)) ELSE Zero, Mul(V("mu"), Add(D(u[i], XYZ[j]), D(u[j], XYZ[i]))))]])
Navier(u, i) == Add(ProdT(<<Add(V("lam"), V("mu")), D(DivV(u), XYZ[i])>>), Mul(V("mu"), Lap(u[i])))
\* slip vector b on an element with normal v, at position (x, y, z) relative to the observer
Volterra(n) == LET S == Stress(Force[n]) IN
   SumT(<<SumT([j \in 1..3 |-> ProdT(<<V("bx"), S[1][j], Vec("v")[j]>>)]),
          SumT([j \in 1..3 |-> ProdT(<<V("by"), S[2][j], Vec("v")[j]>>)]),
          SumT([j \in 1..3 |-> ProdT(<<V("bz"), S[3][j], Vec("v")[j]>>)])>>)
(* Fault frame: X along strike, Y horizontally to the left of it (updip), Z *)
(* up; the observer at (ex, ey) from the element, which is at depth dd.     *)
(* Relative to the observer the element is at (-ex, -ey, dd) with z down.   *)
(* The fault dips to -Y: updip direction (0, cos, sin) (Z up).  The slip is *)
(* that of the hanging wall relative to the foot wall: b = U1 X + U2 updip. *)
Sd == Fn("sin", V("dl"))  Cd == Fn("cos", V("dl"))
\* normal pointing from foot wall to hanging wall (Z up): (0, -sin, cos); z down flips the last component
Element(n) == Subst(Volterra(n), [x |-> Neg(V("ex")), y |-> Neg(V("ey")), z |-> V("dd"),
                 bx |-> V("U1"), by |-> Mul(V("U2"), Cd), bz |-> Neg(Mul(V("U2"), Sd)),
                 vx |-> Zero, vy |-> Neg(Sd), vz |-> Neg(Cd)])
PointU == << Element(1), Element(2), Neg(Element(3)) >>          \* vertical component upwards

\* ---- closed form: corner function of (xi, eta), with q ------------------------
Xi == V("xi")  Et == V("et")  Qq == V("q")
RR == Sqrt(SumT(<<Pow(Xi, 2), Pow(Et, 2), Pow(Qq, 2)>>))
XX == Sqrt(Add(Pow(Xi, 2), Pow(Qq, 2)))
Yt == Add(Mul(Et, Cd), Mul(Qq, Sd))
Dt == Sub(Mul(Et, Sd), Mul(Qq, Cd))
Td == Div(Sd, Cd)
Rc == V("rc")  Xc == V("xc")
I4 == ProdT(<<Em, Inv(Cd), Sub(Fn("log", Add(Rc, Dt)), Mul(Sd, Fn("log", Add(Rc, Et))))>>)
I5 == ProdT(<<Em, N(2), Inv(Cd), Fn("atan", Div(Add(Mul(Et, Add(Xc, Mul(Qq, Cd))), ProdT(<<Xc, Add(Rc, Xc), Sd>>)), ProdT(<<Xi, Add(Rc, Xc), Cd>>)))>>)
I3 == Add(Mul(Em, Sub(ProdT(<<Inv(Cd), Yt, Inv(Add(Rc, Dt))>>), Fn("log", Add(Rc, Et)))), Mul(Td, I4))
I2 == Sub(Neg(Mul(Em, Fn("log", Add(Rc, Et)))), I3)
I1 == Sub(Neg(ProdT(<<Em, Inv(Cd), Xi, Inv(Add(Rc, Dt))>>)), Mul(Td, I5))
At == Fn("atan", ProdT(<<Xi, Et, Inv(Mul(Qq, Rc))>>))
Re == Inv(Mul(Rc, Add(Rc, Et)))
Rx == Inv(Mul(Rc, Add(Rc, Xi)))
P2 == Neg(Inv(Mul(N(2), Pi)))
StrikeF(i1, i2, i4) ==
  << SumT(<<ProdT(<<Xi, Qq, Re>>), At, Mul(i1, Sd)>>),
     SumT(<<ProdT(<<Yt, Qq, Re>>), ProdT(<<Qq, Cd, Inv(Add(Rc, Et))>>), Mul(i2, Sd)>>),
     SumT(<<ProdT(<<Dt, Qq, Re>>), ProdT(<<Qq, Sd, Inv(Add(Rc, Et))>>), Mul(i4, Sd)>>) >>
DipF(i1, i3, i5) ==
  << Sub(Div(Qq, Rc), ProdT(<<i3, Sd, Cd>>)),
     SumT(<<ProdT(<<Yt, Qq, Rx>>), Mul(Cd, At), Neg(ProdT(<<i1, Sd, Cd>>))>>),
     SumT(<<ProdT(<<Dt, Qq, Rx>>), Mul(Sd, At), Neg(ProdT(<<i5, Sd, Cd>>))>>) >>
LetC(t) == Subst(t, [rc |-> RR, xc |-> XX])
Corner(s, d, k) == LetC(Mul(P2, Add(Mul(V("U1"), s[k]), Mul(V("U2"), d[k]))))
CornerG == TLCEval([k \in 1..3 |-> Corner(StrikeF(I1, I2, I4), DipF(I1, I3, I5), k)])
\* four corners: xi = x +- L/2, eta measured from the bottom and the top edge
Corners(c) == LET at(xi, et) == Subst(c, [xi |-> xi, et |-> et])
                  xa == Add(V("fx"), Mul(Q(1, 2), V("len")))  xb == Sub(V("fx"), Mul(Q(1, 2), V("len")))
                  \* down-dip distances of the top and bottom edges from the surface trace
                  p == Mul(V("fy"), Cd)
                  ea == Add(p, V("wb"))  eb == Add(p, V("wt"))
              IN Subst(SumT(<<at(xa, ea), Neg(at(xa, eb)), Neg(at(xb, ea)), at(xb, eb)>>), [q |-> Mul(V("fy"), Sd)])
\* from east / north to the fault frame and back; s: strike in radians, dl: dip
Ss == Fn("sin", V("st"))  Cs == Fn("cos", V("st"))
Frame(t) == Subst(t, [fx |-> Add(Mul(VX, Ss), Mul(VY, Cs)), fy |-> Sub(Mul(VY, Ss), Mul(VX, Cs)),
                      wt |-> Div(V("top"), Sd), wb |-> Div(V("bot"), Sd),
                      U1 |-> Mul(V("slip"), Fn("cos", V("rk"))), U2 |-> Mul(V("slip"), Fn("sin", V("rk")))])
Back(w) == << Frame(Sub(Mul(w[1], Ss), Mul(w[2], Cs))), Frame(Add(Mul(w[1], Cs), Mul(w[2], Ss))), Frame(w[3]) >>
FaultLaw == Back(TLCEval([k \in 1..3 |-> Corners(CornerG[k])]))
\* one element at (a along strike, w down dip), for integration
ElemAt == Back(TLCEval([k \in 1..3 |-> Subst(PointU[k], [ex |-> Sub(V("fx"), V("a")), ey |-> Add(V("fy"), Mul(V("w"), Cd)), dd |-> Mul(V("w"), Sd)])]))
DislTerms == [rectangle |-> FaultLaw, element |-> ElemAt]

\* the element in the variables of the corner function
ElemQ(k) == Subst(PointU[k], [ex |-> Xi, ey |-> Yt, dd |-> Dt])
\* Okada's point source, as published
PubP == Add(Mul(V("ey"), Cd), Mul(V("dd"), Sd))
PubQ == Sub(Mul(V("ey"), Sd), Mul(V("dd"), Cd))
DislIdentities ==
  << [n |-> "Navier's equation, vertical force", t |-> SumT([i \in 1..3 |-> Mul(N(3 * i + 1), Navier(Force[3], i))])],
     [n |-> "Navier's equation, force along x", t |-> SumT([i \in 1..3 |-> Mul(N(3 * i + 1), Navier(Force[1], i))])],
     [n |-> "free surface, vertical force", t |-> SumT([i \in 1..3 |-> Mul(N(5 * i + 2), Subst(Stress(Force[3])[i][3], [z |-> Zero]))])],
     [n |-> "free surface, force along x", t |-> SumT([i \in 1..3 |-> Mul(N(5 * i + 2), Subst(Stress(Force[1])[i][3], [z |-> Zero]))])],
     \* resultant of the vertical traction below the load: -3 z^3/(2 pi R^5) integrates to -1 over a plane
     [n |-> "vertical load: traction on a horizontal plane", t |-> Add(Stress(Force[3])[3][3], LetR(ProdT(<<Q(3, 2), Inv(Pi), Pow(VZ, 3), Pow(R, -5)>>)))],
     [n |-> "horizontal load: traction on a horizontal plane", t |-> Add(Stress(Force[1])[1][3], LetR(ProdT(<<Q(3, 2), Inv(Pi), Pow(VX, 2), VZ, Pow(R, -5)>>)))],
     [n |-> "x: element is the derivative of the corner function", t |-> Sub(D(D(CornerG[1], "xi"), "et"), ElemQ(1))],
     [n |-> "y: element is the derivative of the corner function", t |-> Sub(D(D(CornerG[2], "xi"), "et"), ElemQ(2))],
     [n |-> "z: element is the derivative of the corner function", t |-> Sub(D(D(CornerG[3], "xi"), "et"), ElemQ(3))],
     [n |-> "rotation of the frame preserves length", t |-> Sub(Add(Pow(VX, 2), Pow(VY, 2)), Frame(Add(Pow(V("fx"), 2), Pow(V("fy"), 2))))],
     [n |-> "element: published point source (strike slip, x)",
      t |-> Subst(Sub(PointU[1], ProdT(<<P2, Add(ProdT(<<N(3), Pow(V("ex"), 2), PubQ, Pow(R, -5)>>),
                     ProdT(<<Em, V("ey"), Sd, Sub(Inv(Mul(R, Pow(Add(R, V("dd")), 2))), ProdT(<<Pow(V("ex"), 2), Add(Mul(N(3), R), V("dd")), Pow(R, -3), Pow(Add(R, V("dd")), -3)>>))>>))>>)),
                  [U1 |-> One, U2 |-> Zero, R |-> Sqrt(SumT(<<Pow(V("ex"), 2), Pow(V("ey"), 2), Pow(V("dd"), 2)>>))])] >>
DislControls == << [n |-> "control: dip slip differs from strike slip", t |-> Sub(Subst(PointU[1], [U1 |-> One, U2 |-> Zero]), Subst(PointU[1], [U1 |-> Zero, U2 |-> One]))],
                   [n |-> "control: stress below the load", t |-> Stress(Force[3])[1][3]] >>

\* ---- plan ----------------------------------------------------------------------
Dips == << "generic", "steep", "vertical", "shallow", "fortyfive" >>
Rakes == << "strike", "thrust", "normal", "antistrike", "generic" >>
Strikes == << "zero", "east", "full", "generic", "west" >>
Depths == << "buried", "deep", "surface", "thin" >>
Moduli == << "equal", "generic", "soft", "incompressible", "auxetic" >>
Places == << "generic", "far", "above", "trace", "ends" >>
Shapes == << "grid", "row", "column", "one" >>
DispCfg == {c \in [what : {"displacement"}, dip : Elems(Dips), rake : Elems(Rakes), strike : Elems(Strikes), depth : Elems(Depths), mod : Elems(Moduli), place : Elems(Places)] :
             /\ (Pos(Dips, c.dip) + Pos(Rakes, c.rake) + Pos(Strikes, c.strike)) % 5 = 0
             /\ (Pos(Depths, c.depth) + Pos(Moduli, c.mod) + Pos(Places, c.place) + Pos(Rakes, c.rake)) % 4 = 0
             /\ c.place = "trace" => c.depth \in {"buried", "deep"}}
Qty(c) == (IF c.place \in {"trace", "ends"} \/ c.dip = "vertical" THEN {} ELSE {"law"}) \cup (IF c.depth \in {"buried", "deep"} THEN {"integral"} ELSE {})
GridCfg == [what : {"grid"}, shape : Elems(Shapes), vectors : {"axes", "skew", "negative", "default"}]
ZeroCfg == [what : {"null"}, which : {"slip", "length", "depth"}]
AttrCfg == [what : {"attributes"}, cls : {"Fault", "Interferogram"}, how : {"construct", "assign", "lists", "strings"}]
DislRule(c, q) == CASE q = "law" -> Rule(70, 50, "formula") [] q = "integral" -> Rule(60, 0, "quadrature") [] OTHER -> Rule(100, 0, "exact")
DislPlan == PlanOf(UNION {{c} \X Qty(c) : c \in DispCfg} \cup ((GridCfg \cup ZeroCfg \cup AttrCfg) \X {"value"}), DislRule)
DislClause(e) == IF e.qty = "law" THEN LawClause(e, DislRule(e.cfg, e.qty))
                 ELSE IF e.out # "ok" THEN "raised an error" ELSE IF ~ e.shape THEN "layout of the result"
                 ELSE IF e.d < DislRule(e.cfg, e.qty).req
                      THEN (CASE e.qty = "integral" -> "not the integral of its elements" [] e.cfg.what = "grid" -> "not the grid spanned by O, U and V"
                              [] e.cfg.what = "null" -> "displacement of a fault that does not move" [] OTHER -> "attribute does not read back")
                 ELSE ""
============================================================================
