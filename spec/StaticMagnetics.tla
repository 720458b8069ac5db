-------------------------- MODULE StaticMagnetics --------------------------
(***************************************************************************)
(* Static magnetic sources in a whole space of permeability mu: dipole,    *)
(* pole, circular loop, polyline of line currents.                         *)
(*   B = curl A,  div B = 0,  curl B = 0 off the source,  B = mu H.        *)
(***************************************************************************)
EXTENDS Term, ConformRules

\* observation point relative to the source, orientation (a unit vector)
Rv == << Sub(VX, V("cx")), Sub(VY, V("cy")), Sub(VZ, V("cz")) >>
Rsq == Dot(Rv, Rv)
Ov == Vec("o")
\* rational parametrisation of unit vectors, for the identities
OnSphere(t) ==
  LET w == SumT(<<One, Pow(V("u"), 2), Pow(V("w"), 2)>>) IN
  Subst(t, [ox |-> Div(Mul(N(2), V("u")), w), oy |-> Div(Mul(N(2), V("w")), w),
            oz |-> Div(SumT(<<One, Neg(Pow(V("u"), 2)), Neg(Pow(V("w"), 2))>>), w)])

\* ---- dipole -------------------------------------------------------------
DipK == ProdT(<<V("mu"), V("m"), Inv(Mul(N(4), Pi))>>)
DipA == Scale(Mul(DipK, PowQ(Rsq, -3, 2)), Cross(Ov, Rv))
DipB == Scale(DipK, VSub(Scale(ProdT(<<N(3), Dot(Ov, Rv), PowQ(Rsq, -5, 2)>>), Rv), Scale(PowQ(Rsq, -3, 2), Ov)))

\* ---- pole -----------------------------------------------------------------
PoleB == Scale(Mul(DipK, PowQ(Rsq, -3, 2)), Rv)

\* ---- circular loop of radius a, current I -------------------------------
\* written over let-bound variables (Subst), which TLC evaluates once each
La    == V("a")
Lz == V("lz")  Lr2 == V("lr2")  Al2 == V("al2")  Be2 == V("be2")  EK == V("ek")  KK == V("kk")
LoopLet(t) ==
  Subst(Subst(Subst(Subst(t,
    [ek |-> Fn("ellipe", V("ksq")), kk |-> Fn("ellipk", V("ksq"))]),
    [ksq |-> ProdT(<<N(4), La, V("lr"), Inv(Be2)>>)]),
    [al2 |-> Add(Pow(Sub(La, V("lr")), 2), Pow(Lz, 2)), be2 |-> Add(Pow(Add(La, V("lr")), 2), Pow(Lz, 2))]),
    [lr |-> Sqrt(Dot(Cross(Ov, Rv), Cross(Ov, Rv))), lr2 |-> Dot(Cross(Ov, Rv), Cross(Ov, Rv)), lz |-> Dot(Ov, Rv)])
LoopLetV(w) == << LoopLet(w[1]), LoopLet(w[2]), LoopLet(w[3]) >>
LC    == ProdT(<<V("mu"), V("I"), Inv(Pi)>>)
LoopA == LoopLetV(Scale(ProdT(<<LC, Q(1, 2), Inv(Lr2), PowQ(Be2, -1, 2),
                 Sub(Mul(SumT(<<Pow(La, 2), Lr2, Pow(Lz, 2)>>), KK), Mul(Be2, EK))>>), Cross(Ov, Rv)))
LoopBz == ProdT(<<LC, Q(1, 2), Inv(Al2), PowQ(Be2, -1, 2),
                 Add(Mul(SumT(<<Pow(La, 2), Neg(Lr2), Neg(Pow(Lz, 2))>>), EK), Mul(Al2, KK))>>)
LoopBr == ProdT(<<LC, Lz, Q(1, 2), Inv(Al2), PowQ(Be2, -1, 2), Inv(Lr2),      \* B_rho / rho
                 Sub(Mul(SumT(<<Pow(La, 2), Lr2, Pow(Lz, 2)>>), EK), Mul(Al2, KK))>>)
LoopB == LoopLetV(VAdd(Scale(LoopBz, Ov), Scale(LoopBr, VSub(Rv, Scale(Lz, Ov)))))
\* exactly on the axis
LoopBAxis == LoopLetV(Scale(ProdT(<<V("mu"), V("I"), Q(1, 2), Pow(La, 2),
                    PowQ(Add(Pow(La, 2), Pow(Lz, 2)), -3, 2)>>), Ov))

\* ---- straight segments ----------------------------------------------------
Node(j) == Vec("p" \o ToString(j))
SegR(j) == VSub(<<VX, VY, VZ>>, Node(j))
Len2(w) == Sqrt(Dot(w, w))
SegA(j) == LET l == VSub(Node(j + 1), Node(j))
               s == Add(Len2(SegR(j)), Len2(SegR(j + 1)))
           IN Scale(ProdT(<<Inv(Len2(l)), Fn("log", Div(Add(s, Len2(l)), Sub(s, Len2(l))))>>), l)
SegB(j) == LET r0 == SegR(j)  r1 == SegR(j + 1)
               n0 == Len2(SegR(j))  n1 == Len2(SegR(j + 1))
           IN Scale(ProdT(<<Add(n0, n1), Inv(ProdT(<<n0, n1, Add(Mul(n0, n1), Dot(r0, r1))>>))>>), Cross(r0, r1))
LineK == ProdT(<<V("mu"), V("I"), Inv(Mul(N(4), Pi))>>)
SumSeg(S(_), n) == TLCEval([k \in 1..3 |-> Mul(LineK, SumT([j \in 1..n |-> S(j - 1)[k]]))])

OverMu(w) == Scale(Inv(V("mu")), w)
Lines == [j \in {1, 2, 3, 4, 9} |-> [A |-> SumSeg(SegA, j), B |-> SumSeg(SegB, j), H |-> OverMu(SumSeg(SegB, j))]]
MagTerms ==
  [ Dipole |-> [A |-> DipA, B |-> DipB, H |-> OverMu(DipB)],
    Pole   |-> [B |-> PoleB, H |-> OverMu(PoleB)],
    Loop   |-> [A |-> LoopA, B |-> LoopB, H |-> OverMu(LoopB)],
    LoopAxis |-> [B |-> LoopBAxis, H |-> OverMu(LoopBAxis)],
    Line   |-> [n1 |-> Lines[1], n2 |-> Lines[2], n3 |-> Lines[3], n4 |-> Lines[4], n9 |-> Lines[9]] ]

Comp(nm, w) == [k \in 1..3 |-> [n |-> nm \o " [" \o XYZ[k] \o "]", t |-> w[k]]]
CompS(nm, w) == [k \in 1..3 |-> [n |-> nm \o " [" \o XYZ[k] \o "]", t |-> OnSphere(w[k])]]
MagIdentities ==
  Comp("dipole: B = curl A", VSub(Curl(DipA), DipB))
  \o Comp("dipole: curl B = 0", Curl(DipB))
  \o << [n |-> "dipole: div B = 0", t |-> DivV(DipB)], [n |-> "pole: div B = 0", t |-> DivV(PoleB)] >>
  \o Comp("pole: curl B = 0", Curl(PoleB))
  \o CompS("loop: B = curl A", VSub(Curl(LoopA), LoopB))
  \o CompS("loop: curl B = 0", Curl(LoopB))
  \o << [n |-> "loop: div A = 0", t |-> OnSphere(DivV(LoopA))] >>
  \o Comp("segment: B = curl A", VSub(Curl(SegA(0)), SegB(0)))
  \o << [n |-> "segment: div B = 0", t |-> DivV(SegB(0))] >>
\* a polyline that closes carries no net current: curl B = 0 for a triangle
TriB == LET f(k) == SumT([j \in 1..3 |-> SegB(j - 1)[k]])
        IN [k \in 1..3 |-> Subst(Curl(<<f(1), f(2), f(3)>>)[k], [p3x |-> V("p0x"), p3y |-> V("p0y"), p3z |-> V("p0z")])]
MagIdentities2 == << [n |-> "closed polyline: (curl B)_x = 0", t |-> TriB[1]] >>
MagControls == << [n |-> "control: open segment has a displacement current", t |-> Curl(SegB(0))[1]],
                  [n |-> "control: non-unit orientation", t |-> Sub(Curl(LoopA)[1], LoopB[1])] >>

\* ---- plan -------------------------------------------------------------------
Orients == {"X", "y", "Z", "neg", "int", "unnorm", "generic", "almost"}
MagConfigs ==
  [src : {"Dipole", "Pole"}, orient : Orients, loc : {"origin", "offset", "far", "int"},
   region : {"generic", "axis", "plane", "near", "far", "oaxis", "oplane"}]
  \cup
  [src : {"Loop"}, orient : Orients, loc : {"origin", "offset", "far", "int"},
   region : {"generic", "oaxis", "nearaxis", "midaxis", "paraxis", "oplane", "inplane", "nearwire", "far"}]
  \cup
  [src : {"Line"}, orient : {"n1", "n2", "n3", "n4", "n9", "closed3", "closed4", "closed9", "axisaligned", "almostaligned", "repeated"},
   loc : {"origin", "offset", "far", "int"},
   region : {"generic", "extension", "nearextension", "near", "plane", "far"}]
MagQty(c) == IF c.src = "Pole" THEN {"B", "H"} ELSE {"A", "B", "H"}
\* Close to the axis of the loop the closed form cancels and an expansion in
\* the distance from the axis (below 1/1000 of the distance to the wire) is
\* accurate to 8 digits; in between, the closed form leaves 6 digits.
MagReq(c, q) == IF c.src = "Loop" /\ c.region \in {"oaxis", "nearaxis"} THEN Rule(80, 30, "input")
                ELSE IF c.src = "Loop" /\ c.region = "midaxis" THEN Rule(60, 30, "input")
                ELSE IF c.src = "Loop" /\ c.region = "paraxis" THEN Rule(80, 30, "input")
                ELSE IF c.src = "Line" /\ c.region \in {"extension", "nearextension"} THEN Rule(60, 30, "input")
                ELSE Std
MagPlan == PlanOf({p \in MagConfigs \X {"A", "B", "H"} : p[2] \in MagQty(p[1])}, MagReq)
MagClause(e) == LawClause(e, MagReq(e.cfg, e.qty))
============================================================================
