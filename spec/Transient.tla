------------------------------ MODULE Transient ------------------------------
(***************************************************************************)
(* Transient electric dipole in a whole space, current switched off at     *)
(* t = 0, quasi-static (diffusive) Maxwell equations:                      *)
(*    curl H = sigma E,   curl E = -mu dH/dt,   theta = sqrt(mu sigma/4t)  *)
(***************************************************************************)
EXTENDS Term, ConformRules

Rv == << Sub(VX, V("cx")), Sub(VY, V("cy")), Sub(VZ, V("cz")) >>
R2 == Dot(Rv, Rv)
Ov == Vec("o")
Th == V("th")  Rr == V("r")  Er == V("er")  Ga == V("ga")   \* theta, r, erf(theta r), exp(-theta^2 r^2)
U == Mul(Th, Rr)
Let(t) == Subst(Subst(Subst(t, [er |-> Fn("erf", U), ga |-> Exp(Neg(Pow(U, 2)))]),
                [th |-> Sqrt(Div(Mul(V("mu"), V("sig")), Mul(N(4), V("t"))))]), [r |-> Sqrt(R2)])
LetV(w) == << Let(w[1]), Let(w[2]), Let(w[3]) >>
C4 == Inv(Mul(N(4), Pi))
RootPi == PowQ(Pi, -1, 2)
Com == ProdT(<<U, RootPi, Ga>>)
TrA == LetV(Scale(ProdT(<<V("p"), C4, Inv(Rr), Er>>), Ov))
TrH == LetV(Scale(ProdT(<<V("p"), C4, Pow(Rr, -3), Sub(Er, Mul(N(2), Com))>>), Cross(Ov, Rv)))
TrE == LetV(Scale(ProdT(<<V("p"), C4, Inv(V("sig"))>>),
          VSub(Scale(ProdT(<<Pow(Rr, -5), Dot(Rv, Ov), Sub(Mul(N(3), Er), Mul(Add(Mul(N(4), Pow(U, 2)), N(6)), Com))>>), Rv),
               Scale(ProdT(<<Pow(Rr, -3), Sub(Er, Mul(Add(Mul(N(4), Pow(U, 2)), N(2)), Com))>>), Ov))))
TrHt == LetV(Scale(ProdT(<<V("p"), C4, Pow(Rr, -3), N(-2), Pow(U, 2), Com, Inv(V("t"))>>), Cross(Ov, Rv)))
Mu(w) == Scale(V("mu"), w)
TraTerms == [A |-> TrA, E |-> TrE, J |-> Scale(V("sig"), TrE), H |-> TrH, B |-> Mu(TrH), dH |-> TrHt, dB |-> Mu(TrHt)]

Comp(nm, w) == [j \in 1..3 |-> [n |-> nm \o " [" \o XYZ[j] \o "]", t |-> w[j]]]
TraIdentities ==
  Comp("H = curl A", VSub(Curl(TrA), TrH))
  \o Comp("curl H = sigma E", VSub(Curl(TrH), Scale(V("sig"), TrE)))
  \o Comp("curl E = -mu dH/dt", VAdd(Curl(TrE), Mu(TrHt)))
  \o Comp("reported derivative is the derivative of H", VSub(<< D(TrH[1], "t"), D(TrH[2], "t"), D(TrH[3], "t") >>, TrHt))
  \o << [n |-> "div E = 0", t |-> DivV(TrE)] >>
TraControls == << [n |-> "control: H is not stationary", t |-> D(TrH[1], "t")],
                  [n |-> "control: E is not irrotational", t |-> Curl(TrE)[1]] >>

Times   == << "scalar", "array", "int", "list", "one", "square" >>
Orients == << "X", "y", "Z", "neg", "int", "unnorm", "generic", "almost" >>
Places  == << "origin", "offset", "far", "int" >>
Regions == << "generic", "early", "late", "axis", "plane", "oaxis", "oplane" >>
Media   == << "earth", "resistive", "conductive", "magnetic" >>
TraConfigs ==
  {c \in [src : {"Electric"}, time : Elems(Times), orient : Elems(Orients), loc : Elems(Places), region : Elems(Regions),
          medium : Elems(Media)] :
     /\ (Pos(Times, c.time) + Pos(Orients, c.orient) + Pos(Regions, c.region)) % 7 = 0
     /\ (Pos(Media, c.medium) + Pos(Regions, c.region) + Pos(Places, c.loc)) % 4 = 0}
TraReq(c, q) == Std
TraPlan == PlanOf(TraConfigs \X {"A", "E", "J", "H", "B", "dH", "dB"}, TraReq)
TraClause(e) == LawClause(e, TraReq(e.cfg, e.qty))
============================================================================
