------------------------------ MODULE Harmonic ------------------------------
(***************************************************************************)
(* Harmonic dipoles in a whole space, time convention exp(+i w t):         *)
(*    curl E = -i w mu H,   curl H = (sigma + i w eps) E   off the source  *)
(* with wavenumber k = sqrt(w^2 mu eps - i w mu sigma), decaying branch.   *)
(* quasi-static: the same with eps = 0.                                    *)
(***************************************************************************)
EXTENDS Term, ConformRules

Rv == << Sub(VX, V("cx")), Sub(VY, V("cy")), Sub(VZ, V("cz")) >>
R2 == Dot(Rv, Rv)
Ov == Vec("o")
W == ProdT(<<N(2), Pi, V("f")>>)
SigHat == Add(V("sig"), ProdT(<<Im, W, V("eps")>>))
K2 == Neg(ProdT(<<Im, W, V("mu"), SigHat>>))
\* written over let-bound r, k and g = exp(-i k r)
Rr == V("r")  Kk == V("k")  Gg == V("g")
IKR == ProdT(<<Im, Kk, Rr>>)
Let(t) == Subst(Subst(Subst(t, [g |-> Exp(Neg(IKR))]), [k |-> Sqrt(K2)]), [r |-> Sqrt(R2)])
LetV(w) == << Let(w[1]), Let(w[2]), Let(w[3]) >>
C4 == Inv(Mul(N(4), Pi))

\* the tensor of the near-field singularity: curl curl (o g / r)
Dy == VAdd(Scale(ProdT(<<Dot(Rv, Ov), Pow(Rr, -5), Gg, SumT(<<N(3), Mul(N(3), IKR), Pow(IKR, 2)>>)>>), Rv),
           Scale(Neg(ProdT(<<Pow(Rr, -3), Gg, SumT(<<One, IKR, Pow(IKR, 2)>>)>>)), Ov))
Ct == Scale(ProdT(<<Pow(Rr, -3), Gg, Add(One, IKR)>>), Cross(Ov, Rv))     \* curl (o g / r)

\* electric dipole of moment p = I ds
EA == LetV(Scale(ProdT(<<V("p"), C4, Inv(Rr), Gg>>), Ov))
EH == LetV(Scale(Mul(V("p"), C4), Ct))
EE == LetV(Scale(ProdT(<<V("p"), C4, Inv(SigHat)>>), Dy))
EEdev == LetV(Scale(ProdT(<<V("p"), C4, Inv(V("sig"))>>), Dy))
\* magnetic dipole of moment p
IWM == ProdT(<<Im, W, V("mu")>>)
MF == LetV(Scale(ProdT(<<IWM, V("p"), C4, Inv(Rr), Gg>>), Ov))
ME == LetV(Scale(Neg(ProdT(<<IWM, V("p"), C4>>)), Ct))
MH == LetV(Scale(Mul(V("p"), C4), Dy))
Sg(w) == Scale(V("sig"), w)
Mu(w) == Scale(V("mu"), w)

HarTerms == [ Electric |-> [A |-> EA, E |-> EE, J |-> Sg(EE), H |-> EH, B |-> Mu(EH), Edev |-> EEdev, Jdev |-> Sg(EEdev)],
              Magnetic |-> [A |-> MF, E |-> ME, J |-> Sg(ME), H |-> MH, B |-> Mu(MH)] ]

Comp(nm, w) == [j \in 1..3 |-> [n |-> nm \o " [" \o XYZ[j] \o "]", t |-> w[j]]]
Static(t) == Subst(t, [f |-> Zero])
CoulombDip == Grad(ProdT(<<N(-1), V("p"), C4, Inv(V("sig")), Dot(Ov, Rv), PowQ(R2, -3, 2)>>))
HarIdentities ==
  Comp("electric: H = curl A", VSub(Curl(EA), EH))
  \o Comp("electric: curl H = (sigma + i w eps) E", VSub(Curl(EH), Scale(SigHat, EE)))
  \o Comp("electric: curl E = -i w mu H", VAdd(Curl(EE), Scale(IWM, EH)))
  \o Comp("magnetic: E = -curl F", VAdd(Curl(MF), ME))
  \o Comp("magnetic: curl E = -i w mu H", VAdd(Curl(ME), Scale(IWM, MH)))
  \o Comp("magnetic: curl H = (sigma + i w eps) E", VSub(Curl(MH), Scale(SigHat, ME)))
  \o << [n |-> "electric: div E = 0", t |-> DivV(EE)], [n |-> "magnetic: div H = 0", t |-> DivV(MH)],
        [n |-> "electric: static limit is the Coulomb dipole", t |-> Sub(Static(EE[1]), CoulombDip[1])],
        [n |-> "electric: static limit is Biot-Savart", t |-> Sub(Static(EH[1]), ProdT(<<V("p"), C4, PowQ(R2, -3, 2), Cross(Ov, Rv)[1]>>))] >>
HarControls == << [n |-> "control: conduction-only prefactor", t |-> Sub(Curl(EH)[1], Mul(SigHat, EEdev[1]))] >>

Freqs   == << "scalar", "array", "int", "list", "one", "square", "zero" >>
Orients == << "X", "y", "Z", "neg", "int", "unnorm", "generic", "almost" >>
Places  == << "origin", "offset", "far", "int" >>
Regions == << "generic", "near", "far", "axis", "plane", "oaxis", "oplane" >>
Media   == << "earth", "resistive", "conductive", "magnetic", "dielectric", "noeps" >>
HarConfigs ==
  {c \in [src : {"Electric", "Magnetic"}, qs : {"full", "quasi"}, freq : Elems(Freqs), orient : Elems(Orients),
          loc : Elems(Places), region : Elems(Regions), medium : Elems(Media)] :
     /\ (Pos(Freqs, c.freq) + Pos(Orients, c.orient) + Pos(Regions, c.region)) % 7 = 0
     /\ (Pos(Media, c.medium) + Pos(Regions, c.region) + Pos(Places, c.loc)) % 4 = 0
     /\ (Pos(Orients, c.orient) + Pos(Media, c.medium) + 2 * Pos(Places, c.loc)) % 3 = 0}
HarReq(c, q) == Std
HarPlan == PlanOf(HarConfigs \X {"A", "E", "J", "H", "B"}, HarReq)
HarClause(e) ==
  LET l == LawClause(e, HarReq(e.cfg, e.qty)) IN
  IF l = "value differs from the law" /\ e.cfg.src = "Electric" /\ e.cfg.qs = "full" /\ e.qty \in {"E", "J"}
     /\ Precise(e.kd, e.kc, 80, 30)
  THEN "known:edipole_admittivity" ELSE l
============================================================================
