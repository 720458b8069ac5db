------------------------------- MODULE Medium -------------------------------
(***************************************************************************)
(* Quantities derived from the parameters of a homogeneous medium, and the *)
(* pair resistivity / conductivity.                                        *)
(***************************************************************************)
EXTENDS Term, ConformRules

W == ProdT(<<N(2), Pi, V("f")>>)
SigHat == Add(V("sig"), ProdT(<<Im, W, V("eps")>>))
K2 == Neg(ProdT(<<Im, W, V("mu"), SigHat>>))
Kfull == Sqrt(K2)
K2q == Neg(ProdT(<<Im, W, V("mu"), V("sig")>>))
Kq == Sqrt(K2q)
\* k = beta - i alpha; the skin depth is 1 / alpha
Wme == ProdT(<<Pow(W, 2), V("mu"), V("eps")>>)
Wms == ProdT(<<W, V("mu"), V("sig")>>)
Alpha2 == Mul(Q(1, 2), Sub(Sqrt(Add(Pow(Wme, 2), Pow(Wms, 2))), Wme))
Skin == PowQ(Alpha2, -1, 2)
SkinQ == Sqrt(Div(N(2), ProdT(<<W, V("sig"), V("mu")>>)))
\* what the library returns (a recorded deviation)
SkinDev == Mul(Inv(W), Sqrt(ProdT(<<V("mu"), V("eps"), Q(1, 2),
             Sub(Sqrt(Add(One, Pow(Div(V("sig"), Mul(W, V("eps"))), 2))), One)>>)))
Ms == Mul(V("mu"), V("sig"))
Peak == ProdT(<<Ms, Pow(V("z"), 2), Q(1, 6)>>)
Diffu == Sqrt(Div(Mul(N(2), V("t")), Ms))
Theta == Sqrt(Div(Ms, Mul(N(4), V("t"))))

MedTerms == [ omega |-> W, full |-> [sigma_hat |-> SigHat, wavenumber |-> Kfull, skin_depth |-> Skin, skindev |-> SkinDev],
              quasi |-> [sigma_hat |-> V("sig"), wavenumber |-> Kq, skin_depth |-> SkinQ],
              peak_time |-> Peak, diffusion_distance |-> Diffu, theta |-> Theta ]

\* the impulse of a diffusing plane wave
Pulse == ProdT(<<V("z"), PowQ(V("t"), -3, 2), Exp(Neg(ProdT(<<Ms, Pow(V("z"), 2), Inv(Mul(N(4), V("t")))>>)))>>)
Half(t) == Subst(t, [eps |-> Zero])
MedIdentities == <<
  [n |-> "k^2 = w^2 mu eps - i w mu sigma", t |-> Sub(K2, Sub(Wme, Mul(Im, Wms)))],
  [n |-> "k = beta - i alpha: (beta alpha)^2", t |-> Sub(ProdT(<<N(4), Alpha2, Add(Alpha2, Wme)>>), Pow(Wms, 2))],
  [n |-> "skin depth is the reciprocal of alpha", t |-> Sub(Mul(Pow(Skin, 2), Alpha2), One)],
  [n |-> "quasi-static skin depth: k = (1 - i) / delta", t |-> Sub(K2q, Mul(Neg(Mul(N(2), Im)), PowQ(SkinQ, -2, 1)))],
  [n |-> "quasi-static limit of k", t |-> Half(Sub(K2, K2q))],
  [n |-> "the pulse peaks in time at the peak time", t |-> Subst(D(Pulse, "t"), [t |-> Peak])],
  [n |-> "the pulse peaks in space at the diffusion distance", t |-> Subst(D(Pulse, "z"), [z |-> Diffu])],
  [n |-> "theta D = 1/sqrt 2", t |-> Sub(ProdT(<<N(2), Pow(Theta, 2), Div(Mul(N(2), V("t")), Ms)>>), One)],
  [n |-> "peak time of the diffusion distance", t |-> Sub(Mul(N(3), Subst(Peak, [z |-> Diffu])), V("t"))] >>
MedControls == << [n |-> "control: the recorded deviation is not the skin depth", t |-> Sub(Mul(Pow(SkinDev, 2), Alpha2), One)],
                  [n |-> "control: peak time with 1/4", t |-> Subst(D(Pulse, "t"), [t |-> ProdT(<<Ms, Pow(V("z"), 2), Q(1, 4)>>)])] >>

\* ---- plan -----------------------------------------------------------------
Harm == {"omega", "sigma_hat", "wavenumber", "skin_depth"}
Tran == {"peak_time", "diffusion_distance", "theta"}
FForms == {"scalar", "array", "int", "one", "column", "sigmas", "grid", "defaults", "keyword"}
HarmF == [who : {"function"}, kind : {"harmonic"}, qs : {"full", "quasi"}, form : FForms, medium : {"generic", "resistive", "conductive", "lossless", "zerofreq"}]
TranF == [who : {"function"}, kind : {"transient"}, qs : {"quasi"}, form : FForms, medium : {"generic", "resistive", "conductive"}]
HarmO == [who : {"BaseFDEM", "HarmonicElectricDipole", "HarmonicMagneticDipole", "HarmonicPlaneWave", "HarmonicDipoleHalfSpace"}, kind : {"harmonic"}, qs : {"full", "quasi"},
          form : {"scalar", "array", "list", "one", "int", "byrho", "changed"}, medium : {"generic", "resistive", "conductive", "lossless", "zerofreq"}]
TranO == [who : {"BaseTDEM", "TransientElectricDipole", "TransientPlaneWave", "TransientDipoleHalfSpace"}, kind : {"transient"}, qs : {"quasi"},
          form : {"scalar", "array", "list", "one", "int", "byrho", "changed"}, medium : {"generic", "resistive", "conductive"}]
LayO == [who : {"HarmonicDipoleLayered"}, kind : {"layered"}, qs : {"full", "quasi"}, form : {"1x1", "1x3", "3x3", "2x3", "3x1"}, medium : {"generic"}]
Valid(c, q) == /\ c.kind = "harmonic" => q \in Harm
               /\ c.kind = "transient" => q \in Tran
               /\ c.kind = "layered" => q \in {"omega", "sigma_hat"}
               /\ c.medium = "zerofreq" => q # "skin_depth"
               /\ (c.medium = "lossless" /\ c.qs = "full") => q # "skin_depth"          \* no digits are left in the recorded deviation
               /\ (c.medium = "lossless" \/ c.form = "defaults") => q # "omega"
\* ---- which of resistivity and conductivity was set last -----------------------
Ops == {"sigma", "rho", "badsigma", "badrho", "ctor"}
Seqs == UNION {{<<"ctor">> \o s : s \in [1..n -> Ops \ {"ctor"}]} : n \in 1..3}
Good(o) == o \in {"sigma", "rho", "ctor"}
LastGood(s, n) == CHOOSE k \in 1..n : Good(s[k]) /\ \A j \in (k + 1)..n : ~ Good(s[j])
RecClasses == {"StaticMagneticDipole", "CircularLoop", "LineCurrent", "PointCurrentWholeSpace", "HarmonicElectricDipole", "TransientPlaneWave"}
SeqConfigs == [who : RecClasses, kind : {"reciprocal"}, seq : Seqs]

MedReq(c, q) == Rule(120, 30, "formula")
MedPlan == PlanOf({p \in (HarmF \cup TranF \cup HarmO \cup TranO \cup LayO) \X (Harm \cup Tran) : Valid(p[1], p[2])} \cup (SeqConfigs \X {"reciprocal"}), MedReq)
SeqClause(e) == IF \E k \in DOMAIN e.cfg.seq : e.accepted[k] # Good(e.cfg.seq[k]) THEN "wrong values accepted or right ones refused"
                ELSE IF \E k \in DOMAIN e.cfg.seq : e.holds[k] # LastGood(e.cfg.seq, k) THEN "the value set last is not the one in force"
                ELSE IF \E k \in DOMAIN e.cfg.seq : ~ e.recip[k] THEN "resistivity is not the reciprocal of conductivity" ELSE ""
MedClause(e) ==
  IF e.cfg.kind = "reciprocal" THEN SeqClause(e)
  ELSE LET l == LawClause(e, MedReq(e.cfg, e.qty)) IN
       IF l = "value differs from the law" /\ e.qty = "skin_depth" /\ e.cfg.qs = "full" /\ Precise(e.kd, e.kc, 80, 60) THEN "known:skin_depth_full"
       ELSE IF l # "" /\ e.cfg.kind = "layered" /\ e.qty = "sigma_hat" /\ e.deviates THEN "known:layered_sigma_hat"
       ELSE l
===========================================================================
