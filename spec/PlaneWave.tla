------------------------------ MODULE PlaneWave ------------------------------
(***************************************************************************)
(* Downgoing plane waves (z positive upwards, datum z = 0).                *)
(*  harmonic:  E = E0 p exp(i k z), curl E = -i w B,                       *)
(*             curl H = (sigma + i w eps) E,                               *)
(*             k = sqrt(w^2 mu eps - i w mu sigma)                         *)
(*  transient: the diffusive response to an impulse of the electric field  *)
(*             at the datum:  curl E = -dB/dt,  curl H = sigma E           *)
(* p is a horizontal unit vector.                                          *)
(***************************************************************************)
EXTENDS Term, ConformRules

Ov == << V("ox"), V("oy"), Zero >>
\* p x (-z)
Perp == << Neg(V("oy")), V("ox"), Zero >>
W == ProdT(<<N(2), Pi, V("f")>>)
SigHat == Add(V("sig"), ProdT(<<Im, W, V("eps")>>))
K2 == Neg(ProdT(<<Im, W, V("mu"), SigHat>>))
Kk == V("k")
Let(t) == Subst(t, [k |-> Sqrt(K2)])
LetV(w) == << Let(w[1]), Let(w[2]), Let(w[3]) >>
Gh == Exp(ProdT(<<Im, Kk, VZ>>))
HaE == LetV(Scale(Mul(V("e0"), Gh), Ov))
HaB == LetV(Scale(Neg(ProdT(<<V("e0"), Kk, Inv(W), Gh>>)), Perp))

MS == Mul(V("mu"), V("sig"))
Gt == Exp(Neg(ProdT(<<MS, Pow(VZ, 2), Inv(Mul(N(4), V("t")))>>)))
TrE == Scale(Neg(ProdT(<<V("e0"), Sqrt(MS), VZ, Gt, Q(1, 2), PowQ(Pi, -1, 2), PowQ(V("t"), -3, 2)>>)), Ov)
TrB == Scale(Neg(ProdT(<<V("e0"), Sqrt(MS), PowQ(Pi, -1, 2), PowQ(V("t"), -1, 2), Gt>>)), Perp)
OverMu(w) == Scale(Inv(V("mu")), w)
Sg(w) == Scale(V("sig"), w)
\* the depth dependence of all components is through z only; "x" in the export
\* keeps one entry per observation point
PwTerms == [Harmonic  |-> [E |-> HaE, J |-> Sg(HaE), B |-> HaB, H |-> OverMu(HaB)],
            Transient |-> [E |-> TrE, J |-> Sg(TrE), B |-> TrB, H |-> OverMu(TrB)]]

Comp(nm, w) == [j \in 1..3 |-> [n |-> nm \o " [" \o XYZ[j] \o "]", t |-> w[j]]]
PwIdentities ==
  Comp("harmonic: curl E = -i w B", VAdd(Curl(HaE), Scale(Mul(Im, W), HaB)))
  \o Comp("harmonic: curl H = (sigma + i w eps) E", VSub(Curl(OverMu(HaB)), Scale(SigHat, HaE)))
  \o Comp("transient: curl E = -dB/dt", VAdd(Curl(TrE), << D(TrB[1], "t"), D(TrB[2], "t"), D(TrB[3], "t") >>))
  \o Comp("transient: curl H = sigma E", VSub(Curl(OverMu(TrB)), Sg(TrE)))
  \o << [n |-> "harmonic: amplitude at the datum", t |-> Sub(Subst(HaE[1], [z |-> Zero]), Mul(V("e0"), V("ox")))],
        [n |-> "E and B perpendicular", t |-> Dot(HaE, HaB)],
        [n |-> "transient: E and B perpendicular", t |-> Dot(TrE, TrB)] >>
PwControls == << [n |-> "control: not upgoing", t |-> Sub(D(HaE[1], "z"), Neg(ProdT(<<Im, Sqrt(K2), HaE[1]>>)))] >>

Freqs   == << "scalar", "array", "int", "list", "one", "square" >>
Orients == << "X", "y", "Y", "x", "neg", "int", "unnorm", "generic" >>
Regions == << "generic", "datum", "shallow", "deep", "above", "grid" >>
Media   == << "earth", "resistive", "conductive", "magnetic", "dielectric", "noeps" >>
PwConfigs ==
  {c \in [src : {"Harmonic", "Transient"}, qs : {"full", "quasi"}, samp : Elems(Freqs), orient : Elems(Orients),
          region : Elems(Regions), medium : Elems(Media), amp : {"pos", "neg", "int", "zero", "default"}] :
     /\ c.src = "Transient" => (c.qs = "quasi" /\ c.medium \notin {"dielectric", "noeps"})
     /\ (Pos(Freqs, c.samp) + Pos(Orients, c.orient) + Pos(Regions, c.region)) % 6 = 0
     /\ (Pos(Media, c.medium) + Pos(Regions, c.region)) % 3 = 0
     /\ c.amp \in (IF Pos(Orients, c.orient) % 2 = 0 THEN {"pos", "neg"} ELSE {"int", "zero", "default"})}
PwReq(c, q) == Std
PwPlan == PlanOf(PwConfigs \X {"E", "J", "H", "B"}, PwReq)
PwClause(e) == LawClause(e, PwReq(e.cfg, e.qty))
============================================================================
