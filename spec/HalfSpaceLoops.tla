--------------------------- MODULE HalfSpaceLoops ---------------------------
(***************************************************************************)
(* Closed forms on the surface of a conductive half-space (quasi-static):  *)
(* the field at the centre of a horizontal loop, harmonic and after a step *)
(* off, and the field on the surface of a vertical magnetic dipole after a *)
(* step off (Ward and Hohmann 1988, 4.69a, 4.70, 4.72, 4.74, 4.94, 4.98).   *)
(***************************************************************************)
EXTENDS Term, ConformRules

La == V("a")
W == ProdT(<<N(2), Pi, V("f")>>)
K2 == Neg(ProdT(<<Im, W, V("mu"), V("sig")>>))
Ka == V("ka")
Ika == Mul(Im, Ka)
Turns == Mul(V("n"), V("I"))
LetK(t) == Subst(t, [ka |-> Mul(Sqrt(K2), La)])
FdTotal == LetK(ProdT(<<N(-1), Turns, Inv(La), Pow(Ka, -2),
             Sub(N(3), Mul(SumT(<<N(3), Mul(N(3), Ika), Neg(Pow(Ka, 2))>>), Exp(Neg(Ika))))>>))
Free == ProdT(<<Turns, Q(1, 2), Inv(La)>>)
FdSec == Sub(FdTotal, Free)

\* ---- step off: x = theta * length --------------------------------------------
Xx == V("xx")
LetX(t, len) == Subst(t, [xx |-> Mul(Sqrt(ProdT(<<V("mu"), V("sig"), Q(1, 4), Inv(V("t"))>>)), len)])
Rpi == PowQ(Pi, -1, 2)
Ex2 == Exp(Neg(Pow(Xx, 2)))
TdLoop == LetX(ProdT(<<Turns, Q(1, 2), Inv(La),
            Add(ProdT(<<N(3), Rpi, Inv(Xx), Ex2>>), Mul(Sub(One, Mul(Q(3, 2), Pow(Xx, -2))), Fn("erf", Xx)))>>), La)
TdLoopB == Mul(V("mu"), TdLoop)
TdLoopdB == LetX(ProdT(<<N(-1), Turns, Inv(V("sig")), Pow(La, -3),
            Sub(Mul(N(3), Fn("erf", Xx)), ProdT(<<N(2), Xx, Rpi, Add(N(3), Mul(N(2), Pow(Xx, 2))), Ex2>>))>>), La)

\* ---- the dipole ------------------------------------------------------------------
Rr == Sqrt(Add(Pow(V("x"), 2), Pow(V("y"), 2)))
Dk == ProdT(<<V("m"), Inv(Mul(N(4), Pi))>>)
R3 == V("r")                                         \* let-bound distance
LetR(t) == Subst(LetX(t, V("r")), [r |-> Rr])
Uu == Mul(Q(1, 2), Pow(Xx, 2))
I0 == Fn("ive0", Uu)
I1 == Fn("ive1", Uu)
I2 == Fn("ive2", Uu)
I2r == Sub(I0, ProdT(<<N(2), Inv(Uu), I1>>))         \* the recurrence of the Bessel functions
HzT == ProdT(<<Dk, Pow(R3, -3), Sub(Mul(Sub(Mul(Q(9, 2), Pow(Xx, -2)), One), Fn("erf", Xx)),
            ProdT(<<Add(Mul(N(9), Inv(Xx)), Mul(N(4), Xx)), Rpi, Ex2>>))>>)
HrOf(i2) == ProdT(<<Dk, N(2), Pow(Xx, 2), Pow(R3, -3), Sub(I1, i2)>>)
dHzT == ProdT(<<Dk, Pow(R3, -3), Inv(V("t")), Sub(ProdT(<<Q(9, 2), Pow(Xx, -2), Fn("erf", Xx)>>),
            ProdT(<<SumT(<<Mul(N(4), Pow(Xx, 3)), Mul(N(6), Xx), Mul(N(9), Inv(Xx))>>), Rpi, Ex2>>))>>)
dHrT == ProdT(<<N(-1), Dk, N(2), Pow(Xx, 2), Pow(R3, -3), Inv(V("t")),
            Sub(Mul(Add(One, Pow(Xx, 2)), I0), Mul(SumT(<<N(2), Pow(Xx, 2), Mul(N(4), Pow(Xx, -2))>>), I1))>>)
Xy(hr, hz) == << Mul(Div(V("x"), Rr), LetR(hr)), Mul(Div(V("y"), Rr), LetR(hr)), LetR(hz) >>
DipH == Xy(HrOf(I2), HzT)
DipdH == Xy(dHrT, dHzT)
MuV(w) == Scale(V("mu"), w)
LoopTerms ==
  [ fdloop |-> [total |-> [H |-> FdTotal, B |-> Mul(V("mu"), FdTotal)], secondary |-> [H |-> FdSec, B |-> Mul(V("mu"), FdSec)], free |-> Free],
    tdloop |-> [H |-> TdLoop, B |-> TdLoopB, dH |-> Div(TdLoopdB, V("mu")), dB |-> TdLoopdB],
    tddipole |-> [H |-> DipH, B |-> MuV(DipH), dH |-> DipdH, dB |-> MuV(DipdH)],
    \* the published equations (with their signs)
    reference |-> [hz |-> LetR(HzT), dhz |-> Neg(LetR(dHzT)), hp |-> Neg(LetR(HrOf(I2))), dhp |-> Neg(LetR(dHrT))] ]

\* dimensional analysis: length * field depends on k a (or theta a) only
Homog(h, len) == Sub(ProdT(<<V(len), D(Mul(V(len), h), len)>>), ProdT(<<N(2), V("f"), D(Mul(V(len), h), "f")>>))
LoopIdentities == <<
  [n |-> "loop: dB/dt is the derivative of B", t |-> Sub(D(TdLoopB, "t"), TdLoopdB)],
  [n |-> "dipole: dHz/dt is the derivative of Hz", t |-> LetR(Sub(D(LetX(HzT, V("r")), "t"), LetX(dHzT, V("r"))))],
  [n |-> "dipole: dHr/dt is the derivative of Hr", t |-> LetR(Sub(D(LetX(HrOf(I2r), V("r")), "t"), LetX(dHrT, V("r"))))],
  [n |-> "harmonic loop: scaling", t |-> Homog(FdTotal, "a")],
  [n |-> "transient loop: scaling", t |-> Add(Mul(La, D(Mul(La, TdLoop), "a")), ProdT(<<N(2), V("t"), D(Mul(La, TdLoop), "t")>>))],
  [n |-> "total - secondary is the free-space loop", t |-> SumT(<<FdTotal, Neg(FdSec), Neg(Free)>>)],
  \* a small vertical dipole at the centre of a loop: the field at the centre of a loop is, by reciprocity,
  \* the flux of the dipole's field through it, so that the derivative with respect to the radius is local
  [n |-> "reciprocity of loop and dipole, transient",
   t |-> LET r == V("a") IN Add(ProdT(<<V("m"), D(TdLoop, "a")>>), Neg(ProdT(<<V("n"), V("I"), N(2), Pi, La, Subst(LetX(HzT, V("r")), [r |-> La])>>)))],
  \* W&H: the harmonic loop by the same reciprocity with the harmonic dipole
  [n |-> "reciprocity of loop and dipole, harmonic",
   t |-> Add(ProdT(<<V("m"), D(FdTotal, "a")>>),
             Neg(ProdT(<<V("n"), V("I"), N(2), Pi, La, Subst(LetK(ProdT(<<V("m"), Inv(Mul(N(2), Pi)), Pow(Ka, -2), Pow(La, -3),
                   Sub(N(9), Mul(SumT(<<N(9), Mul(N(9), Ika), Neg(Mul(N(4), Pow(Ka, 2))), Neg(ProdT(<<Im, Pow(Ka, 3)>>))>>), Exp(Neg(Ika))))>>)), [m |-> V("m")])>>)))] >>
LoopControls == << [n |-> "control: the step-off field changes", t |-> TdLoopdB],
                   [n |-> "control: without the recurrence", t |-> LetR(Sub(D(LetX(ProdT(<<Dk, N(2), Pow(Xx, 2), Pow(R3, -3), Sub(I1, I0)>>), V("r")), "t"), LetX(dHrT, V("r"))))] >>

\* ---- plan ----------------------------------------------------------------------
Regimes == {"small", "mid", "large", "huge", "extreme"}                     \* of the induction number
LForms == {"scalar", "array", "int", "defaults", "broadcast", "column"}
FdConfigs == {c \in [what : {"fdloop"}, part : {"total", "secondary", "default"}, form : LForms \cup {"complexsigma", "complexmu"}, regime : Regimes] : TRUE}
TdConfigs == [what : {"tdloop"}, part : {"-"}, form : LForms, regime : Regimes]
DipConfigs == [what : {"tddipole"}, part : {"function", "class"}, form : {"xy", "xyz", "one", "grid", "times", "timesgrid", "tuple", "int", "defaults", "axes"}, regime : Regimes]
RefConfigs == [what : {"reference"}, part : {"-"}, form : {"scalar", "array", "broadcast"}, regime : Regimes]
FouConfigs == [what : {"fourier"}, part : {"loop", "dipole"}, form : {"-"}, regime : {"mid"}]
LQty(c) == CASE c.what = "fdloop" -> {"H", "B"} [] c.what \in {"tdloop", "tddipole"} -> {"H", "B", "dH", "dB"}
             [] c.what = "reference" -> {"hz", "dhz", "hp", "dhp"} [] OTHER -> {"pair"}
LoopReq(c, q) == IF c.what = "fourier" THEN Rule(60, 30, "formula") ELSE Rule(90, 30, "formula")
LoopPlan == PlanOf(UNION {{c} \X LQty(c) : c \in FdConfigs \cup TdConfigs \cup DipConfigs \cup RefConfigs \cup FouConfigs}, LoopReq)
LoopClause(e) == IF e.cfg.what = "fourier" THEN (IF e.out # "ok" THEN "raised an error" ELSE IF e.d < 60 THEN "harmonic and transient responses are not a Fourier pair" ELSE "")
                 ELSE LawClause(e, LoopReq(e.cfg, e.qty))
===========================================================================
