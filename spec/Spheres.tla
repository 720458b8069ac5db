------------------------------ MODULE Spheres ------------------------------
(***************************************************************************)
(* A ball of radius R and material s1 in a background s0 under a uniform   *)
(* primary field F (electric field or magnetic field).  V: potential,      *)
(* F: field = -grad V, D: flux = s F.  t total, p primary, s secondary.    *)
(***************************************************************************)
EXTENDS Term, ConformRules

Rv == << Sub(VX, V("cx")), Sub(VY, V("cy")), Sub(VZ, V("cz")) >>
R2 == Dot(Rv, Rv)
F0 == Vec("f")
S0 == V("s0")  S1 == V("s1")
Chi == Div(Sub(S1, S0), Add(S1, Mul(N(2), S0)))
Gam == Div(Mul(N(3), S0), Add(S1, Mul(N(2), S0)))
R3 == Pow(V("R"), 3)

Vp == Neg(Dot(Rv, F0))
VtOut == Mul(Vp, Sub(One, ProdT(<<Chi, R3, PowQ(R2, -3, 2)>>)))
VtIn  == Mul(Vp, Gam)
FtOut == VAdd(Scale(Sub(One, ProdT(<<Chi, R3, PowQ(R2, -3, 2)>>)), F0),
              Scale(ProdT(<<N(3), Chi, R3, Dot(Rv, F0), PowQ(R2, -5, 2)>>), Rv))
FtIn  == Scale(Gam, F0)
Q3(w, c) == << Mul(c, w[1]), Mul(c, w[2]), Mul(c, w[3]) >>
\* surface charge: jump of the normal field across the surface, times eps0
Rhat == Scale(PowQ(R2, -1, 2), Rv)
Charge == ProdT(<<V("eps0"), N(3), Chi, Dot(Rhat, F0)>>)

\* (F0 as a term that has the shape of the point variables)
SphTerms ==
  [ out |-> [Vt |-> VtOut, Vp |-> Vp, Vs |-> Sub(VtOut, Vp), Ft |-> FtOut, Fp |-> F0, Fs |-> VSub(FtOut, F0),
             Dt |-> Q3(FtOut, S0), Dp |-> Q3(F0, S0), Ds |-> VSub(Q3(FtOut, S0), Q3(F0, S0))],
    in  |-> [Vt |-> VtIn, Vp |-> Vp, Vs |-> Sub(VtIn, Vp), Ft |-> FtIn, Fp |-> F0, Fs |-> VSub(FtIn, F0),
             Dt |-> Q3(FtIn, S1), Dp |-> Q3(F0, S0), Ds |-> VSub(Q3(FtIn, S1), Q3(F0, S0))],
    charge |-> Charge ]

OnBall(t) == Subst(Subst(t, [R |-> Sqrt(V("Rsq"))]), [z |-> Add(V("cz"), Sqrt(SumT(<<V("Rsq"),
                        Neg(Pow(Rv[1], 2)), Neg(Pow(Rv[2], 2))>>)))])
Comp(nm, w) == [k \in 1..3 |-> [n |-> nm \o " [" \o XYZ[k] \o "]", t |-> w[k]]]
SphIdentities ==
  Comp("outside: F = -grad V", VAdd(Grad(VtOut), FtOut))
  \o Comp("inside: F = -grad V", VAdd(Grad(VtIn), FtIn))
  \o << [n |-> "outside: Laplace", t |-> Lap(VtOut)],
        [n |-> "potential continuous", t |-> OnBall(Sub(VtOut, VtIn))],
        [n |-> "normal flux continuous", t |-> OnBall(Sub(Mul(S0, Dot(FtOut, Rv)), Mul(S1, Dot(FtIn, Rv))))],
        [n |-> "charge is the jump of the normal field",
         t |-> OnBall(Sub(Charge, Mul(V("eps0"), Sub(Dot(FtOut, Rhat), Dot(FtIn, Rhat)))))],
        [n |-> "no contrast, no secondary potential", t |-> Subst(Sub(VtOut, Vp), [s1 |-> S0])] >>
SphControls == << [n |-> "control: normal field itself jumps", t |-> OnBall(Sub(Dot(FtOut, Rv), Dot(FtIn, Rv)))] >>

SphConfigs ==
  {c \in [src : {"Electrostatic", "Magnetostatic"}, contrast : {"more", "less", "equal", "huge", "tiny"},
    primary : {"x", "y", "neg", "generic", "int", "zero"}, loc : {"origin", "offset", "far", "int"},
    region : {"inside", "outside", "justinside", "justoutside", "far", "axis", "centre"}] :
    /\ c.primary \in {"zero", "y"} => c.loc = "offset"
    /\ c.contrast = "equal" => c.loc \in {"origin", "offset"}
    /\ c.contrast \in {"huge", "tiny"} => (c.loc = "offset" /\ c.primary \in {"neg", "generic"})
    /\ (c.loc = "int") = (c.primary = "int")}
SphReq(c, q) == Std
SphPlan == PlanOf(SphConfigs \X {"Vt", "Vs", "Ft", "Fs", "Dt", "Ds", "Vp", "Fp", "Dp"}, SphReq)
           \cup PlanOf({c \in SphConfigs : c.src = "Electrostatic" /\ c.region \in {"justinside", "justoutside", "inside", "outside"}}
                       \X {"charge"}, SphReq)
SphClause(e) == LawClause(e, SphReq(e.cfg, e.qty))
============================================================================
