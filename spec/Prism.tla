------------------------------- MODULE Prism -------------------------------
(***************************************************************************)
(* W = integral of 1/|r - r'| over the prism [x1,x2] x [y1,y2] x [z1,z2],  *)
(* by the 8-corner rule applied to an antiderivative KF with               *)
(* d^3 KF / da db dc = 1/r.  The rule only uses KF modulo functions of two *)
(* of the three arguments; identities below are stated modulo those.       *)
(***************************************************************************)
EXTENDS Term

Ka == V("a")  Kb == V("b")  Kc == V("c")
Kr == Sqrt(SumT(<<Pow(Ka, 2), Pow(Kb, 2), Pow(Kc, 2)>>))

KLog(p) == Fn("log", Add(p, Kr))
KAtan(p, q, s) == Fn("atan", Div(Mul(q, s), Mul(p, Kr)))      \* atan(q s / (p r))

KF == SumT(<< ProdT(<<Ka, Kb, KLog(Kc)>>), ProdT(<<Kb, Kc, KLog(Ka)>>), ProdT(<<Kc, Ka, KLog(Kb)>>),
              ProdT(<<Q(-1, 2), Pow(Ka, 2), KAtan(Ka, Kb, Kc)>>),
              ProdT(<<Q(-1, 2), Pow(Kb, 2), KAtan(Kb, Kc, Ka)>>),
              ProdT(<<Q(-1, 2), Pow(Kc, 2), KAtan(Kc, Ka, Kb)>>) >>)

\* first derivatives (modulo), e.g. dF/dc
KFc == SumT(<<Mul(Ka, KLog(Kb)), Mul(Kb, KLog(Ka)), Neg(Mul(Kc, KAtan(Kc, Ka, Kb)))>>)
KFa == SumT(<<Mul(Kb, KLog(Kc)), Mul(Kc, KLog(Kb)), Neg(Mul(Ka, KAtan(Ka, Kb, Kc)))>>)
KFb == SumT(<<Mul(Kc, KLog(Ka)), Mul(Ka, KLog(Kc)), Neg(Mul(Kb, KAtan(Kb, Kc, Ka)))>>)
KFaa == Neg(KAtan(Ka, Kb, Kc))
KFbb == Neg(KAtan(Kb, Kc, Ka))
KFcc == Neg(KAtan(Kc, Ka, Kb))
KFab == KLog(Kc)
KFbc == KLog(Ka)
KFca == KLog(Kb)

KFaaa == D(KFaa, "a")
KFaab == D(KFaa, "b")
KFaac == D(KFaa, "c")

\* the corner rule: sum over corners (-1)^(i+j+k) t(x_i - x, y_j - y, z_k - z)
LoHi(lo, hi, i, x) == Sub(IF i = 2 THEN V(hi) ELSE V(lo), x)
Corner(t, i, j, k) == Subst(t, [a |-> LoHi("x1", "x2", i, VX),
                                b |-> LoHi("y1", "y2", j, VY),
                                c |-> LoHi("z1", "z2", k, VZ)])
Sgn(i, j, k) == IF (i + j + k) % 2 = 0 THEN N(1) ELSE N(-1)
Corners(t) == SumT([n \in 1..8 |-> LET i == 1 + (n - 1) \div 4
                                       j == 1 + (((n - 1) \div 2) % 2)
                                       k == 1 + ((n - 1) % 2)
                                   IN Mul(Sgn(i, j, k), Corner(t, i, j, k))])

W     == Corners(KF)
GradW == << Neg(Corners(KFa)), Neg(Corners(KFb)), Neg(Corners(KFc)) >>
HessW == << <<Corners(KFaa), Corners(KFab), Corners(KFca)>>,
            <<Corners(KFab), Corners(KFbb), Corners(KFbc)>>,
            <<Corners(KFca), Corners(KFbc), Corners(KFcc)>> >>
\* third derivatives of W with respect to x, y, z (sign -1 each)
ThirdW(p, q, s) ==
  LET sec(u, v) == CASE u = 1 /\ v = 1 -> KFaa [] u = 2 /\ v = 2 -> KFbb [] u = 3 /\ v = 3 -> KFcc
                     [] {u, v} = {1, 2} -> KFab [] {u, v} = {2, 3} -> KFbc [] OTHER -> KFca
      nm == <<"a", "b", "c">>
  IN Neg(Corners(D(sec(p, q), nm[s])))

Third == TLCEval([p \in 1..3 |-> [q \in 1..3 |-> [s \in 1..3 |-> ThirdW(p, q, s)]]])

KernelTerms ==
  [ prism_f    |-> Neg(KF),   prism_fz   |-> KFc,    prism_fzz  |-> KAtan(Kc, Ka, Kb),
    prism_fzx  |-> Neg(KLog(Kb)), prism_fzy |-> Neg(KLog(Ka)),
    prism_fzzz |-> D(KAtan(Kc, Ka, Kb), "c"), prism_fxxy |-> D(KAtan(Ka, Kb, Kc), "b"),
    prism_fxxz |-> D(KAtan(Ka, Kb, Kc), "c"), prism_fxyz |-> Inv(Kr) ]

\* X is zero modulo functions of two variables iff d^3 X/da db dc = 0
Mod3(t) == D(D(D(t, "a"), "b"), "c")
PrismIdentities ==
  << [n |-> "d3F/dadbdc = 1/r",            t |-> Sub(Mod3(KF), Inv(Kr))],
     [n |-> "dF/dc",  t |-> Mod3(Sub(D(KF, "c"), KFc))],
     [n |-> "dF/da",  t |-> Mod3(Sub(D(KF, "a"), KFa))],
     [n |-> "dF/db",  t |-> Mod3(Sub(D(KF, "b"), KFb))],
     [n |-> "d2F/dc2", t |-> Mod3(Sub(D(KFc, "c"), KFcc))],
     [n |-> "d2F/da2", t |-> Mod3(Sub(D(KFa, "a"), KFaa))],
     [n |-> "d2F/db2", t |-> Mod3(Sub(D(KFb, "b"), KFbb))],
     [n |-> "d2F/dadb", t |-> Mod3(Sub(D(KFa, "b"), KFab))],
     [n |-> "d2F/dbdc", t |-> Mod3(Sub(D(KFb, "c"), KFbc))],
     [n |-> "d2F/dcda", t |-> Mod3(Sub(D(KFc, "a"), KFca))],
     [n |-> "Laplacian of the kernel has no source off the edges", t |-> D(SumT(<<KFaa, KFbb, KFcc>>), "c")] >>
============================================================================
