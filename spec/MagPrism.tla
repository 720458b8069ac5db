------------------------------ MODULE MagPrism ------------------------------
(***************************************************************************)
(* Uniformly magnetised prism: phi = (1/4pi) M . grad W, H = grad phi,     *)
(* dH = grad H, B = mu0 H outside and mu0 (H + M) inside.                  *)
(***************************************************************************)
EXTENDS Term, Prism, ConformRules

M == Vec("m")
C4 == Inv(Mul(N(4), Pi))
Phi == Mul(C4, Dot(M, GradW))
H == << Mul(C4, Dot(M, HessW[1])), Mul(C4, Dot(M, HessW[2])), Mul(C4, Dot(M, HessW[3])) >>
BOut == Scale(V("mu0"), H)
BIn  == Scale(V("mu0"), VAdd(H, M))
dH == [p \in 1..3 |-> [q \in 1..3 |-> Mul(C4, SumT([s \in 1..3 |-> Mul(M[s], Third[p][s][q])]))]]
Vol == ProdT(<<Sub(V("x2"), V("x1")), Sub(V("y2"), V("y1")), Sub(V("z2"), V("z1"))>>)
MPTerms == [phi |-> Phi, H |-> H, Bout |-> BOut, Bin |-> BIn, dH |-> dH, moment |-> Scale(Vol, M)]

\* the corner rule is linear, so it suffices to check the kernels: mixed
\* partials agree (dH is symmetric and is the gradient of H), traces vanish
MPIdentities ==
  PrismIdentities \o
  << [n |-> "aab (modulo functions of two arguments)", t |-> Mod3(Sub(D(KFaa, "b"), D(KFab, "a")))],
     [n |-> "aac (modulo functions of two arguments)", t |-> Mod3(Sub(D(KFaa, "c"), D(KFca, "a")))],
     [n |-> "bba (modulo functions of two arguments)", t |-> Mod3(Sub(D(KFbb, "a"), D(KFab, "b")))],
     [n |-> "bbc (modulo functions of two arguments)", t |-> Mod3(Sub(D(KFbb, "c"), D(KFbc, "b")))],
     [n |-> "cca (modulo functions of two arguments)", t |-> Mod3(Sub(D(KFcc, "a"), D(KFca, "c")))],
     [n |-> "ccb (modulo functions of two arguments)", t |-> Mod3(Sub(D(KFcc, "b"), D(KFbc, "c")))],
     [n |-> "abc = 1/r", t |-> Sub(D(KFab, "c"), Inv(Kr))],
     [n |-> "bca = 1/r", t |-> Sub(D(KFbc, "a"), Inv(Kr))],
     [n |-> "cab = 1/r", t |-> Sub(D(KFca, "b"), Inv(Kr))],
     [n |-> "trace a", t |-> Mod3(D(SumT(<<KFaa, KFbb, KFcc>>), "a"))],
     [n |-> "trace b", t |-> Mod3(D(SumT(<<KFaa, KFbb, KFcc>>), "b"))] >>
MPControls == << [n |-> "control: aaa is not bbb", t |-> Sub(D(KFaa, "a"), D(KFbb, "b"))] >>

MPConfigs ==
  [src : {"MagneticPrism"}, mag : {"x", "y", "z", "neg", "generic", "int", "zero", "default"},
   box : {"cube", "slab", "needle", "octant", "far", "int"},
   region : {"outside", "inside", "above", "below", "faceplane", "edgeline", "axis", "near", "far"}]
MPReq(c, q) == Std
MPPlan == PlanOf(MPConfigs \X {"phi", "H", "B", "dH", "moment"}, MPReq)
MPClause(e) == LawClause(e, MPReq(e.cfg, e.qty))
============================================================================
