--------------------------- MODULE DirectCurrent ---------------------------
(***************************************************************************)
(* Direct-current electrodes: whole space, grounded wire, half-space with  *)
(* an insulating surface z = 0 (image electrode), four-electrode dipole.   *)
(***************************************************************************)
EXTENDS Term, ConformRules

Obs == <<VX, VY, VZ>>
Elec(p) == Vec(p)
Image(p) == << V(p \o "x"), V(p \o "y"), Neg(V(p \o "z")) >>
RInv(q) == LET d == VSub(Obs, q) IN PowQ(Dot(d, d), -1, 2)
RCube(q) == LET d == VSub(Obs, q) IN Scale(PowQ(Dot(d, d), -3, 2), d)
K == ProdT(<<V("rho"), V("I"), Inv(Mul(N(4), Pi))>>)

VWhole(p) == Mul(K, RInv(Elec(p)))
EWhole(p) == Scale(K, RCube(Elec(p)))
VHalf(p)  == Mul(K, Add(RInv(Elec(p)), RInv(Image(p))))
EHalf(p)  == Scale(K, VAdd(RCube(Elec(p)), RCube(Image(p))))
VDip == Sub(VHalf("a"), VHalf("b"))
EDip == VSub(EHalf("a"), EHalf("b"))
AtN(t) == Subst(t, [x |-> V("nx"), y |-> V("ny"), z |-> V("nz")])
VDipMN == Sub(VDip, AtN(VDip))
EDipMN == << Sub(EDip[1], AtN(EDip[1])), Sub(EDip[2], AtN(EDip[2])), Sub(EDip[3], AtN(EDip[3])) >>
VWire == Sub(VWhole("a"), VWhole("b"))          \* a: last node, b: first node
EWire == VSub(EWhole("a"), EWhole("b"))
OverRho(w) == Scale(Inv(V("rho")), w)

DCTerms ==
  [ Point   |-> [V |-> VWhole("a"), E |-> EWhole("a"), J |-> OverRho(EWhole("a"))],
    Wire    |-> [V |-> VWire, E |-> EWire, J |-> OverRho(EWire)],
    Half    |-> [V |-> VHalf("a"), E |-> EHalf("a"), J |-> OverRho(EHalf("a"))],
    Dip     |-> [V |-> VDip, E |-> EDip, J |-> OverRho(EDip)],
    DipMN   |-> [V |-> VDipMN, E |-> EDipMN, J |-> OverRho(EDipMN)] ]

Comp(nm, w) == [k \in 1..3 |-> [n |-> nm \o " [" \o XYZ[k] \o "]", t |-> w[k]]]
NegGrad(t, w) == VAdd(Grad(t), w)
Swap == [x |-> V("ax"), y |-> V("ay"), z |-> V("az"), ax |-> VX, ay |-> VY, az |-> VZ]
DCIdentities ==
  Comp("whole: E = -grad V", NegGrad(VWhole("a"), EWhole("a")))
  \o Comp("half: E = -grad V", NegGrad(VHalf("a"), EHalf("a")))
  \o Comp("dipole: E = -grad V", NegGrad(VDip, EDip))
  \o << [n |-> "whole: Laplace", t |-> Lap(VWhole("a"))],
        [n |-> "half: Laplace",  t |-> Lap(VHalf("a"))],
        [n |-> "half: no current crosses the surface", t |-> Subst(EHalf("a")[3], [z |-> Zero])],
        [n |-> "half: electrode at the surface doubles", t |-> Subst(Sub(VHalf("a"), Mul(N(2), VWhole("a"))), [az |-> Zero])],
        [n |-> "reciprocity (the four-electrode one follows by superposition)", t |-> Sub(VHalf("a"), Subst(VHalf("a"), Swap))] >>
DCControls == << [n |-> "control: buried electrode without image", t |-> Subst(EWhole("a")[3], [z |-> Zero])] >>

DCConfigs ==
  [src : {"Point"}, place : {"origin", "offset", "far", "int"}, strength : {"pos", "neg", "zero", "int"},
   region : {"generic", "axis", "plane", "near", "far"}]
  \cup
  [src : {"Wire"}, place : {"single", "n1", "n2", "n4", "n9", "closed3", "closed7", "int", "short", "map"}, strength : {"pos", "neg", "zero", "int"},
   region : {"generic", "near", "far", "plane"}]
  \cup
  [src : {"Half"}, place : {"surface", "buried", "shallow", "int", "far", "map"}, strength : {"pos", "neg", "zero", "int"},
   region : {"generic", "surface", "below", "near", "far", "above"}]
  \cup
  [src : {"Dip", "DipMN"}, place : {"surface", "buried", "mixed", "int", "far", "close", "map"}, strength : {"pos", "neg", "zero", "int"},
   region : {"generic", "surface", "below", "near", "far", "above"}]
DCReq(c, q) == Std
DCPlan == PlanOf(DCConfigs \X {"V", "E", "J"}, DCReq)
\* an observation point above the surface is refused
DCClause(e) == IF e.cfg.region = "above"
               THEN IF e.out \in {"ValueError", "TypeError"} THEN "" ELSE "observation point above the surface accepted"
               ELSE LawClause(e, DCReq(e.cfg, e.qty))
============================================================================
