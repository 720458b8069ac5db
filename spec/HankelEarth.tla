---------------------------- MODULE HankelEarth ----------------------------
(***************************************************************************)
(* A harmonic magnetic dipole in air above a layered earth.                *)
(*                                                                         *)
(* In air the secondary field is harmonic.  A dipole is a derivative of a  *)
(* pole with respect to its own position (x', y', h); the pole's reflected *)
(* potential is the superposition over horizontal wavenumbers l of         *)
(*       R(l) exp(-l (z + h)) J0(l rho),                                   *)
(* R the reflection coefficient of module Layered, and                     *)
(*       H_s = (m / 4 pi)  grad (p . grad') Int R exp(-l(z+h)) J0 dl.      *)
(* The kernels below are obtained from that statement by derivation; the   *)
(* horizontal derivatives with respect to the source are minus those with  *)
(* respect to the receiver.                                                *)
(***************************************************************************)
EXTENDS Layered

Rho == Sqrt(Add(Pow(VX, 2), Pow(VY, 2)))
Mode == Mul(Exp(Neg(Mul(L, Add(VZ, V("h"))))), Fn("j0", Mul(L, Rho)))
\* derivative with respect to the position of the source
Src(t) == << Neg(D(t, "x")), Neg(D(t, "y")), D(t, "h") >>
Along(w) == SumT([k \in 1..3 |-> Mul(Vec("p")[k], w[k])])
Secondary(g) == Scale(Div(V("m"), Mul(N(4), Pi)), Grad(Along(Src(g))))
KernelH == Secondary(Mode)
\* the free-space dipole at (0, 0, h): the same operator on a pole's potential,
\* with the direct distance (source derivative of z - h is minus that of z)
DirR == Sqrt(SumT(<<Pow(VX, 2), Pow(VY, 2), Pow(Sub(VZ, V("h")), 2)>>))
SrcDir(t) == Scale(N(-1), Grad(t))
FreeH == Scale(Div(V("m"), Mul(N(4), Pi)), Scale(N(-1), Grad(Along(SrcDir(Inv(DirR))))))
\* R = 1: Int exp(-l s) J0(l rho) dl = 1 / sqrt(rho^2 + s^2): a mirror image
ImR == Sqrt(SumT(<<Pow(VX, 2), Pow(VY, 2), Pow(Add(VZ, V("h")), 2)>>))
ImageH == Secondary(Inv(ImR))

\* ---- closed forms on the surface of a half-space (quasi-static air) ---------
\* functions of r and k (k^2 = - i w mu0 sigma); F is the total pole potential
KR == Mul(V("k"), V("r"))
IKR == Mul(Im, KR)
Ek == Exp(Neg(IKR))
Phi == ProdT(<<N(2), Pow(V("k"), -2), Pow(V("r"), -4),
        Sub(Add(N(3), Pow(KR, 2)), Mul(SumT(<<N(3), Mul(N(3), IKR), Neg(Pow(KR, 2))>>), Ek))>>)
HzZ == ProdT(<<N(2), Pow(V("k"), -2), Pow(V("r"), -5),
        Sub(N(9), Mul(SumT(<<N(9), Mul(N(9), IKR), Neg(Mul(N(4), Pow(KR, 2))), Neg(ProdT(<<Im, Pow(KR, 3)>>))>>), Ek))>>)
Al == Mul(Q(1, 2), IKR)
HrZ == ProdT(<<Pow(V("k"), 2), Inv(V("r")), Sub(Fn("ik1", Al), Fn("ik2", Al))>>)
\* the closed forms depend on k r only, up to the power of length of the field
Kk == Sqrt(ProdT(<<N(-2), Im, Pi, V("f"), V("mu0"), V("sig")>>))
LetS(t) == Subst(t, [r |-> Rho, k |-> Kk])
Cx == Div(VX, V("r"))  Cy == Div(VY, V("r"))
\* - Hessian of the radial F, F' = Phi:   - (F'' c c^T + F'/r (1 - c c^T))
HessF(a, b) == Neg(Add(ProdT(<<a, b, D(Phi, "r")>>), ProdT(<<Sub(IF a = b THEN One ELSE Zero, Mul(a, b)), Phi, Inv(V("r"))>>)))
SurfT == << SumT(<<Mul(V("px"), HessF(Cx, Cx)), Mul(V("py"), HessF(Cx, Cy)), ProdT(<<V("pz"), Cx, HrZ>>)>>),
            SumT(<<Mul(V("px"), HessF(Cx, Cy)), Mul(V("py"), HessF(Cy, Cy)), ProdT(<<V("pz"), Cy, HrZ>>)>>),
            SumT(<<Neg(ProdT(<<V("px"), Cx, HrZ>>)), Neg(ProdT(<<V("py"), Cy, HrZ>>)), Mul(V("pz"), HzZ)>>) >>
M4 == Div(V("m"), Mul(N(4), Pi))
SurfTotal == [k \in 1..3 |-> LetS(Mul(M4, SurfT[k]))]
SurfFree == [k \in 1..3 |-> Subst(FreeH[k], [h |-> Zero, z |-> Zero])]
SurfSec == TLCEval([k \in 1..3 |-> Sub(SurfTotal[k], SurfFree[k])])

HankTerms == [ kernel |-> KernelH, free |-> FreeH, image |-> ImageH,
               R |-> [n1 |-> RTE(1), n2 |-> RTE(2), n3 |-> RTE(3), n4 |-> RTE(4)],
               surface |-> [total |-> SurfTotal, secondary |-> SurfSec] ]

Mirror(t) == Subst(t, [x |-> Neg(VX), y |-> Neg(VY), z |-> V("h"), h |-> VZ])
Only(w, j) == TLCEval([k \in 1..3 |-> Subst(w[k], [px |-> IF j = 1 THEN One ELSE Zero, py |-> IF j = 2 THEN One ELSE Zero, pz |-> IF j = 3 THEN One ELSE Zero])])
HankIdentities ==
  << [n |-> "the mode is harmonic", t |-> Lap(Mode)],
     [n |-> "the secondary field has no divergence", t |-> DivV(KernelH)],
     [n |-> "the secondary field has no curl", t |-> SumT([k \in 1..3 |-> Mul(N(7 * k), Curl(KernelH)[k])])],
     [n |-> "reciprocity x y", t |-> Sub(Only(KernelH, 2)[1], Mirror(Only(KernelH, 1)[2]))],
     [n |-> "reciprocity x z", t |-> Sub(Only(KernelH, 3)[1], Mirror(Only(KernelH, 1)[3]))],
     [n |-> "reciprocity z z", t |-> Sub(Only(KernelH, 3)[3], Mirror(Only(KernelH, 3)[3]))],
     [n |-> "R = 1 is the mirror image: image dipole field",
      t |-> SumT([k \in 1..3 |-> Mul(N(5 * k + 1), Sub(ImageH[k], Subst(FreeH[k], [h |-> Neg(V("h")), px |-> Neg(V("px")), py |-> Neg(V("py")), pz |-> V("pz")])))])],
     [n |-> "the free field has no divergence", t |-> DivV(FreeH)],
     [n |-> "the free field is that of a dipole: 3 (p.r) r / r^5 - p / r^3",
      t |-> Subst(Sub(FreeH[1], Mul(M4, Sub(ProdT(<<N(3), VX, Add(Add(Mul(V("px"), VX), Mul(V("py"), VY)), Mul(V("pz"), Sub(VZ, V("h")))), Pow(DirR, -5)>>),
                                         Mul(V("px"), Pow(DirR, -3))))), [m |-> One])],
     \* trace of the secondary tensor: Hx of x plus Hy of y is Hz of z
     [n |-> "closed forms: trace of the secondary field",
      t |-> SumT(<<HzZ, D(Phi, "r"), Div(Phi, V("r")), Mul(N(2), Pow(V("r"), -3))>>)],
     [n |-> "closed forms: scaling", t |-> Add(ProdT(<<V("r"), D(Mul(Pow(V("r"), 3), HzZ), "r")>>), Neg(ProdT(<<V("k"), D(Mul(Pow(V("r"), 3), HzZ), "k")>>)))] >>
HankControls == << [n |-> "control: the mode depends on position", t |-> D(Mode, "x")],
                   [n |-> "control: wrong image", t |-> Sub(ImageH[1], Subst(FreeH[1], [h |-> Neg(V("h"))]))] >>

\* ---- plan -------------------------------------------------------------------
HModels == << "generic", "contrast", "equal", "magnetic", "chargeable", "dispersive", "thin", "thick", "resistive" >>
Orients == << "x", "y", "z", "tilt", "negx", "negz", "unnormed", "almost" >>
Heights == << "low", "mid", "high", "source", "receiver" >>         \* who is above the ground
Fields  == << "secondary", "total", "default" >>
HLayers == << "n1", "n2", "n3", "n4" >>
Spans   == << "near", "equal", "far" >>                              \* offset against total height
HQs     == << "quasi", "full", "defaultq" >>
LayCfg == {c \in [what : {"layered"}, layers : Elems(HLayers), model : Elems(HModels), orient : Elems(Orients), height : Elems(Heights),
                  span : Elems(Spans), field : Elems(Fields), qs : Elems(HQs)] :
             /\ (Pos(HModels, c.model) + Pos(Orients, c.orient) + Pos(HLayers, c.layers)) % 5 = 0
             /\ (Pos(Heights, c.height) + Pos(Spans, c.span) + Pos(Fields, c.field) + Pos(HQs, c.qs) + Pos(HModels, c.model)) % 5 = 0
             /\ (Pos(Fields, c.field) + Pos(HQs, c.qs) + Pos(Orients, c.orient) + Pos(Heights, c.height)) % 3 = 0}
\* relations
RelCfg == {c \in [what : {"split", "merge", "zero", "total", "surface", "vacuum"}, layers : Elems(HLayers), model : Elems(HModels), orient : {"x", "y", "z", "tilt"}, height : {"mid"},
           span : {"equal"}, field : {"secondary", "total"}, qs : {"quasi", "full"}] :
             /\ (Pos(HModels, c.model) + Pos(Orients, c.orient) + Pos(HLayers, c.layers) + Pos(HQs, c.qs) + Pos(Fields, c.field)) % 4 = 0
             /\ c.what = "surface" => c.model \notin {"magnetic", "chargeable", "dispersive"}
             /\ c.what = "surface" => c.model = "equal"}
SurfRegimes == << "small", "mid", "large", "huge", "extreme" >>
SurfForms == << "one", "list", "grid", "freqs", "freqsgrid", "axes", "xy" >>
SurfCfg == {c \in [what : {"half"}, orient : Elems(Orients), regime : Elems(SurfRegimes), form : Elems(SurfForms), field : Elems(Fields), qs : Elems(HQs)] :
              (Pos(Orients, c.orient) + Pos(SurfForms, c.form) + Pos(Fields, c.field) + Pos(HQs, c.qs) + Pos(SurfRegimes, c.regime)) % 3 = 0
              /\ c.regime \in {"huge", "extreme"} => c.orient \in {"x", "y", "z", "tilt"}}
HankRule(c, q) == CASE c.what = "half" -> (IF q = "integral" THEN Rule(60, 30, "formula") ELSE Rule(80, 30, "formula"))
                    [] c.what = "layered" -> Rule(50, 0, "filter")
                    [] c.what = "surface" -> Rule(50, 0, "filter")
                    [] OTHER -> Rule(80, 0, "exact")
HankPlan == PlanOf({<<c, "H">> : c \in LayCfg \cup RelCfg \cup SurfCfg} \cup {<<c, "integral">> : c \in {s \in SurfCfg : s.form = "list" /\ s.regime \notin {"huge", "extreme"}}}, HankRule)
HankClause(e) == IF e.cfg.what = "half" /\ e.qty = "H" THEN LawClause(e, HankRule(e.cfg, e.qty))
                 ELSE IF e.out # "ok" THEN "raised an error" ELSE IF ~ e.shape THEN "layout of the result"
                 ELSE IF e.d < HankRule(e.cfg, e.qty).req
                      THEN (CASE e.cfg.what = "layered" -> "not the Hankel transform of the layered reflection"
                              [] e.cfg.what = "half" -> "not the Hankel transform of the half-space reflection"
                              [] e.cfg.what = "surface" -> "layered and half-space solutions differ"
                              [] e.cfg.what = "split" -> "splitting a layer changed the field"
                              [] e.cfg.what = "merge" -> "an extra layer of the basement's material changed the field"
                              [] e.cfg.what = "zero" -> "a layer of no thickness changed the field"
                              [] e.cfg.what = "total" -> "total - secondary is not the free-space dipole"
                              [] OTHER -> "a vacuum earth gives a secondary field")
                 ELSE ""
============================================================================
