------------------------------ MODULE Layered ------------------------------
(***************************************************************************)
(* Transverse-electric reflection coefficient of a stack of layers under   *)
(* air.  In a layer of conductivity s and permeability m a TE mode of      *)
(* horizontal wavenumber l decays as exp(-u z), u^2 = l^2 + i w m s; the   *)
(* admittance seen at the top of layer j is y_j.  Over the thickness of a  *)
(* layer it obeys the Riccati equation                                     *)
(*        dy/dh = i w m (Y^2 - y^2),      Y = u/(i w m),                   *)
(* with the admittance of the next layer at h = 0 (continuity of E and H); *)
(* the bottom half-space has y = Y.   R = (Y0 - y)/(Y0 + y).               *)
(***************************************************************************)
EXTENDS Term, ConformRules

W == ProdT(<<N(2), Pi, V("f")>>)
S(j) == V("s" \o ToString(j))
M(j) == V("m" \o ToString(j))
H(j) == V("h" \o ToString(j))
L == V("l")
U(j) == Sqrt(Add(Pow(L, 2), ProdT(<<Im, W, M(j), S(j)>>)))
IWM(j) == ProdT(<<Im, W, M(j)>>)
Yj(j) == Div(V("u" \o ToString(j)), IWM(j))
Th(j) == Fn("tanh", Mul(V("u" \o ToString(j)), H(j)))
\* admittance at the top of layer j of n (over let-bound u0, u1, ...)
RECURSIVE Adm(_, _)
Adm(j, n) == IF j = n - 1 THEN Yj(j)
             ELSE Subst(ProdT(<<V("Y"), Add(V("yy"), Mul(V("Y"), V("th"))), Inv(Add(V("Y"), Mul(V("yy"), V("th"))))>>),
                        [Y |-> Yj(j), th |-> Th(j), yy |-> Adm(j + 1, n)])
LetU(t, n) == Subst(t, [v \in {"u" \o ToString(j) : j \in 0..(n - 1)} |->
                          U(CHOOSE j \in 0..(n - 1) : v = "u" \o ToString(j))])
Y0 == ProdT(<<L, Inv(ProdT(<<Im, W, V("mu0")>>))>>)
RTE(n) == LetU(Subst(Div(Sub(Y0, V("yy")), Add(Y0, V("yy"))), [yy |-> Adm(0, n)]), n)
Nm(p, j) == p \o ToString(j)
LayOf(n) == [ R |-> RTE(n),
              ds |-> [j \in 1..n |-> D(RTE(n), Nm("s", j - 1))],
              dm |-> [j \in 1..n |-> D(RTE(n), Nm("m", j - 1))],
              dh |-> [j \in 1..(n - 1) |-> D(RTE(n), Nm("h", j - 1))] ]
LayTerms == [n1 |-> LayOf(1), n2 |-> LayOf(2), n3 |-> LayOf(3), n4 |-> LayOf(4), n5 |-> LayOf(5)]

\* one layer over a basement of arbitrary admittance "yb"
OneOver == Subst(ProdT(<<V("Y"), Add(V("yb"), Mul(V("Y"), V("th"))), Inv(Add(V("Y"), Mul(V("yb"), V("th"))))>>),
                 [Y |-> Div(U(0), IWM(0)), th |-> Fn("tanh", Mul(U(0), H(0)))])
YTop == Div(U(0), IWM(0))
\* two layers of the same material with tanh values t1, t2 on a basement yb
Two(t1, t2) == LET step(y, t) == ProdT(<<V("Y"), Add(y, Mul(V("Y"), t)), Inv(Add(V("Y"), Mul(y, t)))>>)
               IN step(step(V("yb"), t2), t1)
LayIdentities ==
  << [n |-> "Riccati equation over the thickness of a layer",
      t |-> Sub(D(OneOver, "h0"), Mul(IWM(0), Sub(Pow(YTop, 2), Pow(OneOver, 2))))],
     [n |-> "continuity: a layer of no thickness", t |-> Subst(Sub(OneOver, V("yb")), [h0 |-> Zero])],
     [n |-> "splitting a layer (addition theorem of tanh)",
      t |-> Sub(Two(V("t1"), V("t2")), Two(Zero, Div(Add(V("t1"), V("t2")), Add(One, Mul(V("t1"), V("t2"))))))],
     [n |-> "vacuum does not reflect (1 layer)", t |-> Subst(Mul(RTE(1), Add(One, Zero)), [s0 |-> Zero, m0 |-> V("mu0"), l |-> V("l0")])],
     [n |-> "equal layers are a half-space", t |-> Sub(Subst(RTE(3), [s1 |-> S(0), s2 |-> S(0), m1 |-> M(0), m2 |-> M(0)]), RTE(1))],
     [n |-> "thickness of an equal layer is immaterial", t |-> Subst(D(RTE(2), "h0"), [s1 |-> S(0), m1 |-> M(0)])] >>
LayControls == << [n |-> "control: R depends on the top conductivity", t |-> D(RTE(2), "s0")],
                  [n |-> "control: R depends on the thickness", t |-> D(RTE(2), "h0")] >>

Models  == << "generic", "contrast", "equal", "magnetic", "chargeable", "thin", "thick", "vacuum" >>
Lambs   == << "generic", "small", "large", "zero" >>
Layouts == << "F", "C", "strided", "real", "readonly" >>
LayConfigs ==
  {c \in [impl : {"compiled", "reference"}, layers : {"n1", "n2", "n3", "n4", "n5"}, model : Elems(Models),
          lamb : Elems(Lambs), freqs : {"one", "two", "many"}, layout : Elems(Layouts)] :
     /\ (Pos(Models, c.model) + Pos(Lambs, c.lamb) + Pos(Layouts, c.layout)) % 4 = 0
     /\ c.lamb = "zero" => c.model # "vacuum"}
LayReq(c, q) == Std
LayPlan == PlanOf({p \in LayConfigs \X {"R", "ds", "dm", "dh"} : p[2] = "dh" => p[1].layers # "n1"}, LayReq)
LayClause(e) == LawClause(e, LayReq(e.cfg, e.qty))
============================================================================
