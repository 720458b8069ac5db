------------------------------ MODULE Gravity ------------------------------
(***************************************************************************)
(* Newtonian potential theory of the three bodies of the library: a point  *)
(* mass, a homogeneous ball, a homogeneous right rectangular prism.        *)
(* Sign convention of the library: U = +G m / r,  g = grad U,  T = grad g. *)
(***************************************************************************)
EXTENDS Term, Prism, ConformRules

Xc == << Sub(VX, V("cx")), Sub(VY, V("cy")), Sub(VZ, V("cz")) >>
R2 == SumT(<<Pow(Xc[1], 2), Pow(Xc[2], 2), Pow(Xc[3], 2)>>)
RR == Sqrt(R2)

UPoint == ProdT(<<V("G"), V("m"), PowQ(R2, -1, 2)>>)
MBall  == ProdT(<<Q(4, 3), Pi, Pow(V("R"), 3), V("rho")>>)
UOut   == ProdT(<<V("G"), MBall, PowQ(R2, -1, 2)>>)
UIn    == ProdT(<<V("G"), Q(2, 3), Pi, V("rho"), Sub(Mul(N(3), Pow(V("R"), 2)), R2)>>)
UPrism == ProdT(<<V("G"), V("rho"), W>>)          \* W: Prism.tla, integral of 1/r

GravTerms ==
  [ PointMass    |-> [U |-> UPoint, g |-> Grad(UPoint), T |-> Hess(UPoint)],
    SphereOut    |-> [U |-> UOut,   g |-> Grad(UOut),   T |-> Hess(UOut)],
    SphereIn     |-> [U |-> UIn,    g |-> Grad(UIn),    T |-> Hess(UIn)],
    PointMassMass |-> [m |-> V("m")],
    SphereMass   |-> [m |-> MBall],
    PrismMass    |-> [m |-> ProdT(<<V("rho"), Sub(V("x2"), V("x1")), Sub(V("y2"), V("y1")), Sub(V("z2"), V("z1"))>>)],
    Prism        |-> [U |-> UPrism,
                      g |-> Scale(Mul(V("G"), V("rho")), GradW),
                      T |-> [k \in 1..3 |-> Scale(Mul(V("G"), V("rho")), HessW[k])]] ]

\* On the surface of the ball: z - cz = sqrt(R^2 - (x-cx)^2 - (y-cy)^2)
\* (R is written as a root, so that one branch of the root is used throughout)
OnBall(t) == Subst(Subst(t, [R |-> Sqrt(V("Rsq"))]), [z |-> Add(V("cz"), Sqrt(SumT(<<V("Rsq"),
                        Neg(Pow(Xc[1], 2)), Neg(Pow(Xc[2], 2))>>)))])

GravIdentities ==
  << [n |-> "Laplace: point mass",         t |-> Lap(UPoint)],
     [n |-> "Laplace: outside the ball",   t |-> Lap(UOut)],
     [n |-> "Poisson: inside the ball",    t |-> Add(Lap(UIn), ProdT(<<N(4), Pi, V("G"), V("rho")>>))],
     [n |-> "potential continuous on the ball", t |-> OnBall(Sub(UIn, UOut))],
     [n |-> "g_x continuous on the ball",  t |-> OnBall(Sub(Grad(UIn)[1], Grad(UOut)[1]))],
     [n |-> "g_z continuous on the ball",  t |-> OnBall(Sub(Grad(UIn)[3], Grad(UOut)[3]))],
     [n |-> "ball outside = point mass",   t |-> Sub(UOut, Subst(UPoint, [m |-> MBall]))] >>

\* ---- the plan: abstract configurations -----------------------------------
GravConfigs ==
  [src : {"PointMass"}, strength : {"pos", "neg", "zero", "int"}, loc : {"origin", "offset", "far", "int"},
   region : {"generic", "axis", "plane", "near", "far"}]
  \cup
  [src : {"Sphere"}, strength : {"pos", "neg", "zero", "int"}, loc : {"origin", "offset", "far", "int"},
   region : {"inside", "outside", "centre", "justinside", "justoutside", "surface", "far", "axis"}]
  \cup
  [src : {"Prism"}, strength : {"pos", "neg", "zero", "int"}, loc : {"cube", "slab", "needle", "octant", "far", "int"},
   region : {"outside", "inside", "above", "below", "faceplane", "edgeline", "axis", "near", "surface", "far"}]
GravReq(c, q) == Std
\* (the gradient tensor jumps at the surface of a body)
GravPlan == PlanOf({p \in GravConfigs \X {"U", "g", "T", "m"} : ~ (p[1].region = "surface" /\ p[2] = "T")}, GravReq)
GravClause(e) == LawClause(e, GravReq(e.cfg, e.qty))
============================================================================
