------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* Models that have a common limit, and the rate of their agreement.       *)
(*                                                                         *)
(* A limit has a small parameter eps; the two models differ, relative to   *)
(* the size of the limit, by at most C eps^order.  In tenths of decimal    *)
(* digits: level = -log10 eps, agreement >= order * level - const.         *)
(*                                                                         *)
(* The order is not postulated.  For sources that are small compared with  *)
(* the distance it is computed by TLC from the moments of the source       *)
(* (integer chains); for limits in frequency or time it follows from the   *)
(* Taylor coefficients of the laws, which are identities checked in F_P.   *)
(***************************************************************************)
EXTENDS Term, ConformRules, FiniteSets
Hm == INSTANCE Harmonic
Tr == INSTANCE Transient
Sm == INSTANCE StaticMagnetics
Hl == INSTANCE HalfSpaceLoops
Sp == INSTANCE Spheres

\* ---- orders of compact sources: weighted lattice points ----------------------
\* the n-th multipole of a set of weighted points seen from direction u: sum w |x|^n |u|^n P_n
Dot3(u, x) == u[1] * x[1] + u[2] * x[2] + u[3] * x[3]
Leg(n, u, x) == LET d == Dot3(u, x) q == Dot3(u, u) * Dot3(x, x) IN
  CASE n = 0 -> 1 [] n = 1 -> d [] n = 2 -> 3 * d * d - q [] n = 3 -> 5 * d * d * d - 3 * d * q
    [] OTHER -> 35 * d * d * d * d - 30 * d * d * q + 3 * q * q
Directions == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>, <<1, 2, 3>>, <<1, -1, 2>>, <<2, -1, -1>>}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN f[p] + SumOver(S \ {p}, f)
\* a source: a set of <<point, weight>>
Multipole(src, n) == \E u \in Directions : SumOver(src, [p \in src |-> p[2] * Leg(n, u, p[1])]) # 0
First(src, from) == IF \E n \in from..4 : Multipole(src, n) THEN CHOOSE n \in from..4 : Multipole(src, n) /\ \A m \in from..(n - 1) : ~ Multipole(src, m) ELSE 5
\* how fast the source approaches its leading multipole
OrderOf(src) == LET l == First(src, 0) IN First(src, l + 1) - l
Shifted(src, s) == {<< <<p[1][1] + s[1], p[1][2] + s[2], p[1][3] + s[3]>>, p[2]>> : p \in src}
BoxOf(a, b, c) == {<< <<i, j, k>>, 1>> : <<i, j, k>> \in {-a, a} \X {-b, b} \X {-c, c}}
Pair == {<< <<0, 0, 1>>, 1>>, << <<0, 0, -1>>, -1>>}
Twins == {<< <<0, 0, 1>>, 1>>, << <<0, 0, -1>>, 1>>}
\* a plane loop is a sheet of equal dipoles over the surface it bounds: cells of a square
Sheet == {<< <<i, j, 0>>, 1>> : <<i, j>> \in {-1, 1} \X {-1, 1}}
SheetTri == {<< <<0, 2, 0>>, 1>>, << <<-1, -1, 0>>, 1>>, << <<1, -1, 0>>, 1>>}      \* three cells about their centroid
SheetHex == {<< <<2, 0, 0>>, 1>>, << <<-2, 0, 0>>, 1>>, << <<0, 1, 0>>, 2>>, << <<0, -1, 0>>, 2>>}

\* ---- identities of the frequency and time limits ------------------------------
Comp(nm, w) == [j \in 1..3 |-> [n |-> nm \o " [" \o XYZ[j] \o "]", t |-> w[j]]]
Map3(F(_), w) == << F(w[1]), F(w[2]), F(w[3]) >>
OnR(t) == Subst(t, [r |-> Sqrt(Hm!R2)])
Wave(t) == Subst(t, [g |-> Exp(Neg(Hm!IKR))])
At0(t) == OnR(Subst(Wave(t), [k |-> Zero]))
First0(t) == OnR(Subst(D(Wave(t), "k"), [k |-> Zero]))
Second0(t) == OnR(Subst(D(D(Wave(t), "k"), "k"), [k |-> Zero]))
\* the loop on a half-space: N(ka) = -a (ka)^2 H / (n I)
LoopN == Sub(N(3), Mul(SumT(<<N(3), Mul(N(3), Hl!Ika), Neg(Pow(Hl!Ka, 2))>>), Exp(Neg(Hl!Ika))))
DerN(j) == LET RECURSIVE F(_)
               F(i) == IF i = 0 THEN LoopN ELSE D(F(i - 1), "ka")
           IN Subst(F(j), [ka |-> Zero])
\* the transient factors: functions of u = theta r, Taylor coefficients at u = 0
Uv == V("u")
ErfU == Fn("erf", Uv)
ComU == ProdT(<<Uv, PowQ(Pi, -1, 2), Exp(Neg(Pow(Uv, 2)))>>)
DerU(t, j) == LET RECURSIVE F(_)
                  F(i) == IF i = 0 THEN t ELSE D(F(i - 1), "u")
              IN Subst(F(j), [u |-> Zero])
HFac == Sub(ErfU, Mul(N(2), ComU))
SFac == Sub(Mul(N(3), ErfU), Mul(Add(Mul(N(4), Pow(Uv, 2)), N(6)), ComU))
OFac == Sub(ErfU, Mul(Add(Mul(N(4), Pow(Uv, 2)), N(2)), ComU))
StatDip == Map3(LAMBDA t : Subst(t, [m |-> V("p")]), Sm!DipB)
LimIdentities ==
  Comp("magnetic dipole: static limit of mu H", VSub(Map3(At0, Scale(V("mu"), Scale(Mul(V("p"), Hm!C4), Hm!Dy))), StatDip))
  \o Comp("magnetic dipole: no first-order term in k", Map3(First0, Hm!Dy))
  \o Comp("element of current: no first-order term in k", Map3(First0, Hm!Ct))
  \o << [n |-> "loop on a half-space: N(0) = 0", t |-> DerN(0)], [n |-> "loop on a half-space: N'(0) = 0", t |-> DerN(1)],
        [n |-> "loop on a half-space: N''(0) = -1, the free-space loop", t |-> Add(DerN(2), One)],
        [n |-> "loop on a half-space: N'''(0) = 0, order two", t |-> DerN(3)],
        [n |-> "transient H: no term in u", t |-> DerU(HFac, 1)], [n |-> "transient H: no term in u^2", t |-> DerU(HFac, 2)],
        [n |-> "transient E, radial: no term in u", t |-> DerU(SFac, 1)], [n |-> "transient E, radial: no term in u^3", t |-> DerU(SFac, 3)],
        [n |-> "transient E, along: no term in u", t |-> DerU(OFac, 1)], [n |-> "transient E, along: no term in u^2", t |-> DerU(OFac, 2)],
        [n |-> "ball: secondary is the dipole of moment 4 pi R^3 chi F", t |->
           LET dip == Scale(ProdT(<<Sp!Chi, Sp!R3>>), VSub(Scale(ProdT(<<N(3), Dot(Sp!F0, Sp!Rv), PowQ(Sp!R2, -5, 2)>>), Sp!Rv), Scale(PowQ(Sp!R2, -3, 2), Sp!F0)))
           IN Sub(VSub(Sp!FtOut, Sp!F0)[1], dip[1])] >>
LimControls == << [n |-> "control: second-order term in k", t |-> Second0(Hm!Dy[1])],
                  [n |-> "control: vector potential has a first-order term", t |-> OnR(Subst(D(Wave(Hm!Gg), "k"), [k |-> Zero]))],
                  [n |-> "control: transient H has a term in u^3", t |-> DerU(HFac, 3)],
                  [n |-> "control: transient A has a term in u", t |-> DerU(ErfU, 1)],
                  [n |-> "control: loop has a term in k^4", t |-> DerN(4)] >>
LimTerms == [none |-> Zero]

\* ---- the limits: orders ----------------------------------------------------------
\* kind "power": eps = 10^-(level/10); "gauss": the difference is exp(-u^2), u = level; "exact": no parameter
Power(o, k) == [kind |-> "power", order |-> o, const |-> k]
Gauss(k) == [kind |-> "gauss", order |-> 0, const |-> k]
Exact(k) == [kind |-> "exact", order |-> 0, const |-> k]
Rate(c, q) ==
  CASE c.limit = "low_magnetic" -> Power(2, 5)
    [] c.limit = "low_electric" -> Power(IF q = "A" THEN 1 ELSE 2, 10)
    [] c.limit = "plane_low" -> Power(1, 5)
    [] c.limit = "transient_early" -> Gauss(32)
    [] c.limit = "transient_late" -> Power(IF q = "A" THEN 1 ELSE 3, 10)
    [] c.limit = "transient_late_dt" -> Power(3, 10)
    [] c.limit = "fdloop_low" -> Power(2, 0)
    [] c.limit = "fdloop_high" -> Power(2, 14)
    [] c.limit = "tdloop_early" -> Power(2, 8)
    [] c.limit = "tdloop_late" -> Power(3, 0)
    [] c.limit = "tddipole_early" -> Power(1, 10)
    [] c.limit = "tddipole_late" -> Power(3, 4)
    [] c.limit = "half_low" -> Power(2, 2)
    [] c.limit = "half_high" -> Power(1, 12)
    [] c.limit = "layered_low" -> Power(2, 6)
    [] c.limit = "layered_contrast" -> Power(1, 3)
    [] c.limit = "layered_high" -> Power(1, 12)
    [] c.limit = "loop_dipole" -> Power(OrderOf(Sheet), 15)
    [] c.limit = "wire_dipole" -> Power(OrderOf(CASE c.form = "triangle" -> SheetTri [] c.form = "square" -> Sheet [] c.form = "corner" -> Shifted(Sheet, <<1, 1, 0>>) [] OTHER -> SheetHex), 16)
    [] c.limit = "polygon_loop" -> Power(2, 3)
    [] c.limit = "prism_dipole" -> Power(OrderOf(CASE c.form = "cube" -> BoxOf(1, 1, 1) [] c.form = "corner" -> Shifted(BoxOf(1, 2, 3), <<1, 2, 3>>) [] OTHER -> BoxOf(1, 2, 3)), 20)
    [] c.limit = "prism_mass" -> Power(OrderOf(CASE c.form = "cube" -> BoxOf(1, 1, 1) [] c.form = "corner" -> Shifted(BoxOf(1, 2, 3), <<1, 2, 3>>) [] OTHER -> BoxOf(1, 2, 3)), 20)
    [] c.limit = "poles_dipole" -> Power(OrderOf(IF c.form = "middle" THEN Pair ELSE Shifted(Pair, <<0, 0, 1>>)), 12)
    [] c.limit = "wire_electric" -> Power(OrderOf(IF c.form = "middle" THEN Pair ELSE Shifted(Pair, <<0, 0, 1>>)), 12)
    [] c.limit = "electrodes_shallow" -> Power(OrderOf(Twins), 13)
    [] c.limit = "electrode_deep" -> Power(IF q = "V" THEN 1 ELSE 2, 2)
    [] c.limit = "electrode_remote" -> Power(IF q = "V" THEN 1 ELSE 2, 10)
    [] c.limit \in {"ball_contrast", "ball_conductor", "ball_insulator"} -> Power(1, 8)
    [] OTHER -> Exact(0)
ASSUME OrderOf(BoxOf(1, 1, 1)) = 4 /\ OrderOf(BoxOf(1, 2, 3)) = 2 /\ OrderOf(Shifted(BoxOf(1, 2, 3), <<1, 2, 3>>)) = 1
ASSUME OrderOf(Pair) = 2 /\ OrderOf(Shifted(Pair, <<0, 0, 1>>)) = 1 /\ OrderOf(Sheet) = 2 /\ OrderOf(SheetTri) = 2 /\ OrderOf(SheetHex) = 2 /\ OrderOf(Twins) = 2

L(n, qs, fs, ls) == {<<[limit |-> n, form |-> f, level |-> v], q>> : f \in fs, v \in ls, q \in qs}
Fine == {5, 10, 15, 20, 30}
Wide == {10, 20, 30, 40}
LimSet ==
  L("low_magnetic", {"H", "B", "E"}, {"quasi", "full"}, Wide)
  \cup L("low_electric", {"A", "J", "H", "B", "E"}, {"quasi", "full"}, Wide)
  \cup L("plane_low", {"E", "J"}, {"quasi", "full"}, Wide)
  \cup L("transient_early", {"A", "H", "B", "E", "J"}, {"-"}, {3, 4, 5, 6})
  \cup L("transient_late", {"A", "H", "B", "E", "J"}, {"-"}, {5, 10, 15, 20})
  \cup L("transient_late_dt", {"dH", "dB"}, {"-"}, {5, 10, 15, 20})
  \cup L("fdloop_low", {"H", "B"}, {"total", "secondary"}, {5, 10, 15, 20})
  \cup L("fdloop_high", {"H", "B"}, {"total"}, {5, 10, 15, 20})
  \cup L("tdloop_early", {"H", "B"}, {"-"}, {5, 10, 15, 20})
  \cup L("tdloop_late", {"H", "B"}, {"-"}, {5, 10, 15, 20})
  \cup L("tddipole_early", {"H", "B"}, {"class", "function"}, {5, 10, 15, 20})
  \cup L("tddipole_late", {"H", "B"}, {"class", "function"}, {5, 10, 15, 20})
  \cup L("half_low", {"total", "secondary"}, {"x", "y", "z", "generic"}, {5, 10, 15})
  \cup L("half_high", {"total", "secondary"}, {"x", "y", "z", "generic"}, {5, 10, 15, 20})
  \cup L("layered_low", {"total", "secondary"}, {"one", "three"}, {5, 10, 15, 20})
  \cup L("layered_contrast", {"total", "secondary"}, {"sigma", "mu"}, {5, 10, 15, 20, 30})
  \cup L("layered_high", {"total", "secondary"}, {"one", "three"}, {5, 10, 15})
  \cup L("loop_dipole", {"A", "H", "B"}, {"-"}, Fine)
  \cup L("wire_dipole", {"A", "H", "B"}, {"triangle", "square", "hexagon", "corner"}, {5, 10, 15, 20})
  \cup L("polygon_loop", {"A", "H", "B"}, {"-"}, {5, 10, 15, 20})
  \cup L("prism_dipole", {"H", "B"}, {"cube", "box", "corner"}, {5, 10, 15})
  \cup L("prism_mass", {"V", "g", "gg"}, {"cube", "box", "corner"}, {5, 10, 15})
  \cup L("poles_dipole", {"H", "B"}, {"middle", "end"}, Fine)
  \cup L("wire_electric", {"H", "B", "J", "E", "A"}, {"middle", "end"}, Fine)
  \cup L("electrodes_shallow", {"V", "E", "J"}, {"-"}, Fine)
  \cup L("electrode_deep", {"V", "E", "J"}, {"-"}, Wide)
  \cup L("electrode_remote", {"V", "E", "J"}, {"-"}, Wide)
  \cup L("ball_contrast", {"V", "F", "D"}, {"electric", "magnetic"}, Wide)
  \cup L("ball_conductor", {"F"}, {"electric", "magnetic"}, Wide)
  \cup L("ball_insulator", {"D"}, {"electric", "magnetic"}, Wide)
  \cup L("ball_dipole", {"F", "D"}, {"electric", "magnetic"}, {0})
  \cup L("ball_analogy", {"V", "F", "D"}, {"total", "primary", "secondary"}, {0})
  \cup L("ball_mass", {"V", "g", "gg"}, {"near", "far"}, {0})
  \cup L("surface_doubling", {"V", "E", "J"}, {"-"}, {0})
  \cup L("point_wire", {"V", "E", "J"}, {"-"}, {0})
Demand(c, q) == LET r == Rate(c, q) IN
  IF r.kind = "exact" THEN 100
  ELSE IF r.kind = "gauss" THEN ((4343 * c.level * c.level) \div 1000) - r.const
  ELSE r.order * c.level - r.const
LimReq(c, q) == Rule(IF Demand(c, q) > 100 THEN 100 ELSE Demand(c, q), 30, "formula")
LimPlan == PlanOf(LimSet, LimReq)
LimClause(e) == IF e.out # "ok" THEN "raised an error" ELSE IF ~ e.shape THEN "layout of the result"
                ELSE IF ~ Precise(e.d, e.c, LimReq(e.cfg, e.qty).req, 30) THEN "the models do not approach each other at the rate of the theory" ELSE ""
=============================================================================
