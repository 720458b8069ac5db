------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* The nine prism kernels as functions of the offsets (a, b, c), for every *)
(* pattern Z of offsets that vanish.  Where an offset vanishes the kernel  *)
(* is the limit of its expression; on a line where the expression is       *)
(* singular it is the regular part of it (the singular parts of the two    *)
(* ends of an edge cancel in the corner rule): the logarithm keeps         *)
(* log(-2 b), the odd singular part of a third derivative counts zero.     *)
(***************************************************************************)
EXTENDS Prism, ConformRules

Zeros == {"none", "a", "b", "c", "ab", "bc", "ca", "abc"}
ZSet(z) == CASE z = "none" -> {} [] z = "a" -> {"a"} [] z = "b" -> {"b"} [] z = "c" -> {"c"}
             [] z = "ab" -> {"a", "b"} [] z = "bc" -> {"b", "c"} [] z = "ca" -> {"c", "a"} [] OTHER -> {"a", "b", "c"}

\* a summand: the offsets in its prefactor, and the term
FParts == << <<{"a", "b"}, ProdT(<<N(-1), Ka, Kb, KLog(Kc)>>)>>, <<{"b", "c"}, ProdT(<<N(-1), Kb, Kc, KLog(Ka)>>)>>,
             <<{"c", "a"}, ProdT(<<N(-1), Kc, Ka, KLog(Kb)>>)>>,
             <<{"a"}, ProdT(<<Q(1, 2), Pow(Ka, 2), KAtan(Ka, Kb, Kc)>>)>>,
             <<{"b"}, ProdT(<<Q(1, 2), Pow(Kb, 2), KAtan(Kb, Kc, Ka)>>)>>,
             <<{"c"}, ProdT(<<Q(1, 2), Pow(Kc, 2), KAtan(Kc, Ka, Kb)>>)>> >>
FzParts == << <<{"a"}, Mul(Ka, KLog(Kb))>>, <<{"b"}, Mul(Kb, KLog(Ka))>>, <<{"c"}, ProdT(<<N(-1), Kc, KAtan(Kc, Ka, Kb)>>)>> >>
FzzParts == << <<{"c"}, KAtan(Kc, Ka, Kb)>> >>
\* third derivatives: odd in the offsets named, which multiply the rest
FzzzParts == << <<{"a", "b"}, ProdT(<<Ka, Kb, Inv(Kr), Inv(Add(Pow(Ka, 2), Pow(Kc, 2)))>>)>>,
                <<{"a", "b"}, ProdT(<<Ka, Kb, Inv(Kr), Inv(Add(Pow(Kb, 2), Pow(Kc, 2)))>>)>> >>
FxxyParts == << <<{"a", "c"}, ProdT(<<N(-1), Ka, Kc, Inv(Kr), Inv(Add(Pow(Ka, 2), Pow(Kb, 2)))>>)>> >>
FxxzParts == << <<{"a", "b"}, ProdT(<<N(-1), Ka, Kb, Inv(Kr), Inv(Add(Pow(Ka, 2), Pow(Kc, 2)))>>)>> >>

AtZero(t, z) == IF ZSet(z) = {} THEN t ELSE Subst(t, [x \in ZSet(z) |-> Zero])
Parts(ps, z) == SumT([k \in DOMAIN ps |-> IF ps[k][1] \cap ZSet(z) # {} THEN Zero ELSE AtZero(ps[k][2], z)])
\* -log(p + r): pos is for p > 0 or off the p axis, neg is its regular part on the negative p axis
LogNeg(p) == Fn("log", Mul(N(-2), p))
LogK(p, others, z, sgn) ==
  IF z = "abc" THEN Zero
  ELSE IF ZSet(z) = others /\ sgn = "neg" THEN LogNeg(p)
  ELSE AtZero(Neg(KLog(p)), z)

Names == {"prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz"}
KerAt(n, z, sgn) ==
  CASE n = "prism_f" -> Parts(FParts, z) [] n = "prism_fz" -> Parts(FzParts, z) [] n = "prism_fzz" -> Parts(FzzParts, z)
    [] n = "prism_fzx" -> LogK(Kb, {"a", "c"}, z, sgn)
    [] n = "prism_fzy" -> LogK(Ka, {"b", "c"}, z, sgn)
    [] n = "prism_fzzz" -> Parts(FzzzParts, z) [] n = "prism_fxxy" -> Parts(FxxyParts, z) [] n = "prism_fxxz" -> Parts(FxxzParts, z)
    [] OTHER -> IF z = "abc" THEN Zero ELSE AtZero(Inv(Kr), z)
KerTerms == [n \in Names |-> [z \in Zeros |-> [s \in {"pos", "neg"} |-> KerAt(n, z, s)]]]

K(n) == KerAt(n, "none", "pos")
KerIdentities == PrismIdentities \o
  << [n |-> "fz  = -df/dz (modulo)",  t |-> Mod3(Add(K("prism_fz"), D(K("prism_f"), "c")))],
     [n |-> "fzz = -dfz/dz (modulo)", t |-> Mod3(Add(K("prism_fzz"), D(K("prism_fz"), "c")))],
     [n |-> "fzx = -dfz/dx (modulo)", t |-> Mod3(Add(K("prism_fzx"), D(K("prism_fz"), "a")))],
     [n |-> "fzy = -dfz/dy (modulo)", t |-> Mod3(Add(K("prism_fzy"), D(K("prism_fz"), "b")))],
     [n |-> "fzzz = -dfzz/dz",         t |-> Add(K("prism_fzzz"), D(K("prism_fzz"), "c"))],
     [n |-> "fxyz = -dfzx/dy",        t |-> Add(K("prism_fxyz"), D(K("prism_fzx"), "b"))],
     [n |-> "fxxy = d/dy of the xx kernel", t |-> Sub(K("prism_fxxy"), D(KFaa, "b"))],
     [n |-> "fxxz = d/dz of the xx kernel", t |-> Sub(K("prism_fxxz"), D(KFaa, "c"))] >>
KerControls == << [n |-> "control: fz is not +df/dz", t |-> Mod3(Sub(K("prism_fz"), D(K("prism_f"), "c")))] >>

Arrays == << "flat", "zerod", "grid", "cube", "empty", "strided", "readonly", "fortran", "int" >>   \* all implementations
Loose  == << "scalar", "list", "broadcast", "single", "mixed" >>                    \* accelerated only
Sizes  == << "unit", "tiny", "huge", "disparate", "nearaxis", "closeaxis" >>
KerConfigs ==
  {c \in [impl : {"compiled", "reference"}, zeros : Zeros, size : Elems(Sizes), form : Elems(Arrays \o Loose)] :
     /\ c.form \in Elems(Loose) => c.impl = "compiled"
     /\ c.form = "int" => c.size \in {"unit", "disparate"}
     /\ c.size \in {"disparate", "nearaxis", "closeaxis"} => c.zeros \in {"none", "a", "b", "c"}
     /\ c.form = "mixed" => c.size = "unit"
     /\ c.zeros = "abc" => c.size = "unit"
     /\ (c.form # "flat" /\ c.zeros \notin {"none", "abc"}) =>
           (Pos(Arrays \o Loose, c.form) + Pos(Sizes, c.size)) % 3 = 0}
KerReq(c, q) == Rule(80, 30, IF q \in {"prism_f", "prism_fz"} THEN "formula" ELSE "input")
KerPlan == PlanOf({p \in KerConfigs \X Names : p[1].size = "closeaxis" => p[2] \notin {"prism_f", "prism_fz"}}, KerReq)
KerClause(e) == LawClause(e, KerReq(e.cfg, e.qty))
============================================================================
