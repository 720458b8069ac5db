----------------------------- MODULE MC_Symmetry -----------------------------
(* Words in the generators of the motions, applied step by step to an        *)
(* experiment with integer vectors: what the laws (field of a charge, of a   *)
(* dipole, of a current element, of a mass) give after the word is what the  *)
(* action on the result predicts.                                            *)
EXTENDS Symmetry, TLC, Json, IOUtils
VARIABLES g, word, src, mom, obs
vars == <<g, word, src, mom, obs>>
Gens == { <<E(2, -1), E(1, 1), E(3, 1)>>, <<E(1, 1), E(3, -1), E(2, 1)>>, <<E(1, -1), E(2, 1), E(3, 1)>> }
Id == <<E(1, 1), E(2, 1), E(3, 1)>>
Srcs == {<<0, 0, 0>>, <<1, -2, 3>>}
Moms == {<<0, 0, 1>>, <<2, -1, 3>>}
Obss == {<<4, 1, -2>>, <<1, 1, 1>>}
Init == g = Id /\ word = 0 /\ src \in Srcs /\ mom \in Moms /\ obs \in Obss
Next == /\ word < 9
        /\ \E h \in Gens : g' = Mul(h, g)
        /\ word' = word + 1
        /\ UNCHANGED <<src, mom, obs>>
Spec == Init /\ [][Next]_vars
VIEWg == <<g, src, mom, obs>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
\* numerators (times powers of r, which motions keep) of elementary fields; T = <<1, 5, -7>> a translation
T == <<1, 5, -7>>
Charge(s, m, x) == Sub(x, s)
Dipole(s, m, x) == LET r == Sub(x, s) IN Sub(Scale(3 * Dot(m, r), r), Scale(Dot(r, r), m))
Element(s, m, x) == Cross(m, Sub(x, s))
Tensor(s, m, x) == Outer(Sub(x, s), Sub(x, s))
Pot(s, m, x) == Dot(m, Sub(x, s))
Moved(F(_, _, _), sk) == F(Add(Apply(g, src), T), Act(sk, g, mom), Add(Apply(g, obs), T))
Orthogonal == g \in B3 /\ Mul(g, Transpose(g)) = Id /\ Det(g) \in Signed
Equivariant ==
  /\ Moved(Charge, "polar") = Act("polar", g, Charge(src, mom, obs))
  /\ \A k \in {"polar", "axial"} : Moved(Dipole, k) = Act(k, g, Dipole(src, mom, obs))
  /\ Moved(Element, "polar") = Act("axial", g, Element(src, mom, obs))        \* Biot-Savart: polar current, axial field
  /\ Moved(Element, "axial") = Act("polar", g, Element(src, mom, obs))        \* vector potential of an axial moment is polar
  /\ Moved(Tensor, "polar") = Act("tensor", g, Tensor(src, mom, obs))
  /\ Moved(Pot, "polar") = Act("scalar", g, Pot(src, mom, obs))
Flips == CurlFlips
Done == TLCGet("distinct") > 0 /\ Assert(TLCGet("distinct") = 48 * 8, "the generators do not reach all 48 symmetries")
        /\ JsonSerialize(IOEnv.SPEC_OUT, [plan |-> SymPlan])
===========================================================================
