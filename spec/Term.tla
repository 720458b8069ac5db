------------------------------- MODULE Term -------------------------------
(***************************************************************************)
(* A differential term algebra: the language in which every physical law   *)
(* of the specification is written.                                        *)
(*                                                                         *)
(*   <<"q", n, d>>      the rational n/d                                   *)
(*   <<"i">>            the imaginary unit                                 *)
(*   <<"pi">>           pi                                                 *)
(*   <<"v", name>>      a variable / parameter                             *)
(*   <<"+", <<t...>>>>  sum          <<"*", <<t...>>>>  product            *)
(*   <<"^", t, n, d>>   t^(n/d), d in {1, 2}                               *)
(*   <<"f", name, t>>   a transcendental function                          *)
(*   <<"d", t, x>>      the derivative of t with respect to variable x     *)
(*   <<"s", t, s>>      t with the terms s[x] substituted for variables x  *)
(*                                                                         *)
(* Ev evaluates a term in the prime field F_P.                             *)
(* Transcendental functions are interpreted as algebraically independent   *)
(* values (a hash of function and argument) that respect the relations     *)
(* the laws use (sin^2 + cos^2 = 1).  An identity between terms that holds *)
(* at random points of F_P under that interpretation holds as an identity  *)
(* of the differential field with probability 1 - deg/P per point.         *)
(*                                                                         *)
(* The same terms are exported as JSON and evaluated in high precision by  *)
(* the conformance harness: they are the oracle for the implementation.    *)
(***************************************************************************)
EXTENDS Fp, FiniteSets, TLC

Q(n, d) == <<"q", n, d>>
N(n)    == <<"q", n, 1>>
V(s)    == <<"v", s>>
Im      == <<"i">>
Pi      == <<"pi">>
Zero    == N(0)
One     == N(1)

IsQ(t)    == t[1] = "q"
IsZero(t) == t[1] = "q" /\ t[2] = 0
IsOne(t)  == t[1] = "q" /\ t[2] = 1 /\ t[3] = 1

\* ---- smart constructors (only drop 0 and 1; no normal form is claimed) ----
RECURSIVE FilterZ(_)
FilterZ(s) == IF s = <<>> THEN <<>>
              ELSE IF IsZero(Head(s)) THEN FilterZ(Tail(s))
              ELSE <<Head(s)>> \o FilterZ(Tail(s))
RECURSIVE FilterO(_)
FilterO(s) == IF s = <<>> THEN <<>>
              ELSE IF IsOne(Head(s)) THEN FilterO(Tail(s))
              ELSE <<Head(s)>> \o FilterO(Tail(s))

\* (TLCEval forces TLC's otherwise lazily re-evaluated function constructors)
SumT(s) == LET z == FilterZ(TLCEval(s)) IN
           IF Len(z) = 0 THEN Zero ELSE IF Len(z) = 1 THEN z[1] ELSE <<"+", z>>
ProdT(s0) == LET s == TLCEval(s0) IN
            IF \E k \in DOMAIN s : IsZero(s[k]) THEN Zero
            ELSE LET o == FilterO(s) IN
                 IF Len(o) = 0 THEN One ELSE IF Len(o) = 1 THEN o[1] ELSE <<"*", o>>

Add(a, b) == SumT(<<a, b>>)
Mul(a, b) == ProdT(<<a, b>>)
Neg(a)    == ProdT(<<N(-1), a>>)
Sub(a, b) == SumT(<<a, Neg(b)>>)
PowQ(a, n, d) == IF n = 0 THEN One ELSE IF n = d THEN a ELSE <<"^", a, n, d>>
Pow(a, n) == PowQ(a, n, 1)
Sqrt(a)   == PowQ(a, 1, 2)
Inv(a)    == PowQ(a, -1, 1)
Div(a, b) == ProdT(<<a, Inv(b)>>)
Fn(f, a)  == <<"f", f, a>>
Exp(a)    == Fn("exp", a)

\* ---- derivation: a node, given its meaning by Ev (and by the harness) -----
D(t, x) == IF t[1] \in {"q", "i", "pi"} THEN Zero
           ELSE IF t[1] = "v" THEN (IF t[2] = x THEN One ELSE Zero)
           ELSE <<"d", t, x>>

\* ---- vector calculus in Cartesian coordinates --------------------------
XYZ == <<"x", "y", "z">>
VX == V("x")  VY == V("y")  VZ == V("z")

Grad(t) == TLCEval([k \in 1..3 |-> D(t, XYZ[k])])
DivV(w) == SumT([k \in 1..3 |-> D(w[k], XYZ[k])])
Curl(w) == << Sub(D(w[3], "y"), D(w[2], "z")),
              Sub(D(w[1], "z"), D(w[3], "x")),
              Sub(D(w[2], "x"), D(w[1], "y")) >>
Lap(t)  == SumT([k \in 1..3 |-> D(D(t, XYZ[k]), XYZ[k])])
Hess(t) == TLCEval([k \in 1..3 |-> [j \in 1..3 |-> D(D(t, XYZ[k]), XYZ[j])]])
Scale(c, w)   == TLCEval([k \in 1..3 |-> Mul(c, w[k])])
VAdd(u, w)    == TLCEval([k \in 1..3 |-> Add(u[k], w[k])])
VSub(u, w)    == TLCEval([k \in 1..3 |-> Sub(u[k], w[k])])
Dot(u, w)     == SumT([k \in 1..3 |-> Mul(u[k], w[k])])
Cross(u, w)   == << Sub(Mul(u[2], w[3]), Mul(u[3], w[2])),
                    Sub(Mul(u[3], w[1]), Mul(u[1], w[3])),
                    Sub(Mul(u[1], w[2]), Mul(u[2], w[1])) >>
Vec(p)        == << V(p \o "x"), V(p \o "y"), V(p \o "z") >>

\* substitution of terms for variables (s: function from names to terms);
\* derivatives are taken before the substitution: <<"s", t, s>> is a node
Subst(t, s) == <<"s", t, [x \in DOMAIN s |-> TLCEval(s[x])]>>

\* ---- evaluation in F_P -------------------------------------------------
(* Numbers of level k are k-fold nested dual numbers <<a, b>> = a + b eps   *)
(* with eps^2 = 0; level 0 is F_P.  Evaluating a derivative node evaluates  *)
(* its argument one level higher with x perturbed by eps and takes the eps  *)
(* part: this is exact differentiation in the field.                        *)
RECURSIVE NAdd(_, _, _), NMul(_, _, _), NScl(_, _, _), NCon(_, _), NInv(_, _), NSqrt(_, _)
NAdd(k, a, b) == IF k = 0 THEN FAdd(a, b) ELSE <<NAdd(k-1, a[1], b[1]), NAdd(k-1, a[2], b[2])>>
NMul(k, a, b) == IF k = 0 THEN FMul(a, b)
                 ELSE <<NMul(k-1, a[1], b[1]),
                        NAdd(k-1, NMul(k-1, a[1], b[2]), NMul(k-1, a[2], b[1]))>>
NScl(k, c, a) == IF k = 0 THEN FMul(c, a) ELSE <<NScl(k-1, c, a[1]), NScl(k-1, c, a[2])>>
NCon(k, c)    == IF k = 0 THEN c ELSE <<NCon(k-1, c), NCon(k-1, 0)>>
NNeg(k, a)    == NScl(k, P - 1, a)
NSub(k, a, b) == NAdd(k, a, NNeg(k, b))
NInv(k, a)    == IF k = 0 THEN FInv(a)
                 ELSE LET i == NInv(k-1, a[1]) IN <<i, NNeg(k-1, NMul(k-1, a[2], NMul(k-1, i, i)))>>
NSqrt(k, a)   == IF k = 0 THEN FSqrt(a)
                 ELSE LET s == NSqrt(k-1, a[1]) IN
                      <<s, NMul(k-1, a[2], NInv(k-1, NScl(k-1, 2, s)))>>
RECURSIVE NPow(_, _, _)
NPow(k, a, n) == IF n = 0 THEN NCon(k, 1)
                 ELSE IF n = 1 THEN a
                 ELSE IF n < 0 THEN NInv(k, NPow(k, a, -n))
                 ELSE IF n % 2 = 1 THEN NMul(k, a, NPow(k, a, n - 1))
                 ELSE LET h == NPow(k, a, n \div 2) IN NMul(k, h, h)

FnCode(f) == CASE f = "exp" -> 1 [] f = "log" -> 2 [] f = "atan" -> 3
               [] f = "sin" -> 4 [] f = "cos" -> 4 [] f = "erf" -> 5
               [] f = "ellipk" -> 6 [] f = "ellipe" -> 7
               [] f = "ive0" -> 8 [] f = "ive1" -> 9 [] f = "ive2" -> 10
               [] f = "tanh" -> 12 [] f = "j0" -> 13 [] f = "j1" -> 14
               [] f = "ik1" -> 15 [] f = "ik2" -> 16
               [] OTHER -> 11

Hash(c, a) == (((a * a) % P) * (7 * c + 3) + a * (13 * c + 5) + 1009 * c + 17) % P

FFn(f, a) ==
  IF a = Undef THEN Undef
  ELSE IF a = 0 /\ f = "exp" THEN 1
  ELSE IF a = 0 /\ f \in {"tanh", "erf", "atan"} THEN 0
  ELSE LET h == Hash(FnCode(f), a) IN
       CASE f = "cos" -> FMul(FAdd(1, FNeg((h * h) % P)), FInv(FAdd(1, (h * h) % P)))
         [] f = "sin" -> FMul((2 * h) % P, FInv(FAdd(1, (h * h) % P)))
         [] OTHER -> h

PiRoot == 31415                    \* an arbitrary element standing for sqrt(pi)
PiVal  == (PiRoot * PiRoot) % P

RECURSIVE NFn(_, _, _), NDFn(_, _, _, _)
NFn(k, f, a) == IF k = 0 THEN FFn(f, a)
                ELSE LET v == NFn(k-1, f, a[1])
                     IN <<v, NMul(k-1, a[2], NDFn(k-1, f, a[1], v))>>
\* the derivative of f at a, where v = f(a)
NDFn(k, f, a, v) ==
  CASE f = "exp"  -> v
    [] f = "log"  -> NInv(k, a)
    [] f = "atan" -> NInv(k, NAdd(k, NCon(k, 1), NMul(k, a, a)))
    [] f = "tanh" -> NSub(k, NCon(k, 1), NMul(k, v, v))
    [] f = "sin"  -> NFn(k, "cos", a)
    [] f = "cos"  -> NNeg(k, NFn(k, "sin", a))
    \* erf' = 2/sqrt(pi) exp(-a^2)
    [] f = "erf"  -> NScl(k, FMul(2, FInv(PiRoot)), NFn(k, "exp", NNeg(k, NMul(k, a, a))))
    \* complete elliptic integrals of parameter m
    [] f = "ellipk" -> LET c == NSub(k, NCon(k, 1), a) IN
                       NMul(k, NSub(k, NFn(k, "ellipe", a), NMul(k, c, v)),
                               NInv(k, NScl(k, 2, NMul(k, a, c))))
    [] f = "ellipe" -> NMul(k, NSub(k, v, NFn(k, "ellipk", a)), NInv(k, NScl(k, 2, a)))
    \* exponentially scaled modified Bessel functions  exp(-x) I_n(x), x > 0
    [] f = "ive0" -> NSub(k, NFn(k, "ive1", a), v)
    [] f = "ive1" -> NSub(k, NFn(k, "ive0", a), NMul(k, NAdd(k, NCon(k, 1), NInv(k, a)), v))
    \* Bessel functions
    [] f = "j0" -> NNeg(k, NFn(k, "j1", a))
    [] f = "j1" -> NSub(k, NFn(k, "j0", a), NMul(k, NInv(k, a), v))
    [] OTHER -> Assert(FALSE, <<"no derivation rule for", f>>)

RECURSIVE EvK(_, _, _), EvSum(_, _, _, _), EvProd(_, _, _, _)
EvSum(k, s, j, env)  == IF j = 1 THEN EvK(k, s[1], env)
                        ELSE NAdd(k, EvSum(k, s, j - 1, env), EvK(k, s[j], env))
EvProd(k, s, j, env) == IF j = 1 THEN EvK(k, s[1], env)
                        ELSE NMul(k, EvProd(k, s, j - 1, env), EvK(k, s[j], env))
EvK(k, t, env) ==
  CASE t[1] = "q"  -> NCon(k, FRat(t[2], t[3]))
    [] t[1] = "v"  -> env[t[2]]
    [] t[1] = "+"  -> EvSum(k, t[2], Len(t[2]), env)
    [] t[1] = "*"  -> EvProd(k, t[2], Len(t[2]), env)
    [] t[1] = "^"  -> IF t[4] = 1 THEN NPow(k, EvK(k, t[2], env), t[3])
                      ELSE NPow(k, NSqrt(k, EvK(k, t[2], env)), t[3])
    [] t[1] = "i"  -> NCon(k, IUnit)
    [] t[1] = "pi" -> NCon(k, PiVal)
    [] t[1] = "f"  -> NFn(k, t[2], EvK(k, t[3], env))
    [] t[1] = "d"  -> LET e == TLCEval([s \in DOMAIN env |->
                                   <<env[s], NCon(k, IF s = t[3] THEN 1 ELSE 0)>>])
                      IN EvK(k + 1, t[2], e)[2]
    [] t[1] = "s"  -> LET e == TLCEval([s \in DOMAIN env \cup DOMAIN t[3] |->
                                   IF s \in DOMAIN t[3] THEN EvK(k, t[3][s], env) ELSE env[s]])
                      IN EvK(k, t[2], e)
Ev(t, env) == EvK(0, t, env)

\* the free variables of a term
RECURSIVE Vars(_)
Vars(t) ==
  CASE t[1] = "v" -> {t[2]}
    [] t[1] \in {"+", "*"} -> UNION {Vars(t[2][k]) : k \in 1..Len(t[2])}
    [] t[1] = "^" -> Vars(t[2])
    [] t[1] = "f" -> Vars(t[3])
    [] t[1] = "d" -> Vars(t[2])
    [] t[1] = "s" -> (Vars(t[2]) \ DOMAIN t[3]) \cup UNION {Vars(t[3][s]) : s \in DOMAIN t[3]}
    [] OTHER -> {}

\* A pseudo-random environment: a function of the sample number and name.
EnvAt(names, n) ==     \* names: a sequence of variable names
  [s \in {names[k] : k \in DOMAIN names} |->
     LET k == CHOOSE j \in DOMAIN names : names[j] = s
     IN ((((n * 7919 + k * 104 + 1) % P) * (((n * 31 + k * 17) % 211) + 3)) % (P - 1)) + 1]
==========================================================================
