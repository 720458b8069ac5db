-------------------------------- MODULE Fp --------------------------------
(***************************************************************************)
(* Arithmetic in the prime field F_P.  P < 46341, so every product of two  *)
(* residues fits TLC's 32-bit integers, and P = 5 (mod 8), so F_P contains *)
(* a square root of -1 (the image of the imaginary unit) and square roots  *)
(* have a closed form.  Undefined (division by zero, root of a             *)
(* non-residue) is the value Undef and is propagated by every operator.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

P == 46309
Undef == -1

FAdd(a, b) == IF a = Undef \/ b = Undef THEN Undef ELSE (a + b) % P
FMul(a, b) == IF a = Undef \/ b = Undef THEN Undef ELSE (a * b) % P
FNeg(a)    == IF a = Undef THEN Undef ELSE (P - a) % P

RECURSIVE FPowN(_, _)
FPowN(a, n) ==                     \* n >= 0
  IF n = 0 THEN 1
  ELSE IF n % 2 = 1 THEN (a * FPowN((a * a) % P, n \div 2)) % P
       ELSE FPowN((a * a) % P, n \div 2)

FInv(a) == IF a = Undef \/ a = 0 THEN Undef ELSE FPowN(a, P - 2)

FPowZ(a, n) ==                     \* n any integer
  IF a = Undef THEN Undef
  ELSE IF n >= 0 THEN FPowN(a, n)
  ELSE IF a = 0 THEN Undef ELSE FPowN(FInv(a), -n)

FInt(n) == n % P                   \* TLA+ % is non-negative for P > 0

FRat(n, d) == IF d = 1 THEN FInt(n) ELSE FMul(FInt(n), FInv(FInt(d)))

\* A fixed square root (P = 5 mod 8); Undef for non-residues.
FSqrt(a) ==
  IF a = Undef THEN Undef
  ELSE IF a = 0 THEN 0
  ELSE LET c == FPowN(a, (P + 3) \div 8)
           c2 == (c * FPowN(2, (P - 1) \div 4)) % P
       IN IF (c * c) % P = a THEN c
          ELSE IF (c2 * c2) % P = a THEN c2
          ELSE Undef

IUnit == FPowN(2, (P - 1) \div 4)  \* IUnit^2 = -1 because 2 is a non-residue
==========================================================================
