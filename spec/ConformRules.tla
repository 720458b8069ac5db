---------------------------- MODULE ConformRules ----------------------------
(* What the specification demands of one observed result.                    *)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b

\* the precision rule: as many digits as required, or as many as double
\* precision leaves after cancellation (15.6 - c) with a margin of slack
Precise(d, c, req, slack) == d >= Min2(req, 156 - c - slack)

\* What is required of a quantity: digits (tenths), slack (tenths), and how
\* the loss of digits is counted: "formula" (as evaluating the law's formula in
\* double precision loses them) or "input" (only what rounding the inputs costs)
Rule(req, slack, mode) == [req |-> req, slack |-> slack, mode |-> mode]
Std == Rule(100, 30, "formula")

PlanOf(S, Req(_, _)) == {[cfg |-> p[1], qty |-> p[2], rule |-> Req(p[1], p[2])] : p \in S}

\* position of an element in a sequence; Thin keeps one in m of the product so
\* that every pair of factor values still occurs
Pos(s, v) == CHOOSE k \in DOMAIN s : s[k] = v
Elems(s) == {s[k] : k \in DOMAIN s}

\* a code result against a law
LawClause(e, rule) ==
  IF e.out # "ok" THEN "raised an error"
  ELSE IF ~ e.shape THEN "layout of the result"
  ELSE IF ~ Precise(e.d, e.c, rule.req, rule.slack) THEN "value differs from the law"
  ELSE ""
============================================================================
