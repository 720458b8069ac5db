------------------------------- MODULE MC_Grid -------------------------------
(* The odometer: a machine that walks a grid by incrementing the first       *)
(* index and carrying.  TLC checks, for every grid shape in the bounds, that *)
(* it visits every combination exactly once and in the order of GridRows,    *)
(* and that flattening is the same walk over the array.                      *)
EXTENDS Grid, TLC, Json, IOUtils
VARIABLES sh, ix, pos, seen
vars == <<sh, ix, pos, seen>>

RECURSIVE Carry(_, _)
Carry(s, t) == IF t = <<>> THEN <<>>
               ELSE IF t[1] + 1 < s[1] THEN <<t[1] + 1>> \o Tail(t)
               ELSE <<0>> \o Carry(Tail(s), Tail(t))
AllShapes == Sizes1 \cup Sizes2 \cup Sizes3 \cup {<<n, m, p>> : n \in 1..5, m \in {5}, p \in 1..5} \cup {<<2, 3, 2, 2>>, <<1, 2, 3, 4>>}
Init == /\ sh \in AllShapes
        /\ ix = [k \in DOMAIN sh |-> 0]
        /\ pos = 1
        /\ seen = {[k \in DOMAIN sh |-> 0]}
Next == /\ pos < Prod(sh)
        /\ ix' = Carry(sh, ix)
        /\ pos' = pos + 1
        /\ seen' = seen \cup {ix'}
        /\ UNCHANGED sh
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InOrder   == ix = GridRows(sh)[pos]
Fresh     == Cardinality(seen) = pos                       \* never the same combination twice
Complete  == pos = Prod(sh) => seen = {t \in [DOMAIN sh -> 0..5] : \A k \in DOMAIN sh : t[k] < sh[k]}
FlatWalk  == Flat(sh)[pos] = CPos(sh, ix)
Layouts   == \A k \in 1..Prod(sh) : \A j \in DOMAIN sh : GridArr(sh, j)[k] = LastFast(sh, k - 1)[j]
CInverse  == CPos(sh, ix) + 1 \in 1..Prod(sh) /\ LastFast(sh, CPos(sh, ix)) = ix
Ends      == <>(pos = Prod(sh))
\* the algebra of the point functions on a small box: symmetry, Lagrange's identity
Small == {<<x, y, z>> : x \in -1..2, y \in {-3, 0, 1}, z \in {-2, 5}}
ASSUME \A p \in Small, o \in Small :
  /\ Dot(p, o) = Dot(o, p) /\ Minus(p, o) = [i \in 1..3 |-> - Minus(o, p)[i]]
  /\ Dot(Cross(p, o), p) = 0 /\ Dot(Cross(p, o), o) = 0
  /\ Dot(Cross(p, o), Cross(p, o)) + Dot(p, o) * Dot(p, o) = Dot(p, p) * Dot(o, o)
  /\ Dot(Minus(p, o), Minus(p, o)) = Dot(p, p) - 2 * Dot(p, o) + Dot(o, o)
Done == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.SPEC_OUT, [plan |-> GrdPlan])
============================================================================
