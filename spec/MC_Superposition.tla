-------------------------- MODULE MC_Superposition --------------------------
(* Sources taken apart and put together again: a wire refined, reversed and   *)
(* entered elsewhere; a box cut into boxes.  The chain never changes.          *)
EXTENDS Superposition, TLC, Json, IOUtils
VARIABLES kind, whole, parts, sign
vars == <<kind, whole, parts, sign>>
StartWires == {w \in Nodes \X Nodes \X Nodes : Straight(w[1], w[2]) /\ Straight(w[2], w[3])}
              \cup {<<p, q, r, s, p>> : <<p, q, r, s>> \in {<< <<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>> >>, << <<1, 0>>, <<1, 2>>, <<0, 2>>, <<0, 0>> >>}}
Boxes == {b \in Corner \X Corner : Box(b)}
Init == /\ sign = 1
        /\ \/ kind = "wire" /\ whole \in StartWires /\ parts = <<whole>>
           \/ kind = "box" /\ whole \in Boxes /\ parts = <<whole>>
Plain(w) == \A i \in 1..(Len(w) - 1) : w[i] # w[i + 1]
Refine == \E j \in DOMAIN parts, k \in 1..6 : LET w == parts[j] IN k < Len(w) /\ Len(w) < 6 /\ (\A i \in DOMAIN parts : Plain(parts[i]))
            /\ \E m \in Inner(w[k], w[k + 1]) : parts' = [parts EXCEPT ![j] = Insert(w, k, m)] /\ UNCHANGED sign
Repeat == \E j \in DOMAIN parts, k \in 1..6 : LET w == parts[j] IN k <= Len(w) /\ Len(w) < 5 /\ parts = <<whole>> /\ Plain(w)
            /\ parts' = [parts EXCEPT ![j] = Insert(w, k, w[k])] /\ UNCHANGED sign
Break == \E j \in DOMAIN parts, k \in 2..6 : LET w == parts[j] IN k < Len(w) /\ Len(parts) < 3
            /\ parts' = SubSeq(parts, 1, j - 1) \o <<SubSeq(w, 1, k), SubSeq(w, k, Len(w))>> \o SubSeq(parts, j + 1, Len(parts)) /\ UNCHANGED sign
Flip == parts' = [j \in DOMAIN parts |-> Reverse(parts[j])] /\ sign' = 0 - sign
Enter == \E j \in DOMAIN parts : LET w == parts[j] IN w[1] = w[Len(w)] /\ parts' = [parts EXCEPT ![j] = Shift(w)] /\ UNCHANGED sign
CutBox == \E j \in DOMAIN parts, i \in 1..3, m \in M : LET b == parts[j] IN b[1][i] < m /\ m < b[2][i]
            /\ parts' = SubSeq(parts, 1, j - 1) \o Cut(b, i, m) \o SubSeq(parts, j + 1, Len(parts)) /\ UNCHANGED sign
Next == /\ IF kind = "wire" THEN Refine \/ Repeat \/ Break \/ Flip \/ Enter ELSE CutBox
        /\ UNCHANGED <<kind, whole>>
Spec == Init /\ [][Next]_vars
Signed(f) == IF sign = 1 THEN f ELSE Neg(f)
SameWire == kind = "wire" => SumSeq(parts, WireChain, Zero(Cells)) = Signed(WireChain(whole))
SameEnds == kind = "wire" => SumSeq(parts, Ends, Zero(Nodes)) = Signed(Ends(whole))
Boundary == kind = "wire" => \A j \in DOMAIN parts : \A p \in Nodes :
   Ends(parts[j])[p] = (LET c == WireChain(parts[j]) IN (IF p[1] > 0 THEN c[<< <<p[1] - 1, p[2]>>, "h">>] ELSE 0) - c[<<p, "h">>]
                                                       + (IF p[2] > 0 THEN c[<< <<p[1], p[2] - 1>>, "v">>] ELSE 0) - c[<<p, "v">>])
SameBox == kind = "box" => SumSeq(parts, BoxChain, Zero(Corner)) = BoxChain(whole)
\* a control: forgetting the sign of one corner class is noticed
BadBox(b) == [c \in Corner |-> IF c = b[1] THEN 0 ELSE BoxChain(b)[c]]
ASSUME \E b \in Boxes : \E i \in 1..3, m \in M : b[1][i] < m /\ m < b[2][i] /\ SumSeq(Cut(b, i, m), BadBox, Zero(Corner)) # BadBox(b)
ASSUME \A c \in DOMAIN Classes : Strengths(c) \subseteq DOMAIN Classes[c].attrs /\ Vectors(c) \subseteq DOMAIN Classes[c].attrs
Done == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.SPEC_OUT, [plan |-> SupPlan])
===========================================================================
