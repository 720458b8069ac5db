------------------------------ MODULE MC_Layout ------------------------------
(* A machine that answers a batch block by block, in any order (as any         *)
(* chunking or vectorisation does): whatever the order, every block ends up    *)
(* in the one slot that belongs to its sample and point.                       *)
EXTENDS Layout, TLC, Json, IOUtils
VARIABLES sam, obs, todo, arr
vars == <<sam, obs, todo, arr>>
Pairs(s, o) == {<<i, j>> : i \in 0..(Size(SamShape(s)) - 1), j \in 0..(Size(ObsShape(o)) - 1)}
Init == /\ sam \in {"scalar", "s1", "s2", "s3"}
        /\ obs \in {"single", "one", "two", "three", "grid", "cube", "column", "empty", "emptygrid"}
        /\ Blocks(sam, obs) <= 9
        /\ todo = Pairs(sam, obs)
        /\ arr = [k \in 1..Blocks(sam, obs) |-> <<>>]
Next == \E p \in todo : /\ todo' = todo \ {p}
                        /\ arr' = [arr EXCEPT ![SlotOf(sam, obs, p[1], p[2])] = p]
                        /\ UNCHANGED <<sam, obs>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OwnSlot == \A k \in DOMAIN arr : arr[k] # <<>> => arr[k] = Owner(sam, obs, k)
NoClash == Cardinality({k \in DOMAIN arr : arr[k] # <<>>}) + Cardinality(todo) = Blocks(sam, obs)
Full == todo = {} => \A k \in DOMAIN arr : arr[k] # <<>>
ShapeSize == \A r \in 0..2 : Size(Whole(sam, obs, r)) = Blocks(sam, obs) * Size(Components(r))
Inverse == \A p \in Pairs(sam, obs) : Owner(sam, obs, SlotOf(sam, obs, p[1], p[2])) = p
Ends == <>(todo = {})
Done == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.SPEC_OUT, [plan |-> LayPlan])
===========================================================================
