------------------------------ MODULE MC_Objects ------------------------------
EXTENDS Objects, Json, IOUtils
MCObj == {1, 2}
MCAttr == {1, 2}
MCValue == {1, 2}
Unsound == {"alias argument", "alias result", "shared default", "write argument", "stale memo", "store then check", "query writes"}
MCPol == {"copy"} \cup Unsound
\* explore an unsound discipline only until it is exposed
Note == IF Isolated THEN TRUE ELSE TLCSet(20, TLCGet(20) \cup {pol})
MCInit == Init /\ TLCSet(20, {})
MCSpec == MCInit /\ [][Next]_vars
Explore == Note /\ (pol = "copy" \/ Isolated)
Done == TLCGet("distinct") > 0 /\ Assert(TLCGet(20) = Unsound, <<"not exposed", Unsound \ TLCGet(20)>>)
        /\ JsonSerialize(IOEnv.SPEC_OUT, [exposed |-> TLCGet(20)])
===========================================================================
