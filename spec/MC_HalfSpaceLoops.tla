---------------------------- MODULE MC_HalfSpaceLoops ----------------------------
EXTENDS MCLaws, HalfSpaceLoops
Ids == LoopIdentities
Bad == LoopControls
Ex == LoopTerms
===========================================================================
