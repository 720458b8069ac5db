---------------------------- MODULE MC_Limits ----------------------------
EXTENDS MCLaws, Limits
Ids == LimIdentities
Bad == LimControls
Ex == LimTerms
===========================================================================
