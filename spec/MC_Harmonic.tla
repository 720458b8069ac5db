---------------------------- MODULE MC_Harmonic ----------------------------
EXTENDS MCLaws, Harmonic
Ids == HarIdentities
Bad == HarControls
Ex == HarTerms
===========================================================================
