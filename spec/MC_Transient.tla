---------------------------- MODULE MC_Transient ----------------------------
EXTENDS MCLaws, Transient
Ids == TraIdentities
Bad == TraControls
Ex == TraTerms
===========================================================================
