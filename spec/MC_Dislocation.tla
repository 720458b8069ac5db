---------------------------- MODULE MC_Dislocation ----------------------------
EXTENDS MCLaws, Dislocation
Ids == DislIdentities
Bad == DislControls
Ex == DislTerms
===========================================================================
