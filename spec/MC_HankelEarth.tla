---------------------------- MODULE MC_HankelEarth ----------------------------
EXTENDS MCLaws, HankelEarth
Ids == HankIdentities
Bad == HankControls
Ex == HankTerms
===========================================================================
