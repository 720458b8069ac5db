---------------------------- MODULE MC_Cylindrical ----------------------------
EXTENDS MCLaws, Cylindrical
Ids == CylIdentities
Bad == CylControls
Ex == CylTerms
===========================================================================
