---------------------------- MODULE MC_Spheres ----------------------------
EXTENDS MCLaws, Spheres
Ids == SphIdentities
Bad == SphControls
Ex == SphTerms
===========================================================================
