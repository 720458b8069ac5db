---------------------------- MODULE MC_Kernels ----------------------------
EXTENDS MCLaws, Kernels
Ids == KerIdentities
Bad == KerControls
Ex == KerTerms
===========================================================================
