---------------------------- MODULE MC_Medium ----------------------------
EXTENDS MCLaws, Medium
Ids == MedIdentities
Bad == MedControls
Ex == MedTerms
===========================================================================
