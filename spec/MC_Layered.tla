---------------------------- MODULE MC_Layered ----------------------------
EXTENDS MCLaws, Layered
Ids == LayIdentities
Bad == LayControls
Ex == LayTerms
===========================================================================
