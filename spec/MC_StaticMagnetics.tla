---------------------------- MODULE MC_StaticMagnetics ----------------------------
EXTENDS MCLaws, StaticMagnetics
Ids == MagIdentities \o MagIdentities2
Bad == MagControls
Ex == MagTerms
===========================================================================
