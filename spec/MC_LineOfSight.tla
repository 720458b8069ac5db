---------------------------- MODULE MC_LineOfSight ----------------------------
EXTENDS MCLaws, LineOfSight
Ids == LosIdentities
Bad == LosControls
Ex == LosTerms
===========================================================================
