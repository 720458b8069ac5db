---------------------------- MODULE MC_PlaneWave ----------------------------
EXTENDS MCLaws, PlaneWave
Ids == PwIdentities
Bad == PwControls
Ex == PwTerms
===========================================================================
