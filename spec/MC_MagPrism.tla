---------------------------- MODULE MC_MagPrism ----------------------------
EXTENDS MCLaws, MagPrism
Ids == MPIdentities
Bad == MPControls
Ex == MPTerms
===========================================================================
