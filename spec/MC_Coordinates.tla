---------------------------- MODULE MC_Coordinates ----------------------------
EXTENDS MCLaws, Coordinates
Ids == CooIdentities
Bad == CooControls
Ex == CooTerms
===========================================================================
