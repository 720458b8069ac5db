---------------------------- MODULE MC_DirectCurrent ----------------------------
EXTENDS MCLaws, DirectCurrent
Ids == DCIdentities
Bad == DCControls
Ex == DCTerms
===========================================================================
