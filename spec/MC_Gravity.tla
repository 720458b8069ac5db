---------------------------- MODULE MC_Gravity ----------------------------
EXTENDS MCLaws, Gravity
Ids == GravIdentities \o PrismIdentities
Bad == << [n |-> "control: wrong ball interior", t |-> Lap(UIn)] >>
Ex == GravTerms
===========================================================================
