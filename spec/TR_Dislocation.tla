---------------------------- MODULE TR_Dislocation ----------------------------
EXTENDS Conform, Dislocation
===========================================================================
