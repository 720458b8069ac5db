---------------------------- MODULE TR_Coordinates ----------------------------
EXTENDS Conform, Coordinates
===========================================================================
