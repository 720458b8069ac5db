---------------------------- MODULE TR_Symmetry ----------------------------
EXTENDS Conform, Symmetry
===========================================================================
