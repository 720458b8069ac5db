---------------------------- MODULE TR_Harmonic ----------------------------
EXTENDS Conform, Harmonic
===========================================================================
