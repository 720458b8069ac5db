---------------------------- MODULE TR_Gravity ----------------------------
EXTENDS Conform, Gravity
===========================================================================
