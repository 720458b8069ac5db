---------------------------- MODULE TR_Layered ----------------------------
EXTENDS Conform, Layered
===========================================================================
